// See weave.h. Compiled without instrumentation; uses no containers of the standard library,
// as those the program instantiates are instrumented.
#include <exception>
#include "weave.h"
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/futex.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;

extern "C" char __executable_start;

namespace {

enum { MAXTH = 24, MAXEV = 1 << 22, MAXDEC = 1 << 16, TEXT = 1 << 24 };

// ------------------------------------------------------------------ memory
// Blocks are never reused: an address means one object only.
const size_t ARENA = size_t(1) << 30;
char* g_arena; size_t g_used = 0;
u32* g_unit;                    // for each 16 bytes of the arena, the number of the block
struct Block { u64 start; u32 size; u8 freed; };
Block* g_block; u32 g_blocks = 0; long g_live = 0;

void* big(size_t n) {
   void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if(p == MAP_FAILED) _exit(77);
   return p;
}
void arena_init() {
   if(g_arena) return;
   g_arena = (char*) big(ARENA);
   g_unit = (u32*) big(ARENA / 16 * 4);
   g_block = (Block*) big(sizeof(Block) * (ARENA / 32));
}
inline bool in_arena(u64 a) { return g_arena && a >= (u64) g_arena && a < (u64) g_arena + ARENA; }
void* alloc(size_t n) {
   arena_init();
   size_t need = (n + 15) / 16 * 16; if(need == 0) need = 16;
   if(g_used + need + 32 > ARENA) return nullptr;
   char* p = g_arena + g_used + 16;
   u32 id = ++g_blocks;
   g_block[id] = { (u64) p, (u32) n, 0 };
   for(size_t i = 0; i < need / 16; ++i) g_unit[(p - g_arena) / 16 + i] = id;
   g_used += need + 16;
   ++g_live;
   return p;
}

// ------------------------------------------------------------------ state
enum State { FREE_, RUN, B_MUTEX, B_COND, B_JOIN, B_GUARD, B_ONCE, B_QUIESCE, B_RD, B_WR, SLEEP, DONE };
struct Th {
   State st; int sem; u64 on; u64 mtx; bool timed, timedout; u64 order;
   void* (*fn)(void*); void* arg; void* ret; pthread_t real; bool haveReal;
   int prio; u64 lo, hi; u32 epoch;
   struct { void (*f)(void*); void* o; } dtor[64]; int dtors;
   int parent;
};
Th th[MAXTH]; int nth = 0; int cur = 0;
bool active = false; bool recording = false;
__thread int tl_id = 0;
__thread int tl_rt = 0;      // inside the runtime
__thread int tl_quiet = 0;
u64 steps = 0, maxsteps = 60000; int samerun = 0; u64 orderCount = 0;

struct Ev { u8 type, tid; u16 size; u32 pc; u64 addr; u64 aux; };
enum EvT { E_R, E_W, E_FREE, E_AR, E_AW, E_RMW, E_CASF, E_FENCE, E_LOCK, E_UNLOCK, E_SPAWN, E_JOIN, E_YIELD, E_TEXT, E_WAIT, E_SIG, E_GUARD, E_TRYF, E_BEGIN, E_RDLOCK, E_RDUNLOCK, E_VR, E_VW };
Ev* ev; u32 nev = 0;
char* text; size_t ntext = 0;

// random numbers
u64 rs[2]; u64 ss;
u32 next(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (z ^ (z >> 31)) >> 16; }
u32 rnd(u32 n) { return n ? next(rs[0]) % n : 0; }

// policy
enum Pol { P_RANDOM, P_PCT, P_DFS };
Pol policy; u32 pswitch; u64 change[8]; int nchange; int lowprio; u32 pplain;
struct Dec { u8 n, chosen, cont; };     // enabled threads, which one, the one running before if it was enabled (or 255)
Dec* dec; u32 ndec = 0; const u8* prefix; u32 nprefix = 0;
int spuriousPct = 0;

void fwait(int* s) { while(__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, s, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(s, 0, __ATOMIC_RELEASE); }
void fpost(int* s) { __atomic_store_n(s, 1, __ATOMIC_RELEASE); syscall(SYS_futex, s, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

void finish(const char* how, const char* detail);

void add(int type, u64 addr, u32 size, u64 aux, void* pc) {
   if(!recording) return;
   if(nev >= MAXEV) { recording = false; finish("overflow", ""); }
   ev[nev++] = Ev{ (u8) type, (u8) tl_id, (u16) (size > 65535 ? 65535 : size), (u32) ((u64) pc - (u64) &__executable_start), addr, aux };
}

// ------------------------------------------------------------------ tables keyed by address
struct Mx { u64 key; int owner; int count; int readers; int type; };
struct Tab { u64 key; u64 v; };
Mx mx[1 << 15]; Tab guards[1024]; Tab onces[256];
Mx* mutex_at(u64 a) { u32 h = (a >> 3) * 2654435761u % (1 << 15); while(mx[h].key && mx[h].key != a) h = (h + 1) % (1 << 15); if(!mx[h].key) { mx[h].key = a; mx[h].owner = 0; mx[h].count = 0; mx[h].readers = 0; } return &mx[h]; }
Tab* tab_at(Tab* t, u32 n, u64 a) { u32 h = (a >> 3) * 2654435761u % n; while(t[h].key && t[h].key != a) h = (h + 1) % n; if(!t[h].key) { t[h].key = a; t[h].v = 0; } return &t[h]; }

struct Named { u64 addr; u64 size; const char* text; } named[256]; int nnamed = 0;

// ------------------------------------------------------------------ scheduling
bool enabled(int i) {
   Th& t = th[i];
   switch(t.st) {
   case RUN: case SLEEP: return true;
   case B_MUTEX: { Mx* m = mutex_at(t.on); return m->owner == 0 && m->readers == 0; }
   case B_WR: { Mx* m = mutex_at(t.on); return m->owner == 0 && m->readers == 0; }
   case B_RD: { Mx* m = mutex_at(t.on); return m->owner == 0; }
   case B_JOIN: return th[t.on].st == DONE;
   case B_GUARD: return tab_at(guards, 1024, t.on)->v == 0 || *(volatile char*) t.on;
   case B_ONCE: return tab_at(onces, 256, t.on)->v != 1;
   default: return false;
   }
}

// Passes control to thread n (not the one running).
void pass(int n) {
   int me = tl_id;
   cur = n; samerun = 0;
   fpost(&th[n].sem);
   if(th[me].st == DONE) return;
   fwait(&th[me].sem);
}

const char* stname(State s) { static const char* n[] = { "free", "run", "mutex", "cond", "join", "guard", "once", "quiesce", "rd", "wr", "sleep", "done" }; return n[s]; }

// Chooses who runs next; blocked: the running thread cannot go on.
void reschedule(bool voluntary) {
   int me = tl_id;
   if(++steps > maxsteps) finish("livelock", "");
   int en[MAXTH], n = 0; bool meOk = false;
   for(int i = 1; i <= nth; ++i) if(enabled(i)) { if(i == me) meOk = true; en[n++] = i; }
   // sleepers go only when nobody else can
   if(n > 1) { int k = 0; for(int i = 0; i < n; ++i) if(th[en[i]].st != SLEEP) en[k++] = en[i]; if(k) { n = k; meOk = false; for(int i = 0; i < n; ++i) if(en[i] == me) meOk = true; } }
   if(n == 0) {
      // whoever waits for silence, then whoever waits for time
      for(int i = 1; i <= nth; ++i) if(th[i].st == B_QUIESCE) { th[i].st = RUN; if(i != me) pass(i); return; }
      int best = 0;
      for(int i = 1; i <= nth; ++i) if(th[i].st == B_COND && th[i].timed && (!best || th[i].order < th[best].order)) best = i;
      if(best) { th[best].timedout = true; th[best].st = B_MUTEX; th[best].on = th[best].mtx;
         if(enabled(best)) { if(best != me) pass(best); return; } }
      char b[600]; int l = 0;
      for(int i = 1; i <= nth && l < 500; ++i) l += snprintf(b + l, sizeof b - l, "%s%d:%s", i > 1 ? " " : "", i, stname(th[i].st));
      finish("deadlock", b);
   }
   int pick = -1;
   if(n == 1) pick = en[0];
   else if(policy == P_DFS) {
      u8 chosen = 0;
      if(ndec < nprefix) chosen = prefix[ndec] < n ? prefix[ndec] : 0;
      else {
         // go on; when yielding or blocked, the next one round
         int want = meOk && !voluntary && samerun < 40 ? me : 0;
         if(!want) { for(int i = 0; i < n; ++i) if(en[i] > me) { want = en[i]; break; } if(!want) want = en[0] != me ? en[0] : en[1]; }
         for(int i = 0; i < n; ++i) if(en[i] == want) chosen = i;
      }
      if(ndec < MAXDEC) { int c = 255; if(meOk && !voluntary) for(int i = 0; i < n; ++i) if(en[i] == me) c = i; dec[ndec++] = Dec{ (u8) n, chosen, (u8) c }; }
      pick = en[chosen];
   }
   else if(policy == P_PCT) {
      for(int c = 0; c < nchange; ++c) if(change[c] == steps) th[me].prio = --lowprio;
      if(voluntary || samerun > 60) th[me].prio = --lowprio;
      for(int i = 0; i < n; ++i) if(pick < 0 || th[en[i]].prio > th[pick].prio) pick = en[i];
   }
   else {
      if(meOk && !voluntary && samerun < 60 && rnd(100) >= pswitch) pick = me;
      else { do pick = en[rnd(n)]; while(pick == me && (voluntary || samerun >= 60) && n > 1); }
   }
   if(pick == me) { ++samerun; return; }
   pass(pick);
}

void sync_point() { if(active && tl_id && !tl_quiet) reschedule(false); }

// Blocks until the state lets it go on.
void block(State s, u64 on) {
   Th& t = th[tl_id];
   t.st = s; t.on = on;
   if(s == B_QUIESCE) { reschedule(false); t.st = RUN; return; }
   do reschedule(false); while(!enabled(tl_id));
   t.st = RUN;
}

void lock(u64 a, bool record, void* pc) {
   Mx* m = mutex_at(a);
   if(m->type == PTHREAD_MUTEX_RECURSIVE && m->owner == tl_id) { ++m->count; return; }
   while(m->owner != 0 || m->readers) {
      if(!active) finish("deadlock", "lock taken twice");
      if(m->owner == tl_id) { char b[64]; snprintf(b, sizeof b, "%d locks a mutex it holds", tl_id); th[tl_id].st = B_MUTEX; th[tl_id].on = a; block(B_MUTEX, a); }
      else block(B_MUTEX, a);
   }
   m->owner = tl_id ? tl_id : 1; m->count = 1;
   if(record) add(E_LOCK, a, 0, 0, pc);
}
void unlock(u64 a, void* pc) {
   Mx* m = mutex_at(a);
   if(m->readers) { --m->readers; add(E_RDUNLOCK, a, 0, 0, pc); return; }
   if(m->owner != (tl_id ? tl_id : 1)) { if(active) finish("badunlock", "a mutex is unlocked by a thread that does not hold it"); return; }
   if(--m->count > 0) return;
   add(E_UNLOCK, a, 0, 0, pc);
   m->owner = 0;
}

// ------------------------------------------------------------------ plain accesses
struct Gr { u64 g; u8 last; u8 shared; };
Gr* gr; const u32 NGR = 1 << 20;
bool plainOn = true;

void access(u64 a, u32 size, bool write, void* pc, int type) {
   if(!active || tl_rt || tl_quiet || !tl_id) return;
   Th& t = th[tl_id];
   if(a >= t.lo && a < t.hi) { if(!plainOn) return; }
   else {
      if(in_arena(a)) {
         u32 id = g_unit[(a - (u64) g_arena) / 16];
         if(id == 0 || a + size > g_block[id].start + g_block[id].size) { if(recording) { add(type, a, size, 0, pc); finish("badaccess", "access outside of a block of memory"); } }
         else if(g_block[id].freed) { if(recording) { add(type, a, size, 0, pc); finish("uaf", "use of memory already released"); } }
      }
      u64 g = a >> 3; u32 h = (g * 0x9E3779B97F4A7C15ull) >> 44;
      for(int k = 0; k < 8 && gr[h].g && gr[h].g != g; ++k) h = (h + 1) % NGR;
      if(gr[h].g != g) { gr[h].g = g; gr[h].last = tl_id; gr[h].shared = 0; }
      if(gr[h].last != tl_id) { gr[h].shared = 1; gr[h].last = tl_id; }
      if(policy != P_DFS && gr[h].shared && pplain && rnd(pplain) == 0) { tl_rt++; reschedule(false); tl_rt--; }
      if(!plainOn && type != E_VR && type != E_VW) return;
   }
   add(type, a, size, 0, pc);
}

void range(u64 a, size_t n, bool write, void* pc) {
   // in pieces of 8, aligned
   while(n) { u32 k = 8 - (a & 7); if(k > n) k = n; access(a, k, write, pc, write ? E_W : E_R); a += k; n -= k; }
}

// ------------------------------------------------------------------ end of a run
char* out; size_t nout = 0; const size_t OUT = 1 << 26;     // shared with the parent
struct Shared { volatile u64 len; volatile u32 ndec; volatile u32 complete; Dec dec[MAXDEC]; };
Shared* shared;

void put(const char* f, ...) __attribute__((format(printf, 1, 2)));
void put(const char* f, ...) { va_list ap; va_start(ap, f); int l = vsnprintf(out + nout, OUT - nout - 1, f, ap); va_end(ap); if(l > 0 && nout + l < OUT - 1) nout += l; }

const char* moname(u64 mo) { static const char* n[] = { "rlx", "acq", "acq", "rel", "ar", "sc" }; return mo < 6 ? n[mo] : "sc"; }

struct Gi { u64 g; u32 th; u8 w; u8 bnd; };     // granule: threads, written, cell boundaries
Gi* gi; const u32 NGI = 1 << 21;
Gi* gi_at(u64 g, bool make) { u32 h = (g * 0x9E3779B97F4A7C15ull) >> 43; while(gi[h].g && gi[h].g != g) h = (h + 1) % NGI; if(!gi[h].g) { if(!make) return nullptr; gi[h].g = g; } return &gi[h]; }
struct Ci { u64 a; int id; u32 er[MAXTH + 1], ew[MAXTH + 1]; };
Ci* ci; const u32 NCI = 1 << 18; int ncell = 0;
Ci* cell(u64 a) { u32 h = (a * 0x9E3779B97F4A7C15ull) >> 46; while(ci[h].a && ci[h].a != a) h = (h + 1) % NCI; if(!ci[h].a) { ci[h].a = a; ci[h].id = ++ncell; } return &ci[h]; }
Tab* ids; int nids = 0;
int lockid(u64 a) { Tab* t = tab_at(ids, 1 << 18, a); if(!t->v) t->v = ++nids; return t->v; }

void where(u64 a, char* b, size_t n) {
   for(int i = 0; i < nnamed; ++i) if(a >= named[i].addr && a < named[i].addr + named[i].size) { snprintf(b, n, "%s+%lu", named[i].text, (unsigned long) (a - named[i].addr)); return; }
   if(in_arena(a)) { u32 id = g_unit[(a - (u64) g_arena) / 16]; snprintf(b, n, "heap%u(%u)+%lu", id, g_block[id].size, (unsigned long) (a - g_block[id].start)); return; }
   for(int i = 1; i <= nth; ++i) if(a >= th[i].lo && a < th[i].hi) { snprintf(b, n, "stack of %d", i); return; }
   snprintf(b, n, "global");
}

bool emitAcc = true;

void finish(const char* how, const char* detail) {
   tl_rt++;
   recording = false; active = false;
   gi = (Gi*) big(sizeof(Gi) * NGI); ci = (Ci*) big(sizeof(Ci) * NCI); ids = (Tab*) big(sizeof(Tab) * (1 << 18));
   // which granules are touched by several threads, one of them writing
   for(u32 i = 0; i < nev; ++i) {
      Ev& e = ev[i];
      if(e.type == E_R || e.type == E_W || e.type == E_VR || e.type == E_VW || (e.type >= E_AR && e.type <= E_CASF)) {
         u64 a = e.addr; u32 n = e.size;
         while(n) { u32 k = 8 - (a & 7); if(k > n) k = n; Gi* g = gi_at(a >> 3, true); g->th |= 1u << e.tid; if(e.type != E_R && e.type != E_VR && e.type != E_AR && e.type != E_CASF) g->w = 1;
            g->bnd |= 1 << (a & 7); if((a & 7) + k < 8) g->bnd |= 1 << ((a & 7) + k); a += k; n -= k; }
      }
      else if(e.type == E_FREE) { for(u64 g = e.addr >> 3; g <= (e.addr + e.aux - 1) >> 3; ++g) { Gi* x = gi_at(g, false); if(x) { x->th |= 1u << e.tid; x->w = 1; } } }
   }
   put("{\"how\":\"%s\",\"detail\":\"%s\",\"ev\":[", how, detail);
   bool first = true;
   #define SEP (first ? (first = false, "") : ",")
   char w[120];
   for(u32 i = 0; i < nev; ++i) {
      Ev& e = ev[i];
      if(nout > OUT - 4096 || ncell > (int) NCI / 2 || nids > 1 << 17) break;
      switch(e.type) {
      case E_R: case E_W: case E_VR: case E_VW: case E_FREE: {
         u64 a = e.addr; u64 n = e.type == E_FREE ? e.aux : e.size;
         while(n) {
            u64 k = 8 - (a & 7); if(k > n) k = n;
            Gi* g = gi_at(a >> 3, false);
            bool vol = e.type == E_VR || e.type == E_VW;
            if(g && (g->w && (g->th & (g->th - 1)) )) {
               if(emitAcc || vol)
               for(u64 b = a; b < a + k; ++b) if(b == a || (g->bnd >> (b & 7) & 1)) {
                  Ci* c = cell(b); u32 ep = th[e.tid].epoch;
                  bool wr = e.type == E_W || e.type == E_FREE || e.type == E_VW;
                  if(!vol && c->ew[e.tid] == ep + 1) continue;
                  if(!vol && !wr && c->er[e.tid] == ep + 1) continue;
                  if(!vol) { if(wr) c->ew[e.tid] = ep + 1; else c->er[e.tid] = ep + 1; }
                  where(b, w, sizeof w);
                  put("%s[\"%s\",%d,%d,\"%s\",%u]", SEP, vol ? (wr ? "AW" : "AR") : e.type == E_FREE ? "F" : wr ? "W" : "R", e.tid, c->id, vol ? "rlx" : w, e.pc);
               }
            }
            a += k; n -= k;
         }
         break; }
      case E_AR: case E_AW: case E_RMW: case E_CASF: {
         Ci* c = cell(e.addr);
         where(e.addr, w, sizeof w);
         put("%s[\"%s\",%d,%d,\"%s\",%u,\"%s\"]", SEP, e.type == E_AR ? "AR" : e.type == E_AW ? "AW" : e.type == E_RMW ? "RMW" : "CASF", e.tid, c->id, moname(e.aux), e.pc, w);
         th[e.tid].epoch++; break; }
      case E_FENCE: put("%s[\"FN\",%d,\"%s\"]", SEP, e.tid, moname(e.aux)); th[e.tid].epoch++; break;
      case E_LOCK: put("%s[\"L\",%d,%d]", SEP, e.tid, lockid(e.addr)); th[e.tid].epoch++; break;
      case E_UNLOCK: put("%s[\"U\",%d,%d]", SEP, e.tid, lockid(e.addr)); th[e.tid].epoch++; break;
      case E_RDLOCK: put("%s[\"RL\",%d,%d]", SEP, e.tid, lockid(e.addr)); th[e.tid].epoch++; break;
      case E_RDUNLOCK: put("%s[\"RU\",%d,%d]", SEP, e.tid, lockid(e.addr)); th[e.tid].epoch++; break;
      case E_SPAWN: put("%s[\"S\",%d,%d]", SEP, e.tid, (int) e.addr); th[e.tid].epoch++; break;
      case E_JOIN: put("%s[\"J\",%d,%d]", SEP, e.tid, (int) e.addr); th[e.tid].epoch++; break;
      case E_YIELD: put("%s[\"Y\",%d]", SEP, e.tid); break;
      case E_TEXT: put("%s[\"e\",%d,%s]", SEP, e.tid, text + e.aux); break;
      default: break;
      }
   }
   put("],\"threads\":%d,\"steps\":%lu,\"live\":%ld}", nth, (unsigned long) steps, g_live);
   shared->ndec = ndec; memcpy(shared->dec, dec, sizeof(Dec) * ndec);
   shared->len = nout; shared->complete = 1;
   _exit(0);
}

void on_signal(int s) {
   static volatile int again = 0;
   if(again) _exit(98);
   again = 1;
   finish("crash", s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic" : s == SIGALRM ? "timeout" : "bus error");
}

void on_terminate() { finish("crash", "uncaught exception or terminate()"); }

void stack_bounds(Th& t) {
   pthread_attr_t at; void* p; size_t n;
   if(pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &p, &n); t.lo = (u64) p; t.hi = (u64) p + n; pthread_attr_destroy(&at); }
}

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
create_t real_create; int (*real_join)(pthread_t, void**); int (*real_detach)(pthread_t);
int (*real_thread_atexit)(void (*)(void*), void*, void*);
void resolve() {
   if(real_create) return;
   real_create = (create_t) dlsym(RTLD_NEXT, "pthread_create");
   real_join = (int (*)(pthread_t, void**)) dlsym(RTLD_NEXT, "pthread_join");
   real_detach = (int (*)(pthread_t)) dlsym(RTLD_NEXT, "pthread_detach");
   real_thread_atexit = (int (*)(void (*)(void*), void*, void*)) dlsym(RTLD_NEXT, "__cxa_thread_atexit");
}

void* trampoline(void* p) {
   int id = (int) (long) p;
   tl_rt = 1; tl_id = id;
   Th& t = th[id];
   stack_bounds(t);
   fwait(&t.sem);
   tl_rt = 0;
   t.ret = t.fn(t.arg);
   while(t.dtors) { --t.dtors; t.dtor[t.dtors].f(t.dtor[t.dtors].o); }
   tl_rt = 1;
   add(E_UNLOCK, 0, 0, 0, nullptr);
   --nev; // (nothing to record; the end is known from the join)
   t.st = DONE;
   reschedule(false);
   for(;;) pause();      // stays: no stack or thread-local storage is ever reused
   return nullptr;
}

} // namespace

#define PC __builtin_return_address(0)
#define RT struct RtGuard { RtGuard() { ++tl_rt; } ~RtGuard() { --tl_rt; } } rtguard;
#define HOOKED (active && tl_id && !tl_rt)

// ====================================================================== interposed functions
extern "C" {

int pthread_create(pthread_t* out_, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
   resolve();
   if(!HOOKED) return real_create(out_, at, fn, arg);
   RT
   if(nth + 1 >= MAXTH) finish("overflow", "threads");
   int id = ++nth;
   Th& t = th[id];
   memset(&t, 0, sizeof t);
   t.fn = fn; t.arg = arg; t.prio = rnd(1000) + 1000; t.parent = tl_id; t.epoch = 1;
   pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2, 1 << 20);
   if(real_create(&t.real, &a2, trampoline, (void*) (long) id) != 0) finish("overflow", "cannot create a thread");
   *out_ = t.real; t.haveReal = true;
   t.st = RUN;
   add(E_SPAWN, id, 0, 0, PC);
   sync_point();
   return 0;
}
static int find_thread(pthread_t p) { for(int i = 1; i <= nth; ++i) if(th[i].haveReal && pthread_equal(th[i].real, p)) return i; return 0; }
int pthread_join(pthread_t p, void** ret) {
   resolve();
   if(!HOOKED) return real_join(p, ret);
   RT
   int id = find_thread(p);
   if(!id) return ESRCH;
   if(id == tl_id) return EDEADLK;
   sync_point();
   if(th[id].st != DONE) block(B_JOIN, id);
   add(E_JOIN, id, 0, 0, PC);
   if(ret) *ret = th[id].ret;
   return 0;
}
int pthread_detach(pthread_t p) { resolve(); if(!HOOKED) return real_detach(p); return 0; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
   memset(m, 0, sizeof *m);
   int type = 0; if(a) pthread_mutexattr_gettype(a, &type);
   Mx* x = mutex_at((u64) m); x->owner = 0; x->count = 0; x->type = type;
   return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
   if(!HOOKED) return 0;
   RT
   if(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) mutex_at((u64) m)->type = PTHREAD_MUTEX_RECURSIVE;
   sync_point(); lock((u64) m, true, PC);
   return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
   if(!HOOKED) return 0;
   RT
   sync_point();
   Mx* x = mutex_at((u64) m);
   if(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) x->type = PTHREAD_MUTEX_RECURSIVE;
   if(x->owner && !(x->type == PTHREAD_MUTEX_RECURSIVE && x->owner == tl_id)) return EBUSY;
   lock((u64) m, true, PC);
   return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
   if(!HOOKED) return 0;
   RT
   unlock((u64) m, PC); sync_point();
   return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if(!HOOKED) return 0; RT sync_point(); Mx* x = mutex_at((u64) m); while(x->owner) block(B_RD, (u64) m); ++x->readers; add(E_RDLOCK, (u64) m, 0, 0, PC); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if(!HOOKED) return 0; RT sync_point(); Mx* x = mutex_at((u64) m); while(x->owner || x->readers) block(B_WR, (u64) m); x->owner = tl_id; x->count = 1; add(E_LOCK, (u64) m, 0, 0, PC); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if(!HOOKED) return 0; RT unlock((u64) m, PC); sync_point(); return 0; }

int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, void* pc) {
   RT
   Mx* x = mutex_at((u64) m);
   if(x->owner != tl_id) finish("badunlock", "waiting on a condition without holding the mutex");
   sync_point();
   unlock((u64) m, pc);
   Th& t = th[tl_id];
   t.timed = timed; t.timedout = false; t.mtx = (u64) m; t.order = ++orderCount;
   t.st = B_COND; t.on = (u64) c;
   if(spuriousPct && rnd(100) < (u32) spuriousPct) { t.st = B_MUTEX; t.on = t.mtx; }
   do reschedule(false); while(!enabled(tl_id));
   t.st = RUN;
   lock((u64) m, true, pc);
   return t.timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(!HOOKED) return 0; return cond_wait(c, m, false, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { if(!HOOKED) return ETIMEDOUT; return cond_wait(c, m, true, PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { if(!HOOKED) return ETIMEDOUT; return cond_wait(c, m, true, PC); }
static void wake(u64 c, bool all) {
   int w[MAXTH], n = 0;
   for(int i = 1; i <= nth; ++i) if(th[i].st == B_COND && th[i].on == c) w[n++] = i;
   if(!n) return;
   if(!all) { int k = policy == P_DFS ? 0 : rnd(n); w[0] = w[k]; n = 1; }
   for(int i = 0; i < n; ++i) { th[w[i]].st = B_MUTEX; th[w[i]].on = th[w[i]].mtx; }
}
int pthread_cond_signal(pthread_cond_t* c) { if(!HOOKED) return 0; RT sync_point(); wake((u64) c, false); sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if(!HOOKED) return 0; RT sync_point(); wake((u64) c, true); sync_point(); return 0; }

int pthread_once(pthread_once_t* o, void (*f)(void)) {
   Tab* t = tab_at(onces, 256, (u64) o);
   if(!HOOKED) { if(t->v == 0) { t->v = 2; f(); } return 0; }
   { RT sync_point(); while(t->v == 1) block(B_ONCE, (u64) o); add(E_AR, (u64) o, 4, __ATOMIC_ACQUIRE, PC); }
   if(t->v == 2) return 0;
   t->v = 1;
   try { f(); } catch(...) { t->v = 0; throw; }
   { RT add(E_AW, (u64) o, 4, __ATOMIC_RELEASE, PC); t->v = 2; sync_point(); }
   return 0;
}

int sched_yield(void) { if(!HOOKED) return 0; RT add(E_YIELD, 0, 0, 0, PC); reschedule(true); return 0; }
static void sleep_point() { RT th[tl_id].st = SLEEP; reschedule(true); th[tl_id].st = RUN; }
int usleep(useconds_t) { if(HOOKED) sleep_point(); return 0; }
unsigned sleep(unsigned) { if(HOOKED) sleep_point(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if(HOOKED) sleep_point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if(HOOKED) sleep_point(); return 0; }

int __cxa_guard_acquire(u64* g) {
   if(*(volatile char*) g) { if(HOOKED) { RT add(E_AR, (u64) g, 1, __ATOMIC_ACQUIRE, PC); } return 0; }
   Tab* t = tab_at(guards, 1024, (u64) g);
   if(!HOOKED) { t->v = 1; return 1; }
   RT
   sync_point();
   while(!*(volatile char*) g && t->v != 0) {
      if((int) t->v == tl_id) finish("crash", "recursive initialisation of a static object");
      block(B_GUARD, (u64) g);
   }
   add(E_AR, (u64) g, 1, __ATOMIC_ACQUIRE, PC);
   if(*(volatile char*) g) return 0;
   t->v = tl_id;
   return 1;
}
void __cxa_guard_release(u64* g) {
   Tab* t = tab_at(guards, 1024, (u64) g);
   if(HOOKED) { RT add(E_AW, (u64) g, 1, __ATOMIC_RELEASE, PC); *(volatile char*) g = 1; t->v = 0; sync_point(); return; }
   *(volatile char*) g = 1; t->v = 0;
}
void __cxa_guard_abort(u64* g) {
   Tab* t = tab_at(guards, 1024, (u64) g);
   t->v = 0;
   if(HOOKED) { RT add(E_AW, (u64) g, 1, __ATOMIC_RELEASE, PC); sync_point(); }
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
   resolve();
   if(active && tl_id > 1) { Th& t = th[tl_id]; if(t.dtors < 64) { t.dtor[t.dtors].f = f; t.dtor[t.dtors].o = o; t.dtors++; } return 0; }
   if(active) return 0;
   return real_thread_atexit ? real_thread_atexit(f, o, d) : 0;
}

// ---------------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* a) { access((u64) a, n, false, PC, E_R); } \
void __tsan_write##n(void* a) { access((u64) a, n, true, PC, E_W); } \
void __tsan_unaligned_read##n(void* a) { range((u64) a, n, false, PC); } \
void __tsan_unaligned_write##n(void* a) { range((u64) a, n, true, PC); } \
void __tsan_read_write##n(void* a) { access((u64) a, n, false, PC, E_R); access((u64) a, n, true, PC, E_W); } \
void __tsan_volatile_read##n(void* a) { if(HOOKED) { RT sync_point(); } access((u64) a, n, false, PC, E_VR); } \
void __tsan_volatile_write##n(void* a) { if(HOOKED) { RT sync_point(); } access((u64) a, n, true, PC, E_VW); } \
void __tsan_unaligned_volatile_read##n(void* a) { __tsan_volatile_read##n(a); } \
void __tsan_unaligned_volatile_write##n(void* a) { __tsan_volatile_write##n(a); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void* a) { range((u64) a, 16, false, PC); }
void __tsan_write16(void* a) { range((u64) a, 16, true, PC); }
void __tsan_unaligned_read16(void* a) { range((u64) a, 16, false, PC); }
void __tsan_unaligned_write16(void* a) { range((u64) a, 16, true, PC); }
void __tsan_read_range(void* a, size_t n) { range((u64) a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { range((u64) a, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access((u64) p, 8, true, PC, E_W); }
void __tsan_vptr_read(void** p) { access((u64) p, 8, false, PC, E_R); }

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(HOOKED) { range((u64) s, n, false, PC); range((u64) d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(HOOKED) { range((u64) s, n, false, PC); range((u64) d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(HOOKED) range((u64) d, n, true, PC); return __real_memset(d, c, n); }

#define ALIVE(a, n) do { if(in_arena((u64) a)) { u32 id_ = g_unit[((u64) a - (u64) g_arena) / 16]; if(id_ && g_block[id_].freed && recording) { add(E_AR, (u64) a, n, 5, PC); finish("uaf", "use of memory already released"); } } } while(0)
#define ATOMIC(BITS, T) \
T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { if(!HOOKED) return *a; RT sync_point(); ALIVE(a, BITS / 8); add(E_AR, (u64) a, BITS / 8, mo, PC); return *a; } \
void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { if(!HOOKED) { *a = v; return; } RT sync_point(); ALIVE(a, BITS / 8); add(E_AW, (u64) a, BITS / 8, mo, PC); *a = v; } \
T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = v; return o; } \
T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = o + v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = o + v; return o; } \
T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = o - v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = o - v; return o; } \
T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = o & v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = o & v; return o; } \
T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = o | v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = o | v; return o; } \
T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = o ^ v; return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { T o; if(!HOOKED) { o = *a; *a = ~(o & v); return o; } RT sync_point(); ALIVE(a, BITS / 8); add(E_RMW, (u64) a, BITS / 8, mo, PC); o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
   if(!HOOKED) { if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
   RT sync_point(); ALIVE(a, BITS / 8); \
   if(*a == *c) { add(E_RMW, (u64) a, BITS / 8, mo, PC); *a = v; return 1; } \
   add(E_CASF, (u64) a, BITS / 8, fmo, PC); *c = *a; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
   if(!HOOKED) { if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
   RT sync_point(); ALIVE(a, BITS / 8); \
   if(*a == *c) { add(E_RMW, (u64) a, BITS / 8, mo, PC); *a = v; return 1; } \
   add(E_CASF, (u64) a, BITS / 8, fmo, PC); *c = *a; return 0; } \
T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
   if(!HOOKED) { T o = *a; if(o == c) *a = v; return o; } \
   RT sync_point(); ALIVE(a, BITS / 8); T o = *a; \
   if(o == c) { add(E_RMW, (u64) a, BITS / 8, mo, PC); *a = v; return o; } \
   add(E_CASF, (u64) a, BITS / 8, fmo, PC); return o; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) { if(!HOOKED) return; RT sync_point(); add(E_FENCE, 0, 0, mo, PC); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// ---------------------------------------------------------------------- memory
static void* get(size_t n) { ++tl_rt; void* p = alloc(n); --tl_rt; return p; }
static void drop(void* p, void* pc) {
   if(!p) return;
   if(!in_arena((u64) p)) return;
   ++tl_rt;
   u32 id = g_unit[((u64) p - (u64) g_arena) / 16];
   if(id == 0 || g_block[id].start != (u64) p) { if(recording) finish("badfree", "release of something that was not allocated"); }
   else if(g_block[id].freed) { if(recording) finish("badfree", "memory released twice"); }
   else {
      g_block[id].freed = 1; --g_live;
      if(active && tl_id && recording && tl_rt == 1) { u32 n = g_block[id].size; if(n) add(E_FREE, (u64) p, 0, n, pc); }
   }
   --tl_rt;
}
void* operator new(size_t n) { void* p = get(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { drop(p, PC); }
void operator delete[](void* p) noexcept { drop(p, PC); }
void operator delete(void* p, size_t) noexcept { drop(p, PC); }
void operator delete[](void* p, size_t) noexcept { drop(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p, PC); }

// ====================================================================== interface
namespace weave {

void event(const char* s) {
   if(!active || !recording) return;
   RT
   size_t n = strlen(s) + 1;
   if(ntext + n > TEXT) finish("overflow", "text");
   memcpy(text + ntext, s, n);
   add(E_TEXT, 0, 0, ntext, PC);
   ntext += n;
}
void point() { if(HOOKED) { RT sync_point(); } }
void quiesce() { if(HOOKED) { RT block(B_QUIESCE, 0); } }
int self() { return tl_id; }
void name(const void* a, size_t n, const char* t) { if(nnamed < 256) named[nnamed++] = { (u64) a, n, t }; }
uint32_t script_random(uint32_t n) { return n ? next(ss) % n : 0; }
long live_blocks() { return g_live; }
void long_run() { maxsteps = 600000; }
Quiet::Quiet() { ++tl_quiet; }
Quiet::~Quiet() { --tl_quiet; }

static void child(u64 seed, u64 script, int dfs, const std::function<void(const std::string&)>& body, const std::string& nm) {
   memset(&th[1], 0, sizeof(Th));
   memset(mx, 0, sizeof mx);
   nth = 1; cur = 1; tl_id = 1; th[1].st = RUN; th[1].epoch = 1;
   stack_bounds(th[1]);
   rs[0] = seed * 1000003 + 17; ss = script * 7919 + 3;
   next(rs[0]); next(ss);
   steps = 0; nev = 0; ntext = 0; ndec = 0; g_live = 0;
   if(dfs) { policy = P_DFS; spuriousPct = 0; }
   else switch(rnd(6)) {
   case 0: policy = P_RANDOM; pswitch = 5; pplain = 30; break;
   case 1: policy = P_RANDOM; pswitch = 20; pplain = 10; break;
   case 2: policy = P_RANDOM; pswitch = 50; pplain = 6; break;
   default: {
      policy = P_PCT; pplain = 12; nchange = rnd(5) ; lowprio = 500;
      static const int horizon[] = { 20, 60, 150, 400 };
      int h = horizon[rnd(4)];
      for(int i = 0; i < nchange; ++i) change[i] = 1 + rnd(h);
      th[1].prio = rnd(1000) + 1000;
   } }
   if(!dfs) spuriousPct = rnd(4) == 0 ? 15 : 0;
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
   static char alt[1 << 16]; stack_t sk; memset(&sk, 0, sizeof sk); sk.ss_sp = alt; sk.ss_size = sizeof alt; sigaltstack(&sk, nullptr);
   for(int s: { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGALRM }) sigaction(s, &sa, nullptr);
   std::set_terminate(on_terminate);
   alarm(20);
   recording = true; active = true;
   body(nm);
   ++tl_rt;
   // whoever is left is not waited for
   finish("end", "");
}

int main(int argc, char** argv, const std::function<void(const std::string&)>& body) {
   u64 seed = 1, n = 1, per = 1, only = 0; int dfs = -1; const char* outf = nullptr; u64 script0 = 0; bool haveScript = false;
   const char* decisions = nullptr;
   std::string names[64]; int nn = 0;
   for(int i = 1; i < argc; ++i) {
      if(!strcmp(argv[i], "-s")) seed = strtoull(argv[++i], nullptr, 10);
      else if(!strcmp(argv[i], "-n")) n = strtoull(argv[++i], nullptr, 10);
      else if(!strcmp(argv[i], "-k")) per = strtoull(argv[++i], nullptr, 10);
      else if(!strcmp(argv[i], "-x")) { script0 = strtoull(argv[++i], nullptr, 10); haveScript = true; }
      else if(!strcmp(argv[i], "-d")) dfs = atoi(argv[++i]);
      else if(!strcmp(argv[i], "-D")) decisions = argv[++i];
      else if(!strcmp(argv[i], "-A")) emitAcc = false;
      else if(!strcmp(argv[i], "-P")) plainOn = false;
      else if(!strcmp(argv[i], "-o")) outf = argv[++i];
      else names[nn++] = argv[i];
   }
   (void) only;
   ev = (Ev*) big(sizeof(Ev) * MAXEV); text = (char*) big(TEXT); gr = (Gr*) big(sizeof(Gr) * NGR); dec = (Dec*) big(sizeof(Dec) * MAXDEC);
   shared = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   out = (char*) mmap(nullptr, OUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   resolve(); arena_init();
   FILE* f = outf ? fopen(outf, "w") : stdout;
   if(!f) return 77;
   u64 total = 0;
   static u8 pre[MAXDEC];
   for(int k = 0; k < nn; ++k) {
      // stack of prefixes to explore
      struct Item { u32 len; u8 bound; u8* p; };
      const u32 MAXI = 1 << 20;
      static Item* items = (Item*) big(sizeof(Item) * MAXI);
      u32 ni = 0;
      u64 runs = 0;
      u64 script = haveScript ? script0 : seed;
      if(dfs >= 0) { items[ni++] = Item{ 0, (u8) dfs, nullptr }; }
      for(u64 i = 0; i < n; ++i) {
         Item it{ 0, 0, nullptr };
         if(dfs >= 0) { if(!ni) { if(haveScript) break; ++script; items[ni++] = Item{ 0, (u8) dfs, nullptr }; if(++runs >= per) break; }
            it = items[--ni]; if(it.len) memcpy(pre, it.p, it.len); prefix = pre; nprefix = it.len; }
         else if(!haveScript) script = seed + i / per;
         if(decisions) { nprefix = 0; for(const char* q = decisions; *q; ) { pre[nprefix++] = strtol(q, (char**) &q, 10); if(*q == ',') ++q; } prefix = pre; }
         shared->complete = 0; shared->len = 0; shared->ndec = 0;
         fflush(f);
         pid_t p = fork();
         if(p == 0) child(seed + i, script, dfs >= 0 || decisions, body, names[k]);
         int st = 0;
         waitpid(p, &st, 0);
         ++total;
         fprintf(f, "{\"scenario\":\"%s\",\"seed\":%lu,\"script\":%lu,", names[k].c_str(), (unsigned long) (seed + i), (unsigned long) script);
         if(dfs >= 0 || decisions) { fprintf(f, "\"dec\":\""); for(u32 j = 0; j < shared->ndec; ++j) fprintf(f, "%s%d", j ? "," : "", shared->dec[j].chosen); fprintf(f, "\","); }
         if(shared->complete) { fprintf(f, "\"r\":"); fwrite(out, 1, shared->len, f); fprintf(f, "}\n"); }
         else fprintf(f, "\"r\":{\"how\":\"lost\",\"detail\":\"status %d\",\"ev\":[],\"threads\":0,\"steps\":0,\"live\":0}}\n", st);
         if(dfs >= 0) {
            // alternatives at every decision after the prefix
            for(u32 j = shared->ndec; j-- > it.len; ) {
               Dec& d = shared->dec[j];
               for(int a = 0; a < d.n; ++a) if(a != d.chosen) {
                  bool preempt = d.cont != 255 && a != d.cont;
                  // a decision that was not a preemption by default costs one if it takes the turn of a thread that could go on
                  if(preempt && it.bound == 0) continue;
                  if(ni >= MAXI) continue;
                  Item x; x.len = j + 1; x.bound = it.bound - (preempt ? 1 : 0); x.p = (u8*) malloc(j + 1);
                  for(u32 q = 0; q < j; ++q) x.p[q] = shared->dec[q].chosen;
                  x.p[j] = a;
                  items[ni++] = x;
               }
            }
         }
         if(it.p) free(it.p);
      }
      fflush(f);
      if(dfs >= 0) fprintf(stderr, "systematic %s: %s\n", names[k].c_str(), ni ? "not exhausted" : "exhausted");
   }
   fflush(f);
   if(outf) fclose(f);
   fprintf(stderr, "executions %lu\n", (unsigned long) total);
   return 0;
}

}
