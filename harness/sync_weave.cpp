// Scenarios on Futex, RFutex, the atomic helpers and Singleton, run under weave.
#include "weave/weave.h"
#include <falcon/futex.h>
#include <falcon/config.h>
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#include <thread>
#include <vector>
#include <mutex>
#include <new>
#include <type_traits>
#include <cstring>

using namespace weave;

static void call(const char* op) { char b[64]; snprintf(b, sizeof b, "\"c\",\"%s\"", op); event(b); }
static void ret(const char* op) { char b[64]; snprintf(b, sizeof b, "\"r\",\"%s\"", op); event(b); }
static void ret(const char* op, bool v) { char b[64]; snprintf(b, sizeof b, "\"r\",\"%s\",%s", op, v ? "true" : "false"); event(b); }

static int g_guarded[2];

// What one thread does is decided beforehand, so that it depends on the script only.
struct Plan { std::vector<int> ops; };
enum { OP_SECTION, OP_QUERY, OP_NESTED2, OP_NESTED3, OP_OWNER, OP_INQUERY, OP_GUARD };

static std::vector<Plan> plans(int most, int kinds) {
   int n = 2 + (int) script_random(2);
   std::vector<Plan> r(n);
   for(auto& p: r) { int k = 1 + script_random(most); for(int i = 0; i < k; ++i) { int o = script_random(kinds + 3); p.ops.push_back(o < 3 ? OP_SECTION : o - 3); } }
   // at least two threads that contend
   r[0].ops[0] = OP_SECTION; r[1].ops[0] = OP_SECTION;
   return r;
}

template<class F> void lock(F& f) { call("lock"); f.lock(); ret("lock"); }
template<class F> void unlock(F& f) { call("unlock"); f.unlock(); ret("unlock"); }
template<class F> void islocked(F& f) { call("islocked"); bool b = f.isLocked(); ret("islocked", b); }

static void inside(int me) { ++g_guarded[0]; point(); g_guarded[1] = me; }

template<unsigned N> void futex_scenario() {
   auto* f = new falcon::Futex<N>; name(f, sizeof *f, "futex");
   auto ps = plans(3, 2);
   islocked(*f);
   std::vector<std::thread> th;
   for(size_t i = 0; i < ps.size(); ++i) th.emplace_back([&, i] {
      for(int o: ps[i].ops) switch(o) {
         case OP_QUERY: islocked(*f); break;
         default: lock(*f); inside(i); if(o == OP_INQUERY) islocked(*f); unlock(*f); break;
      }
   });
   for(auto& t: th) t.join();
   islocked(*f);
   lock(*f); islocked(*f); inside(0); unlock(*f); islocked(*f);
   delete f;
}

static void isowner(falcon::RFutex& f) { call("isowner"); bool b = f.isOwner(); ret("isowner", b); }

static void rfutex_scenario() {
   auto* f = new falcon::RFutex; name(f, sizeof *f, "futex");
   auto ps = plans(2, 5);
   // nothing is locked: nothing changes
   if(script_random(2)) unlock(*f);
   islocked(*f); isowner(*f);
   std::vector<std::thread> th;
   for(size_t i = 0; i < ps.size(); ++i) th.emplace_back([&, i] {
      for(int o: ps[i].ops) switch(o) {
         case OP_QUERY: islocked(*f); break;
         case OP_OWNER: isowner(*f); break;
         case OP_NESTED2: lock(*f); inside(i); lock(*f); isowner(*f); inside(i); unlock(*f); inside(i); isowner(*f); unlock(*f); break;
         case OP_NESTED3: lock(*f); lock(*f); unlock(*f); lock(*f); lock(*f); inside(i); unlock(*f); unlock(*f); inside(i); islocked(*f); unlock(*f); break;
         default: lock(*f); inside(i); unlock(*f); break;
      }
      isowner(*f);
   });
   for(auto& t: th) t.join();
   islocked(*f); isowner(*f);
   lock(*f); lock(*f); islocked(*f); isowner(*f); unlock(*f); islocked(*f); isowner(*f); unlock(*f);
   islocked(*f); isowner(*f);
   if(script_random(2)) { unlock(*f); islocked(*f); lock(*f); isowner(*f); unlock(*f); islocked(*f); }
   delete f;
}

// ---------------------------------------------------------------------- atomics
static int value(int s) {
   static const int v[] = { 0, 1, 2, 3, 5, -1, -2, 100, 0x7fffffff, (int) 0x80000000, 0x55555555, 0x0f0f0f0f };
   return v[s % 12];
}
static void atomic_scenario() {
   struct Op { int kind, a, b; };
   int n = 2 + script_random(2);
   std::vector<std::vector<Op>> ps(n);
   // few values around, so that compare-and-swap has a chance
   int pool[4]; for(int& p: pool) p = value(script_random(12));
   for(auto& p: ps) { int k = 1 + script_random(3); for(int i = 0; i < k; ++i) p.push_back({ (int) script_random(10), pool[script_random(4)], pool[script_random(4)] }); }
   falcon::atomic_int x; 
   x = pool[0];
   char b[200];
   snprintf(b, sizeof b, "\"i\",%d", pool[0]); event(b);
   auto doit = [&x](const Op& o) {
      using namespace falcon;
      static const char* nm[] = { "inc", "dec", "add", "fetch", "set", "exchange", "cas", "xor", "and", "or" };
      char b[200];
      snprintf(b, sizeof b, "\"c\",\"%s\",%d,%d", nm[o.kind], o.a, o.b); event(b);
      long r = 0;
      switch(o.kind) {
      case 0: r = atomicInc(x); break;
      case 1: r = atomicDec(x); break;
      case 2: r = atomicAdd(x, o.a); break;
      case 3: r = atomicFetch(x); break;
      case 4: atomicSet(x, o.a); break;
      case 5: r = atomicExchange(x, o.a); break;
      case 6: r = atomicCAS(x, o.a, o.b); break;
      case 7: r = atomicXor(x, o.a); break;
      case 8: r = atomicAnd(x, o.a); break;
      case 9: r = atomicOr(x, o.a); break;
      }
      snprintf(b, sizeof b, "\"r\",%ld", r); event(b);
   };
   std::vector<std::thread> th;
   for(size_t i = 0; i < ps.size(); ++i) th.emplace_back([&, i] { for(auto& o: ps[i]) doit(o); });
   for(auto& t: th) t.join();
   doit({ 3, 0, 0 });
}

// ---------------------------------------------------------------------- singleton
template<int N> struct Thing {
   int a, b; std::vector<int> v;
   Thing(): a(0), b(0) {
      event("\"built\"");
      a = 1; point(); v.push_back(7); point(); b = 2; point();
      event("\"complete\"");
   }
   ~Thing() { event("\"gone\""); }
   int ok() const { return a == 1 && b == 2 && v.size() == 1 && v[0] == 7; }
};
static const void* g_seen[8]; static int g_nseen = 0;
static int object(const void* p) {
   Quiet q;
   for(int i = 0; i < g_nseen; ++i) if(g_seen[i] == p) return i + 1;
   g_seen[g_nseen++] = p; return g_nseen;
}
template<int N> static void singleton_scenario() {
   using T = Thing<N>; using S = falcon::Singleton<T>;
   int n = 2 + script_random(2);
   S shared;
   struct Op { int kind; int own; };
   std::vector<std::vector<Op>> ps(n);
   for(auto& p: ps) { int k = 1 + script_random(3); for(int i = 0; i < k; ++i) p.push_back({ (int) script_random(6), (int) script_random(2) }); }
   if(script_random(4) == 0) { S s; event("\"c\""); T* p = s.get(); char b[80]; snprintf(b, sizeof b, "\"r\",%d,%d", object(p), p->ok()); event(b); }
   std::vector<std::thread> th;
   auto doit = [&shared](const Op& o) {
      S mine; S& s = o.own ? mine : shared;
      event("\"c\"");
      const T* p = nullptr;
      const S& cs = s;
      switch(o.kind) {
      case 0: p = s.get(); break;
      case 1: p = &*cs; break;
      case 2: p = cs.operator->(); break;
      case 3: p = &*s.mtbl; break;
      case 4: p = s.mtbl.operator->(); break;
      case 5: p = &*s; break;
      }
      int ok = p->ok();
      char b[80]; snprintf(b, sizeof b, "\"r\",%d,%d", object(p), ok); event(b);
   };
   for(size_t i = 0; i < ps.size(); ++i) th.emplace_back([&, i] { for(auto& o: ps[i]) doit(o); });
   for(auto& t: th) t.join();
   doit({ (int) script_random(6), 1 });
}

int main(int argc, char** argv) {
   return weave::main(argc, argv, [](const std::string& n) {
      if(n == "futex0") futex_scenario<0>();
      else if(n == "futex1") futex_scenario<1>();
      else if(n == "futex2") futex_scenario<2>();
      else if(n == "futex3") futex_scenario<3>();
      else if(n == "futex7") futex_scenario<7>();
      else if(n == "rfutex") rfutex_scenario();
      else if(n == "atomic") atomic_scenario();
      else if(n == "singleton") { singleton_scenario<1>(); }
      else abort();
   });
}
