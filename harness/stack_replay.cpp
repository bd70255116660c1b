// Replays behaviours of spec/PagedStackGen.tla on falcon::PagedStack.
#include "trace.h"
#include <falcon/engine/pagedstack.h>
#include <memory>
#include <map>
#include <list>
#include <set>
#include <unordered_set>
#include <new>
#include <optional>
#include <thread>
#include <utility>

using vt::J; using vt::mismatch; using vt::expect;

// ---------------------------------------------------------------- elements
static std::unordered_set<const void*> g_live;   // live Tracked objects
static long g_poison = -1;                       // copying (or building) this value throws
static long g_passes = 0;                        // .. after so many times
static long g_noassign = -1;                     // assigning this value throws
static const void* g_nodest = nullptr;           // assigning to this object throws
struct Poisoned {};

struct Tracked {
   long v;
   void born() { if(!g_live.insert(this).second) { fprintf(stdout, "FAIL 0 element built twice\n"); fflush(stdout); abort(); } }
   void check() const { if(!g_live.count(this)) { fprintf(stdout, "FAIL 0 dead element used\n"); fflush(stdout); abort(); } }
   Tracked(): v(0) { born(); }
   Tracked(long n): v(n) { if(n == g_poison) throw Poisoned(); born(); }
   Tracked(const Tracked& o): v(o.v) { o.check(); if(v == g_poison && g_passes-- <= 0) throw Poisoned(); born(); }
   Tracked& operator=(const Tracked& o) { check(); o.check(); if(o.v == g_poison || o.v == g_noassign || this == g_nodest) throw Poisoned(); v = o.v; return *this; }
   ~Tracked() { if(!g_live.erase(this)) { fprintf(stdout, "FAIL 0 element destroyed twice\n"); fflush(stdout); abort(); } }
};

template<class T> struct El;
template<> struct El<Tracked> { static Tracked make(long v) { return Tracked(v); } static long val(const Tracked& t) { t.check(); return t.v; } static constexpr bool tracked = true; };
template<> struct El<long> { static long make(long v) { return v; } static long val(long t) { return t; } static constexpr bool tracked = false; };
template<> struct El<std::string> {
   static std::string make(long v) { return std::string(24 + v % 9, 'a' + v % 26) + std::to_string(v); }
   static long val(const std::string& t) {
      if(t.empty()) return 0;
      size_t n = t.find_first_of("0123456789");
      if(n == std::string::npos) return -1;
      long v = atol(t.c_str() + n);
      return make(v) == t ? v : -1;
   }
   static constexpr bool tracked = false;
};

// ---------------------------------------------------------------- allocator
struct Arena {
   size_t elems{0};      // element slots outstanding
   size_t other{0};      // bytes of anything else outstanding
   size_t allocs{0};     // requests ever
   long budget{-1};      // requests that will be satisfied; -1: all of them
   std::map<void*, size_t> blocks;
   bool inside(const void* p) const {
      auto i = blocks.upper_bound(const_cast<void*>(p));
      if(i == blocks.begin()) return false;
      --i;
      return (const char*) p < (const char*) i->first + i->second;
   }
};
static Arena g_default;

template<class U, class T0> struct CA0 {
   using value_type = U;
   Arena* ar;
   CA0(): ar(&g_default) {}
   explicit CA0(Arena* a): ar(a) {}
   template<class V> CA0(const CA0<V, T0>& o): ar(o.ar) {}
   template<class V> struct rebind { using other = CA0<V, T0>; };
   U* allocate(size_t n) {
      if(ar->budget == 0) throw std::bad_alloc();
      if(ar->budget > 0) --ar->budget;
      ++ar->allocs;
      void* p = ::operator new(n * sizeof(U));
      ar->blocks[p] = n * sizeof(U);
      if(std::is_same<U, T0>::value) ar->elems += n; else ar->other += n * sizeof(U);
      return static_cast<U*>(p);
   }
   void deallocate(U* p, size_t n) {
      auto i = ar->blocks.find(p);
      if(i == ar->blocks.end() || i->second != n * sizeof(U)) { fprintf(stdout, "FAIL 0 memory returned to another allocator\n"); fflush(stdout); abort(); }
      ar->blocks.erase(i);
      if(std::is_same<U, T0>::value) ar->elems -= n; else ar->other -= n * sizeof(U);
      ::operator delete(p);
   }
   template<class V> bool operator==(const CA0<V, T0>& o) const { return ar == o.ar; }
   template<class V> bool operator!=(const CA0<V, T0>& o) const { return ar != o.ar; }
};
#ifdef STD_ALLOC
// std::allocator lets the sanitizer see accesses beyond the end of a page.
template<class U> struct CAlloc: std::allocator<U> {
   template<class V> struct rebind { using other = CAlloc<V>; };
   CAlloc() = default;
   explicit CAlloc(Arena*) {}
   template<class V> CAlloc(const CAlloc<V>&) {}
};
template<class U> constexpr bool counting = false;
#else
template<class U> using CAlloc = CA0<U, U>;
template<class U> constexpr bool counting = true;
#endif

// ---------------------------------------------------------------- locks
struct CheckMutex {   // not recursive, must be balanced
   mutable int held{0};
   mutable long locks{0};
   void lock() const { if(held) { fprintf(stdout, "FAIL 0 lock taken again by its holder\n"); fflush(stdout); abort(); } ++held; ++locks; }
   void unlock() const { if(!held) { fprintf(stdout, "FAIL 0 unlock of a free lock\n"); fflush(stdout); abort(); } --held; }
};

#ifndef ELEM
#define ELEM Tracked
#endif
#ifndef MUTEX
#define MUTEX falcon::dummy_mutex
#endif
using T = ELEM;
using Stack = falcon::PagedStack<T, CAlloc, MUTEX>;
using E = El<T>;

static std::vector<long> longs(const J& j) { std::vector<long> r; for(auto& x: j.a) r.push_back(x.i); return r; }
static std::string show(const std::vector<long>& v) { std::string s = "<"; for(long x: v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + ">"; }
static void same(const char* what, const std::vector<long>& got, const std::vector<long>& want) {
   if(got != want) mismatch(std::string(what) + ": got " + show(got) + ", should be " + show(want));
}

constexpr size_t MAXARGS = 8;

// calls f with n references
template<size_t N, class A, class F, size_t... I> auto spreadI(A& a, F&& f, std::index_sequence<I...>) { return f(a[I]...); }
template<size_t N, class A, class F> void spread(A& a, F&& f) { spreadI<N>(a, f, std::make_index_sequence<N>()); }
template<class A, class F> void spreadN(size_t n, A& a, F&& f) {
   switch(n) {
   case 0: return;
   case 1: spread<1>(a, f); return; case 2: spread<2>(a, f); return; case 3: spread<3>(a, f); return;
   case 4: spread<4>(a, f); return; case 5: spread<5>(a, f); return; case 6: spread<6>(a, f); return;
   case 7: spread<7>(a, f); return; case 8: spread<8>(a, f); return;
   }
   throw std::logic_error("too many arguments");
}

struct AnyPlain {
   long own{0}; int kind{0};
   std::optional<typename Stack::iterator> f;
   std::optional<typename Stack::const_iterator> cf;
   std::optional<typename Stack::reverse_iterator> r;
   std::optional<typename Stack::const_reverse_iterator> cr;
   void reset() { own = 0; f.reset(); cf.reset(); r.reset(); cr.reset(); }
   template<class F> void with(F&& fn) {
      if(f) fn(*f); else if(cf) fn(*cf); else if(r) fn(*r); else if(cr) fn(*cr);
      else throw std::logic_error("no iterator");
   }
};

struct AnySync {
   long own{0};
   std::unique_ptr<typename Stack::sync_iterator> m;
   std::unique_ptr<typename Stack::const_sync_iterator> c;
   template<class F> void with(F&& fn) { if(m) fn(*m); else if(c) fn(*c); else throw std::logic_error("no iterator"); }
   void reset() { own = 0; m.reset(); c.reset(); }
};

template<class S> void emplace(S& st, long v) {
   if constexpr (std::is_constructible_v<typename S::value_type, long>) st.push_emplace(v);
   else { auto x = El<typename S::value_type>::make(v); st.push_emplace(x.c_str(), x.size()); }   // several arguments
}

class Runner {

   std::map<long, std::shared_ptr<Arena>> ar;
   std::map<long, std::unique_ptr<Stack>> st;
   std::map<long, long> capOf, psOf;
   std::map<long, std::vector<const void*>> addr;
   std::map<long, AnyPlain> pi;
   std::map<long, AnySync> si;
   size_t base;          // live elements that are not ours

   void create(long s, long ps, long pa) {
      ar[s] = std::make_shared<Arena>();
      if(ps == 1024 && pa == 4 && !counting<T>) st[s] = std::make_unique<Stack>();
      else st[s] = std::make_unique<Stack>(ps, pa, typename Stack::allocator_type(ar[s].get()));
   }
   Arena& arena(long s) { return *ar[s]; }
   const Stack& cst(long s) { return *st[s]; }

   void outputs(const char* what, size_t n, const std::vector<T>& out, const std::vector<long>& want) {
      std::vector<long> got;
      for(size_t i = 0; i < n; ++i) got.push_back(E::val(out[i]));
      same(what, got, want);
      for(size_t i = n; i < out.size(); ++i) if(E::val(out[i]) != 999999) mismatch("a destination was written that was not given");
   }
   std::vector<T> dests() { std::vector<T> v; v.reserve(MAXARGS); for(size_t i = 0; i < MAXARGS; ++i) v.push_back(E::make(999999)); return v; }

   template<class IT, class END> std::vector<long> walk(IT i, END e, size_t limit) {
      std::vector<long> r;
      while(i != e) { r.push_back(E::val(*i)); ++i; if(r.size() > limit) mismatch("iteration does not end"); }
      if(!(i == e)) mismatch("iterator neither different from nor equal to the end");
      return r;
   }

   // Contents, bottom first, read in a way that does not depend on iterators of any kind.
   std::vector<long> contents(long s) { return look(cst(s)); }
   std::vector<long> look(const Stack& k) {
      std::vector<long> r;
      size_t n = k.size();
      for(size_t d = 1; d <= n; ++d) { T x = E::make(1); k.peek_depth(d, x); r.push_back(E::val(x)); }
      std::vector<long> q(r.rbegin(), r.rend());
      return q;
   }
   void take(long s, size_t n) { while(n--) st[s]->pop(); }

   // ---- a step; returns the operation's reply
   void step(const J& j) {
      const std::string& o = j[0].s;
      long s = j[1].i;
      const J& a = j[2];
      std::vector<long> want = o == "assignthrow" || o == "assignnomem" ? std::vector<long>() : longs(j[3]);
      auto A = [&a](size_t n) { return a[n].i; };
      Stack* S = st.count(s) ? st[s].get() : nullptr;
      size_t allocsBefore = ar.count(s) ? ar[s]->allocs : 0;
      std::vector<long> statsBefore = S ? stats(s) : std::vector<long>();
      bool reads = false;

      if(o == "push") {
         std::vector<T> v; v.reserve(MAXARGS); for(auto& x: a.a) v.push_back(E::make(x.i));
         // in turn as constant lvalues, and as temporaries
         if(v.size() == 1) { if(A(0) & 1) S->push(v[0]); else S->push(E::make(A(0))); }
         else if(v.size() == 2 && (A(0) & 1)) S->push(E::make(A(0)), E::make(A(1)));
         else if(v.size() == 3 && (A(0) & 1)) { const T& first = v[0]; S->push(first, E::make(A(1)), v[2]); }
         else spreadN(v.size(), v, [&](auto&... x) { if constexpr (sizeof...(x) > 0) S->push(x...); });
      }
      else if(o == "emplace") emplace(*S, A(0));
      else if(o == "pushbulk") { for(long i = 0; i < A(1); ++i) S->push(E::make(A(0) + i)); }
      else if(o == "pushown") {
         auto at = [&](long d) -> const T& { auto i = S->begin(); i += d - 1; return *i; };
         const T& x = A(2) ? *cst(s).from_top(A(0)) : at(A(0));
         if(A(1)) S->push(x, at(A(1))); else S->push(x);
      }
      else if(o == "topown") { const T& x = *cst(s).from_top(A(0)); S->top(x); }
      else if(o == "pop0") S->pop();
      else if(o == "pop") {
         auto d = dests();
         spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) S->pop(x...); });
         outputs("pop", A(0), d, want);
      }
      else if(o == "poprev") {
         auto d = dests();
         spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) S->pop_reverse(x...); });
         outputs("pop_reverse", A(0), d, want);
      }
      else if(o == "discard") S->discard(A(0));
      else if(o == "discardat") {
         size_t n = cst(s).size();
         switch(A(1)) {
         case 0: { auto i = S->begin(); i += A(0) - 1; S->discard(i); break; }
         case 1: { auto i = S->cbegin(); i += A(0) - 1; S->discard(i); break; }
         case 2: { auto i = S->rbegin(); i += n - A(0); S->discard(i); break; }
         case 3: { auto i = S->crbegin(); i += n - A(0); S->discard(i); break; }
         case 4: S->discard(S->from_top(A(0))); break;
         }
      }
      else if(o == "clear") S->clear();
      else if(o == "settop") S->top(E::make(A(0)));
      else if(o == "setat") {
         size_t n = cst(s).size();
         T v = E::make(A(2));
         switch(A(1)) {
         case 0: { auto i = S->begin(); i += A(0) - 1; *i = v; break; }
         case 1: { auto i = S->rbegin(); i += n - A(0); *i = v; break; }
         case 2: { auto i = S->from_top(A(0)); *i = v; break; }
         }
      }
      else if(o == "stats") {
         auto g = stats(s);
         if(want[0] == 0) g[0] = 0;
         same("statistics", g, want); reads = true;
      }
      else if(o == "forward") {
         size_t lim = want.size();
         same("iteration", A(0) ? walk(cst(s).begin(), cst(s).end(), lim) : walk(S->begin(), S->end(), lim), want);
         same("constant iteration", walk(S->cbegin(), S->cend(), lim), want);
         std::vector<long> r;
         if(A(0)) { for(const T& x: cst(s)) { r.push_back(E::val(x)); if(r.size() > lim) break; } }
         else { for(T& x: *S) { r.push_back(E::val(x)); if(r.size() > lim) break; } }
         same("range iteration", r, want); reads = true;
      }
      else if(o == "reverse") {
         size_t lim = want.size();
         same("reverse iteration", A(0) ? walk(cst(s).rbegin(), cst(s).rend(), lim) : walk(S->rbegin(), S->rend(), lim), want);
         same("constant reverse iteration", walk(S->crbegin(), S->crend(), lim), want);
         reads = true;
      }
      else if(o == "fromtop") {
         same("iteration from a depth", A(1) ? walk(cst(s).from_top(A(0)), cst(s).rend(), want.size()) : walk(S->from_top(A(0)), S->rend(), want.size()), want);
         reads = true;
      }
      else if(o == "peek") {
         auto d = dests();
         spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) if(A(1)) cst(s).peek(x...); else S->peek(x...); });
         outputs("peek", A(0), d, want); reads = true;
      }
      else if(o == "peekd") {
         auto d = dests();
         spreadN(A(1), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) if(A(2)) cst(s).peek_depth(A(0), x...); else S->peek_depth(A(0), x...); });
         outputs("peek_depth", A(1), d, want); reads = true;
      }
      else if(o == "peekr") {
         auto d = dests();
         spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) if(A(1)) cst(s).peek_reverse(x...); else S->peek_reverse(x...); });
         outputs("peek_reverse", A(0), d, want); reads = true;
      }
      else if(o == "distr") { distr(s, A(0), A(1), want); reads = true; }
      else if(o == "shrink") S->shrink_to_fit();
      else if(o == "copy") {
         ar[A(0)] = ar[s]; multi = true;
         // the allocator is copied along, so memory of the copy is served by the same arena
         st[A(0)] = std::make_unique<Stack>(cst(s));
      }
      else if(o == "move") {
         ar[A(0)] = ar[s]; multi = true;
         st[A(0)] = std::make_unique<Stack>(std::move(*S));
         S->clear();   // what is left in it is open
         killPlain(s); addr[s].clear(); addr[A(0)].clear();
      }
      else if(o == "assign") { Stack& r = (*st[A(0)] = *S); if(&r != st[A(0)].get()) mismatch("assignment returns something else"); }
      else if(o == "create") create(s, A(0), A(1));
      else if(o == "destroy") { st[s].reset(); st.erase(s); killPlain(s); }
      // ---- synchronised iterators
      else if(o == "sbegin" || o == "send") {
         AnySync& x = si[A(0)]; x.own = s;
         bool b = o == "sbegin"; 
         using SI = typename Stack::sync_iterator; using CSI = typename Stack::const_sync_iterator;
         if(!A(1)) x.m.reset(new SI(b ? S->sync_begin() : S->sync_end()));
         else if(A(2) & 1) x.c.reset(new CSI(b ? S->csync_begin() : S->csync_end()));
         else x.c.reset(new CSI(b ? cst(s).sync_begin() : cst(s).sync_end()));
      }
      else if(o == "scopy") {
         AnySync& x = si[A(0)]; AnySync& y = si[A(1)]; y.own = x.own;
         if(x.m) y.m.reset(new typename Stack::sync_iterator(*x.m));
         else y.c.reset(new typename Stack::const_sync_iterator(*x.c));
      }
      else if(o == "sassign") {
         AnySync& x = si[A(0)]; AnySync& y = si[A(1)]; y.own = x.own;
         if(x.m) *y.m = *x.m; else *y.c = *x.c;
      }
      else if(o == "sdrop") si[A(0)].reset();
      else if(o == "sget") {
         T v = E::make(5);
         si[A(0)].with([&](auto& i) { i.get(v); });
         same("get", std::vector<long>{E::val(v)}, want); reads = true;
      }
      else if(o == "snext") { si[A(0)].with([&](auto& i) { if(&++i != &i) mismatch("++ returns something else"); }); reads = true; }
      else if(o == "sprev") { si[A(0)].with([&](auto& i) { if(&--i != &i) mismatch("-- returns something else"); }); reads = true; }
      else if(o == "sfail") {
         bool thrown = false;
         T v = E::make(5);
         try { si[A(0)].with([&](auto& i) { if(A(1) == 0) i.get(v); else if(A(1) == 1) ++i; else --i; }); }
         catch(const std::runtime_error&) { thrown = true; }
         if(!thrown) mismatch("resync on an empty stack reports no error");
         reads = true;
      }
      else if(o == "seq") {
         AnySync& x = si[A(0)]; AnySync& y = si[A(1)];
         bool eq = x.m ? *x.m == *y.m : *x.c == *y.c;
         bool ne = x.m ? *x.m != *y.m : *x.c != *y.c;
         if(eq == ne) mismatch("== and != of iterators agree");
         same("equality", std::vector<long>{eq}, want); reads = true;
      }
      // ---- plain iterators
      else if(o == "pbegin" || o == "pend") {
         AnyPlain& x = pi[A(0)]; x.reset(); x.own = s;
         bool b = o == "pbegin", c = A(3) & 1;
         if(!A(1) && !A(2)) x.f = b ? S->begin() : S->end();
         else if(!A(1)) x.cf = c ? (b ? S->cbegin() : S->cend()) : (b ? cst(s).begin() : cst(s).end());
         else if(!A(2)) x.r = b ? S->rbegin() : S->rend();
         else x.cr = c ? (b ? S->crbegin() : S->crend()) : (b ? cst(s).rbegin() : cst(s).rend());
         reads = true;
      }
      else if(o == "pfromtop") {
         AnyPlain& x = pi[A(0)]; x.reset(); x.own = s;
         if(A(1)) x.cr = cst(s).from_top(A(2)); else x.r = S->from_top(A(2));
         reads = true;
      }
      else if(o == "pcopy") { if(A(0) != A(1)) { AnyPlain y = pi[A(0)]; pi[A(1)] = y; } reads = true; }
      else if(o == "pmove") {
         long n = A(1);
         pi[A(0)].with([&](auto& i) {
            using I = std::remove_reference_t<decltype(i)>;
            I old = i;
            switch(A(2)) {
            case 0: if(n > 0) { if(&++i != &i) mismatch("++ returns something else"); } else { if(&--i != &i) mismatch("-- returns something else"); } break;
            case 1: { I r = n > 0 ? i++ : i--; if(!(r == old)) mismatch("postfix operator does not return the position it leaves"); break; }
            default: { const I& r = n >= 0 ? (i += n) : (i -= -n); if(&r != &i) mismatch("jump returns something else"); }
            }
            if(n != 0 && i == old) mismatch("a moved iterator equals its old position");
            if(n == 0 && i != old) mismatch("an iterator jumping by none has moved");
            I k = i, fin = i;
            if constexpr(std::is_same_v<I, decltype(S->begin())>) { k = S->begin(); fin = S->end(); }
            else if constexpr(std::is_same_v<I, decltype(S->cbegin())>) { k = S->cbegin(); fin = S->cend(); }
            else if constexpr(std::is_same_v<I, decltype(S->rbegin())>) { k = S->rbegin(); fin = S->rend(); }
            else { k = S->crbegin(); fin = S->crend(); }
            for(long steps = want.at(0); steps > 0; --steps) ++k;
            if(!(i == k) || i != k) mismatch("an iterator moved by " + std::to_string(n) + " is not where " + std::to_string(want[0]) + " steps from the beginning lead");
            if((i == fin) != (want.at(1) != 0)) mismatch(want[1] ? "an iterator moved to the end does not equal it" : "an iterator moved to an element equals the end");
         });
         reads = true;
      }
      else if(o == "pget") {
         pi[A(0)].with([&](auto& i) {
            const auto& ci = i;
            same("dereference", std::vector<long>{E::val(*i)}, want);
            same("constant dereference", std::vector<long>{E::val(*ci)}, want);
            if(ci.operator->() != &*i) mismatch("operator-> gives another element");
         });
         reads = true;
      }
      else if(o == "pset") {
         T v = E::make(A(2));
         AnyPlain& x = pi[A(0)];
         if(x.f) { if(A(1)) *(*x.f).operator->() = v; else **x.f = v; }
         else { if(A(1)) *(*x.r).operator->() = v; else **x.r = v; }
      }
      else if(o == "peq") {
         pi[A(0)].with([&](auto& i) {
            pi[A(1)].with([&](auto& k) {
               if constexpr (std::is_same_v<decltype(i), decltype(k)>) {
                  bool eq = i == k, ne = i != k;
                  if(eq == ne) mismatch("== and != of iterators agree");
                  same("equality", std::vector<long>{eq}, want);
               }
            });
         });
         reads = true;
      }
      // ---- failures
      else if(o == "pushthrow") {
         if constexpr (E::tracked) {
            std::vector<T> v; v.reserve(MAXARGS); for(size_t i = 1; i < a.size(); ++i) v.push_back(E::make(A(i)));
            g_poison = A(A(0));
            fails([&] { spreadN(v.size(), v, [&](auto&... x) { if constexpr (sizeof...(x) > 0) S->push(x...); }); });
         }
      }
      else if(o == "emplacethrow") {
         if constexpr (E::tracked) { g_poison = A(0); fails([&] { emplace(*S, A(0)); }); }
      }
      else if(o == "pushnomem" || o == "pushshort") {
         if constexpr (counting<T>) {
            std::vector<T> v; v.reserve(MAXARGS); for(size_t i = 1; i < a.size(); ++i) v.push_back(E::make(A(i)));
            bool none = o == "pushnomem";
            std::vector<long> before = none ? std::vector<long>() : contents(s);
            arena(s).budget = none ? 0 : A(0);
            bool thrown = false;
            try {
               if(none && A(0)) S->push_emplace(v[0]);
               else spreadN(v.size(), v, [&](auto&... x) { if constexpr (sizeof...(x) > 0) S->push(x...); });
            }
            catch(const std::bad_alloc&) { thrown = true; }
            arena(s).budget = -1;
            if(none && !thrown) mismatch("a push succeeds although there is no memory for the page it needs");
            if(!none) {
               std::vector<long> now = contents(s);
               if(now.size() < before.size() || now.size() > before.size() + v.size()) mismatch("wrong size after memory ran out");
               if(!thrown && now.size() != before.size() + v.size()) mismatch("a push reporting success has not stored everything");
               size_t extra = now.size() - before.size();
               for(size_t i = 0; i < extra; ++i) before.push_back(E::val(v[i]));
               same("contents after memory ran out", now, before);
               take(s, extra);
            }
         }
      }
      else if(o == "popthrow" || o == "poprevthrow") {
         if constexpr (E::tracked) {
            auto d = dests();
            size_t n = cst(s).size();
            doom(A(2), want[A(1) - 1], &d[A(1) - 1]);
            fails([&] { spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) { if(o == "popthrow") S->pop(x...); else S->pop_reverse(x...); } }); });
            for(long i = 0; i < A(1) - 1; ++i) if(E::val(d[i]) != want[i]) mismatch("a value copied before the failure is wrong");
            if(o == "popthrow") {
               // at most what was handed over is gone; go on from the most of it
               size_t m = cst(s).size();
               if(m > n || n - m > (size_t) A(1) - 1) mismatch("a failing pop removed a value it had not handed over");
               take(s, A(1) - 1 - (n - m));
            }
         }
      }
      else if(o == "peekthrow") {
         if constexpr (E::tracked) {
            auto d = dests();
            doom(A(3), want[A(1) - 1], &d[A(1) - 1]);
            fails([&] { spreadN(A(0), d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) {
               if(A(2) == 0) S->peek(x...); else if(A(2) == 1) S->peek_reverse(x...); else S->peek_depth(A(0), x...); } }); });
            reads = true;
         }
      }
      else if(o == "copythrow") {
         if constexpr (E::tracked) { g_poison = A(1); fails([&] { Stack x(cst(s)); }); reads = true; }
      }
      else if(o == "copynomem") {
         if constexpr (counting<T>) {
            arena(s).budget = A(1);
            try { Stack x(cst(s)); arena(s).budget = -1; same("the copy", look(x), want); }
            catch(const std::bad_alloc&) {}
            arena(s).budget = -1; reads = true;
         }
      }
      else if(o == "assignthrow" || o == "assignnomem") {
         Stack& t = *st[A(0)];
         bool memory = o == "assignnomem", failed = false;
         if(memory ? counting<T> : E::tracked) {
            if(memory) arena(A(0)).budget = arena(s).budget = A(1); else { g_poison = A(1); g_passes = A(2); }
            try { t = cst(s); } catch(const std::bad_alloc&) { failed = true; } catch(const Poisoned&) { failed = true; }
            arena(s).budget = arena(A(0)).budget = -1; g_poison = -1; g_passes = 0;
            std::vector<long> now = look(t), was = longs(j[3][0]), to = longs(j[3][1]);
            bool prefix = now.size() <= to.size() && std::equal(now.begin(), now.end(), to.begin());
            if(failed ? now != was && !prefix : now != to)
               mismatch("after " + std::string(failed ? "a failed assignment" : "an assignment") + " of " + show(to) + " to " + show(was) + " there is " + show(now));
            size_t n = 0; for(auto i = t.begin(); i != t.end() && n <= now.size(); ++i) ++n;
            if(n != now.size()) mismatch("iteration after a failed assignment visits " + std::to_string(n) + " elements of " + std::to_string(now.size()));
            t.clear(); killPlain(A(0)); addr[A(0)].clear();
         }
      }
      else throw std::logic_error("unknown operation " + o);

      if(!E::tracked && (o.find("throw") != std::string::npos)) skip();
      if(!counting<T> && (o.find("nomem") != std::string::npos || o == "pushshort")) skip();
      observe(o, s, j[4], allocsBefore, reads ? &statsBefore : nullptr);
   }

   struct Skip {};
   [[noreturn]] void skip() { throw Skip(); }

   static void doom(long mode, long v, const void* dest) {
      if(mode == 0) g_poison = v; else if(mode == 1) g_noassign = v; else g_nodest = dest;
   }

   template<class F> void fails(F&& f) {
      bool thrown = false;
      try { f(); } catch(const Poisoned&) { thrown = true; }
      g_poison = g_noassign = -1; g_passes = 0; g_nodest = nullptr;
      if(!thrown) mismatch("the exception does not reach the caller");
   }

   void distr(long s, size_t n, long kind, const std::vector<long>& want) {
      auto d = dests();
      auto go = [&](auto it) {
         auto it2 = it;
         spreadN(n, d, [&](auto&... x) { if constexpr (sizeof...(x) > 0) falcon::distribute(it2, x...); });
         outputs("distribute", n, d, want);
      };
      switch(kind) {
      case 0: go(st[s]->begin()); break;
      case 1: go(st[s]->cbegin()); break;
      case 2: go(st[s]->rbegin()); break;
      case 3: go(st[s]->crbegin()); break;
      case 4: { std::list<T> l; for(long x: want) l.push_back(E::make(x)); go(l.begin());
                auto d2 = dests(); spreadN(n, d2, [&](auto&... x) { if constexpr (sizeof...(x) > 0) falcon::distribute(l.begin(), x...); }); outputs("distribute", n, d2, want); break; }
      case 5: { std::vector<T> l; for(long x: want) l.push_back(E::make(x)); const auto& cl = l; go(cl.begin()); break; }
      }
   }

   std::vector<long> stats(long s) {
      size_t b, d, cb, cd;
      cst(s).getStats(b, d, cb, cd);
      return {(long) b, (long) d, (long) cb, (long) cd};
   }

   void killPlain(long s) { for(auto& x: pi) if(x.second.own == s) x.second.reset(); }

   // What can be seen after a step.
   void observe(const std::string& o, long s, const J& obs, size_t allocsBefore, const std::vector<long>* before) {
      size_t total = 0;
      for(size_t i = 0; i < obs.size(); ++i) {
         long t = (long) i + 1;
         const J& x = obs[i];
         if(x.size() == 0) continue;
         size_t n = x[0].i;
         expect("size", cst(t).size(), n);
         if(cst(t).empty() != (n == 0)) mismatch("empty() is wrong");
         if(n) expect("top", E::val(cst(t).top()), x[1].i);
         total += n;
         auto g = stats(t);
         long ps = x[3].i;
         if(before && t == s && vt::watch('r')) {
            if(g != *before) mismatch("the operation changed the pages");
         }
         if(vt::watch('p')) {
         long cp = n == 0 ? 1 : (n + ps - 1) / ps;
         if(g[1] != ps) mismatch("page size changed");
         if(g[2] != cp) mismatch("current page is " + std::to_string(g[2]) + ", should be " + std::to_string(cp));
         if(g[3] != (n == 0 ? 0 : (long) n - (cp - 1) * ps)) mismatch("elements in the current page are wrong");
         if(x[2].i != 0) {
            if(g[0] != x[2].i) mismatch("pages allocated are " + std::to_string(g[0]) + ", should be " + std::to_string(x[2].i));
         }
         }
         if(x[2].i != 0 && vt::watch('m')) {
            if(counting<T> && ar[t]) {
               if(ar[t]->elems != size_t(x[2].i * ps) && single()) mismatch("memory for " + std::to_string(ar[t]->elems) + " elements is held, should be " + std::to_string(x[2].i * ps));
            }
         }
         if(vt::watch('m') && t == s && ar[t] && capOf.count(t) && capOf[t] != 0 && capOf[t] == x[2].i && o != "copy" && o != "move" && o != "assign" && o != "create" && o.find("nomem") == std::string::npos && o.find("throw") == std::string::npos && ar[t]->allocs != allocsBefore)
            mismatch("memory was allocated although no page was needed");
         capOf[t] = x[2].i;
         // where the elements are
         std::vector<const void*> now;
         if(n && single() && vt::watch('a')) {
            auto it = cst(t).rbegin();
            for(size_t k = 0; k < n && k < 64; ++k, ++it) now.push_back(&*it);
            auto& old = addr[t];
            size_t m = std::min(old.size(), now.size());
            if(o == "pushbulk" || o == "push" || o == "emplace" || o == "pop" || o == "pop0" || o == "discard" || o == "poprev" || o == "shrink" || o == "settop" || before)
               for(size_t k = 0; k < m; ++k) if(old[k] != now[k]) mismatch("an element was moved in memory");
            if(counting<T> && ar[t]) for(const void* p: now) if(!ar[t]->inside(p)) mismatch("an element is stored outside of the memory of the allocator");
         }
         addr[t] = now;
      }
      if(E::tracked && vt::watch('l')) {
         size_t live = g_live.size() - base;
         if(live != total) mismatch("elements alive are " + std::to_string(live) + ", should be " + std::to_string(total));
      }
   }
   bool multi{false};
   bool single() { return !multi; }

public:
   size_t run(const J& j) {
      size_t done = 0;
      base = g_live.size();
      multi = false;
      size_t k = 0;
      try {
         for(; k < j[1].size(); ++k) { step(j[1][k]); ++done; }
      }
      catch(const Skip&) { cleanup(); return done; }
      catch(const vt::Mismatch& m) {
         g_poison = -1;
         mismatch("step " + std::to_string(k + 1) + " " + j[1][k][0].s + ": " + m.what());
      }
      // what is left
      const J& fin = j[2];
      for(size_t i = 0; i < fin.size(); ++i) {
         long t = (long) i + 1;
         if(!st.count(t)) continue;
         auto want = longs(fin[i]);
         if(want.size() <= 64) same("final contents", contents(t), want);
         // draining, one at a time
         while(!want.empty()) {
            T x = E::make(1);
            st[t]->pop(x);
            if(E::val(x) != want.back()) mismatch("draining gives " + std::to_string(E::val(x)) + ", should be " + std::to_string(want.back()));
            want.pop_back();
         }
         if(!st[t]->empty()) mismatch("not empty after taking everything");
      }
      cleanup();
      return done;
   }

   void cleanup() {
      for(auto& x: pi) x.second.reset();
      si.clear();
      st.clear();
      if(vt::watch('l') && g_live.size() != base) mismatch("elements left alive after everything is destroyed");
      for(auto& x: ar) if(vt::watch('m') && x.second && (x.second->elems || x.second->other || !x.second->blocks.empty())) mismatch("memory not returned");
   }
};

int main(int argc, char** argv) {
   return vt::replay(argc, argv, [](const J& j) { Runner r; return r.run(j); });
}
