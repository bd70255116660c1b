// Replays behaviours of spec/CodeGen.tla (built with -DCODE), spec/ItemGen.tla and spec/ItemConvGen.tla.
#include "trace.h"
#include <new>
#include <sstream>
#include <memory>
#include <cmath>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using vt::J; using vt::mismatch; using vt::expect;

// ---------------------------------------------------------------- memory
static long g_budget = -1;       // requests satisfied before one fails; -1: none fails
static long g_blocks = 0;
void* operator new(size_t n) {
   if(g_budget == 0) { g_budget = -1; throw std::bad_alloc(); }
   if(g_budget > 0) --g_budget;
   void* p = malloc(n ? n : 1); if(!p) abort(); ++g_blocks; return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(p) --g_blocks; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }

static std::string show(const std::string& s) { return s.size() > 60 ? "\"" + s.substr(0, 40) + "..\" (" + std::to_string(s.size()) + " characters)" : "\"" + s + "\""; }
static void same(const std::string& what, const std::string& got, const std::string& want) {
   if(got != want) mismatch(what + " is " + show(got) + ", should be " + show(want));
}
constexpr int N = 8;
static const J* g_steps;

#ifdef CODE
#include <falcon/engine/code.h>
#include <falcon/engine/compiler.h>
#include <vector>
using falcon::Code; using falcon::Compiler;
static std::string text(const J& t) {
   std::string r;
   for(auto& p: t.a) { for(long n = 0; n < p[1].i; ++n) r += p[0].s; }
   for(auto& c: r) { if(c == '@') c = 0; if(c == '~') c = (char) 0xff; }
   return r;
}
static std::string stream(const J& s) {
   std::string r = s[0].s;
   if(s.size() > 1) { for(long n = 0; n < s[2].i; ++n) r += s[1].s; r += s[3].s; }
   for(auto& c: r) { if(c == '@') c = 0; if(c == '~') c = (char) 0xff; }
   return r;
}
static Code through(Code c) { return c; }
static void look(const std::string& at, const Code& c, const J& want) {
   std::string r = c.toString();
   if(want[0].s == "text") same(at, r, text(want[1]));
}
static size_t replay(const J& tr) {
   size_t before = bytes(); long blocks = g_blocks;
   size_t n = 0;
   {
      std::unique_ptr<Code> s[N];
      for(const J& st: tr[1].a) {
         ++n;
         const std::string& o = st[0].s; const J& a = st[1];
         std::string at = "step " + std::to_string(n) + " " + o + ": ";
         auto S = [&](int k) -> std::unique_ptr<Code>& { return s[a[k].i - 1]; };
         if(o == "new") {
            std::string t = text(a[1]);
            switch(a[2].i) { case 0: S(0).reset(new Code(t)); break; case 1: S(0).reset(new Code(t, 7)); break; default: { Code c = t; S(0).reset(new Code(c)); } }
            t.assign(t.size(), '?');
         }
         else if(o == "empty") S(0).reset(new Code);
         else if(o == "compile") { std::istringstream in(stream(a[1])); S(0).reset(new Code(Compiler().compile(in))); }
         else if(o == "recompile") { std::istringstream in(stream(a[1])); Compiler c; *S(0) = c.compile(in); }
         else if(o == "copy") S(1).reset(new Code(*S(0)));
         else if(o == "assign") *S(1) = *S(0);
         else if(o == "move") S(1).reset(new Code(std::move(*S(0))));
         else if(o == "moveassign") *S(1) = std::move(*S(0));
         else if(o == "swap") std::swap(*S(0), *S(1));
         else if(o == "destroy") S(0).reset();
         else if(o == "pass") { Code r = through(*S(0)); look(at + "what comes back", r, st[2]); }
         else if(o == "list") { std::vector<Code> v; for(auto& p: s) if(p) v.push_back(*p); v.insert(v.begin(), Code("x")); if(v.size() > 2) v.erase(v.begin() + 1); v.resize(9); }
         else if(o == "churn") { *S(1) = *S(0); size_t b = bytes(); for(int k = 0; k < 9; ++k) *S(1) = *S(0); if(bytes() > b) mismatch(at + "assigning again takes more memory each time"); }
         else throw std::logic_error("bad trace: " + o);
         for(size_t i = 0; i < st[3].size(); ++i) {
            const J& w = st[3][i];
            if(w[0].s != "none") look(at + "value " + std::to_string(i + 1), *s[i], w);
         }
      }
   }
   if(bytes() != before || g_blocks != blocks) mismatch("step " + std::to_string(n) + ": memory is not released (" + std::to_string((long) (bytes() - before)) + " bytes)");
   return n;
}

#else
#include <falcon/engine/item.h>
#include <falcon/engine/pagedstack.h>
#include <mutex>
#include <vector>
#include <algorithm>
using namespace falcon;
// '@' is the character 0 (in strings only), '~' is 255
static std::string chars(std::string s) {
   for(auto& c: s) { if(c == '@') c = 0; if(c == '~') c = (char) 0xff; }
   return s;
}
template<class F> static auto with(const J& v, F f) {
   const std::string& c = v[0].s; const std::string t = chars(v[1].s);
   if(c == "bool") return f(t == "true");
   if(c == "char") return f((char) std::stoi(t));
   if(c == "byte") return f((byte) std::stoi(t));
   if(c == "int32") return f((int32) std::stoi(t));
   if(c == "uint32") return f((uint32) std::stoul(t));
   if(c == "int64") return f((int64) std::stoll(t));
   if(c == "uint64") return f((uint64) std::stoull(t));
   if(c == "float") return f((numeric) std::strtod(t.c_str(), nullptr));
   if(c == "big") return f(BigNum(t));
   if(c == "cstr") { std::string copy = t; ccstring p = copy.c_str(); struct Wipe { std::string& s; ~Wipe() { s.assign(s.size(), '?'); } } w{copy}; return f(p); }
   if(c == "str") return f(std::string(t));
   throw std::logic_error("bad trace: value " + c);
}
static void assign(Item& i, const J& v) {
   if(v[0].s == "nil") i = Item();
   else if(v[0].s == "cstr") { std::string copy = chars(v[1].s); i = copy.c_str(); copy.assign(copy.size(), '?'); }
   else with(v, [&](auto x) { i = x; });
}
static std::unique_ptr<Item> make(const J& v) {
   if(v[0].s == "nil") return std::unique_ptr<Item>(new Item);
   if(v[0].s == "cstr") { std::string copy = chars(v[1].s); std::unique_ptr<Item> r(new Item(copy.c_str())); copy.assign(copy.size(), '?'); return r; }
   return with(v, [&](auto x) { return std::unique_ptr<Item>(new Item(x)); });
}
// f: kind, as string, as integer, as boolean, what it was built from
static void look(const std::string& at, const Item& i, const J& f) {
   std::string k = i.handler->typeName();
   same(at + "the kind", k, f[0].s);
   same(at + "toString()", i.toString(), chars(f[1].s));
   const std::string whole = std::to_string(i.toInt());
   if(f[2].s != "?") same(at + "toInt()", whole, f[2].s);
   if(i.toBool() != (f[3].i == 1)) mismatch(at + "toBool() is " + (f[3].i ? "false" : "true"));
   const std::string t = chars(f[4].s);
   if(k == "Bool") { if(i.get<bool>() != (t == "true")) mismatch(at + "get<bool>() is wrong"); }
   else if(k == "Int") {
      same(at + "get<int64>()", std::to_string(i.get<int64>()), t);
      if(t[0] != '-') same(at + "get<uint64>()", std::to_string(i.get<uint64>()), t);
   }
   else if(k == "Float") { const numeric w = std::strtod(t.c_str(), nullptr), g = i.get<numeric>(); if(g != w && !(std::isnan(g) && std::isnan(w))) mismatch(at + "get<numeric>() is " + std::to_string(i.get<numeric>())); }
   else if(k == "String") same(at + "get<String>()", i.get<String>(), t);
   else if(k == "BigNum") { if(i.get<BigNum>() != BigNum(t) && !(t == "nan" && boost::multiprecision::isnan(i.get<BigNum>()))) mismatch(at + "get<BigNum>() is " + i.get<BigNum>().str()); }
   if(i.handler->isFlat() != (k != "String" && k != "BigNum")) mismatch(at + "isFlat() of " + k + " is wrong");
   if(!i.handler->isCopyFlat()) mismatch(at + "isCopyFlat() of " + k + " is wrong");
}
struct Odd { int x; };
template<typename F> static bool throws(F&& f) {
   try { f(); return false; }
   catch(const std::exception&) { return true; }
}
template<typename F> static bool refused(const std::string& k, F&& f) {
   if(k == "short") return throws([&] { f((short) 3); });
   if(k == "float") return throws([&] { f(3.0f); });
   if(k == "long") return throws([&] { f(3L); });
   if(k == "pointer") return throws([&] { f((void*) nullptr); });
   return throws([&] { f(Odd{3}); });
}
static Item through(Item i) { return i; }

// what a handler allocates, it destroys, and it can be copied
static void handlers() {
   struct { const Handler* h; const char* f[5]; } all[] = {
      { &HandlerFactory::nilHandler, { "Nil", "nil", "0", "0", "" } }, { &HandlerFactory::boolHandler, { "Bool", "false", "0", "0", "false" } },
      { &HandlerFactory::intHandler, { "Int", "0", "0", "0", "0" } }, { &HandlerFactory::floatHandler, { "Float", "0", "0", "0", "0" } },
      { &HandlerFactory::stringHandler, { "String", "", "0", "0", "" } }, { &HandlerFactory::bigNumHandler, { "BigNum", "0", "0", "0", "0" } } };
   for(auto& a: all) {
      ItemData d = a.h->allocate(), e = a.h->copy(d);
      for(auto& x: { d, e }) {
         same(std::string("what the handler of ") + a.f[0] + " allocates: toString()", a.h->toString(x), a.f[1]);
         same(std::string("what the handler of ") + a.f[0] + " allocates: toInt()", std::to_string(a.h->toInt(x)), a.f[2]);
         if(a.h->toBool(x)) mismatch(std::string("what the handler of ") + a.f[0] + " allocates is true");
      }
      same("typeName()", a.h->typeName(), a.f[0]);
      a.h->destroy(d);
      same(std::string("after the other was destroyed, ") + a.f[0], a.h->toString(e), a.f[1]);
      a.h->destroy(e);
   }
}

// The program writes numbers its own way.
struct OwnWay: std::numpunct<char> {
   char do_decimal_point() const override { return ','; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\3"; }
   std::string do_truename() const override { return "vero"; }
   std::string do_falsename() const override { return "falso"; }
};
static const std::locale& ownWay() { static const std::locale l(std::locale::classic(), new OwnWay); return l; }
struct Elsewhere { std::locale was; Elsewhere(): was(std::locale::global(ownWay())) {} ~Elsewhere() { std::locale::global(was); } };

static size_t replay(const J& tr) {
   size_t before = bytes(); long blocks = g_blocks;
   size_t n = 0;
   {
      std::unique_ptr<Item> s[N];
      PagedStack<Item, std::allocator, std::mutex> stk(3, 1);
      std::vector<Item> vec;
      for(const J& st: tr[1].a) {
         ++n;
         const std::string& o = st[0].s; const J& a = st[1];
         std::string at = "step " + std::to_string(n) + " " + o + ": ";
         auto S = [&](int k) -> std::unique_ptr<Item>& { return s[a[k].i - 1]; };
         if(o == "value") { at += st[1][0].s + " " + st[1][1].s + ": "; auto i = make(st[1]); look(at, *i, st[2]); Item c(*i); i.reset(); look(at, c, st[2]); { Elsewhere e; look(at + "(in a program with a locale of its own) ", c, st[2]); } if(st[1][0].s == "nil") handlers(); continue; }
         if(o == "new") S(0) = make(a[1]);
         else if(o == "nil") S(0).reset(new Item);
         else if(o == "copy") {
            if(a[2].i == 0) S(1).reset(new Item(*S(0)));
            else if(a[2].i == 1) { Item i = *S(0); S(1).reset(new Item(std::move(i))); }
            else if(a[2].i == 2) S(1).reset(new Item(through(*S(0))));
            else { S(1).reset(new Item); *S(1) = Item(*S(0)); }
         }
         else if(o == "assign") *S(1) = *S(0);
         else if(o == "set") assign(*S(0), a[1]);
         else if(o == "destroy") S(0).reset();
         else if(o == "swap") std::swap(*S(0), *S(1));
         else if(o == "pass") { Item i = through(*S(0)); look(at + "what comes back: ", i, st[2]); }
         else if(o == "bad") { if(!refused(a[0].s, [](auto x) { Item i(x); })) mismatch(at + "no error for a " + a[0].s); }
         else if(o == "badget") { if(!refused(a[1].s, [&](auto x) { (void) S(0)->template get<decltype(x)>(); })) mismatch(at + "no error for reading the item as a " + a[1].s); }
         else if(o == "badset") { if(!refused(a[1].s, [&](auto x) { *S(0) = x; })) mismatch(at + "no error for assigning a " + a[1].s); }
         else if(o == "churn") { *S(1) = *S(0); size_t b = bytes(); for(int k = 0; k < 9; ++k) *S(1) = *S(0); if(bytes() > b) mismatch(at + "assigning again takes more memory each time"); }
         else if(o == "nocopy") { g_budget = a[1].i; try { Item i(*S(0)); } catch(std::bad_alloc&) {} g_budget = -1; }
         else if(o == "noassign") {
            Item old(*S(1));
            g_budget = a[2].i; try { *S(1) = *S(0); } catch(std::bad_alloc&) { g_budget = -1; goto unchanged; }
            // (it needed no memory)
            g_budget = -1; *S(1) = old;
            unchanged:;
         }
         else if(o == "nonew") {
            const std::string t = chars(a[0][1].s);
            BigNum b = a[0][0].s == "big" ? BigNum(t) : BigNum(); ccstring c = t.c_str();
            g_budget = a[1].i; try { if(a[0][0].s == "big") Item i(b); else Item i(c); } catch(std::bad_alloc&) {} g_budget = -1;
         }
         else if(o == "push") stk.push(*S(0));
         else if(o == "pushv") stk.push(*make(a[0]));
         else if(o == "emplace") { if(a[0][0].s == "nil") stk.push_emplace(); else if(a[0][0].s == "cstr") stk.push_emplace(chars(a[0][1].s).c_str()); else with(a[0], [&](auto x) { stk.push_emplace(x); }); }
         else if(o == "pop") stk.pop(*S(0));
         else if(o == "peek") stk.peek(*S(0));
         else if(o == "top") stk.top(*S(0));
         else if(o == "discard") stk.discard((size_t) a[0].i);
         else if(o == "clear") stk.clear();
         else if(o == "vpush") vec.push_back(*S(0));
         else if(o == "vinsert") vec.insert(vec.begin() + a[1].i, *S(0));
         else if(o == "verase") vec.erase(vec.begin() + a[0].i - 1);
         else if(o == "vreverse") std::reverse(vec.begin(), vec.end());
         else if(o == "vself") vec[a[1].i - 1] = vec[a[0].i - 1];
         else if(o == "vcopy") { std::vector<Item> w(vec); vec = w; w.clear(); w = vec; std::rotate(w.begin(), w.begin() + w.size() / 2, w.end()); }
         else if(o == "vclear") { vec.clear(); }
         else throw std::logic_error("bad trace: " + o);
         for(size_t i = 0; i < st[3].size(); ++i) if(st[3][i].size()) look(at + "item " + std::to_string(i + 1) + ": ", *s[i], st[3][i]);
         if(stk.size() != st[4].size()) mismatch(at + "the stack has " + std::to_string(stk.size()) + " items");
         size_t k = st[4].size();     // from the top down
         for(auto i = stk.begin(); i != stk.end(); ++i) { look(at + "item " + std::to_string(k) + " of the stack: ", *i, st[4][k - 1]); --k; }
         if(vec.size() != st[5].size()) mismatch(at + "the vector has " + std::to_string(vec.size()) + " items");
         for(k = 0; k < vec.size(); ++k) look(at + "item " + std::to_string(k + 1) + " of the vector: ", vec[k], st[5][k]);
      }
   }
   if(bytes() != before || g_blocks != blocks) mismatch("step " + std::to_string(n) + ": memory is not released (" + std::to_string((long) (bytes() - before)) + " bytes)");
   return n;
}
#endif

int main(int argc, char** argv) {
   // what the library allocates once and for all
   { std::ostringstream s; s << 1.5 << 1LL; std::istringstream i("a"); std::string t; i >> t; try { throw std::bad_alloc(); } catch(...) {} }
#ifndef CODE
   { Elsewhere e; std::ostringstream s; s << 1234567 << 1.5 << BigNum("1234.5"); }
   { std::ostringstream s; s << BigNum("1.5"); try { Item i((short) 1); } catch(...) {} }
#endif
   return vt::replay(argc, argv, replay);
}
