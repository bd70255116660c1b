// Concurrent use of a PagedStack built with a real lock, run under weave.
#include "weave/weave.h"
#include <falcon/engine/pagedstack.h>
#include <falcon/futex.h>
#include <thread>
#include <vector>
#include <memory>
#include <string>
#include <cstdarg>
using namespace weave;

static void ev(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); event(b); }
static void list(const long* v, int n) { char b[400]; int l = snprintf(b, sizeof b, "\"r\",["); for(int i = 0; i < n; ++i) l += snprintf(b + l, sizeof b - l, "%s%ld", i ? "," : "", v[i]); snprintf(b + l, sizeof b - l, "]"); event(b); }

struct Op { std::string name; int a{0}, b{0}, c{0}; };

template<class Mutex> struct Run {
   using Stack = falcon::PagedStack<long, std::allocator, Mutex>;
   Stack* s;
   long nextv[8];

   struct Its { std::unique_ptr<typename Stack::sync_iterator> i[2]; std::unique_ptr<typename Stack::const_sync_iterator> k[2]; };

   Its shared;

   void doit(int t, const Op& o, Its& its) {
      long v[4] = { 0, 0, 0, 0 };
      const Stack& cs = *s;
      const char* n = o.name.c_str();
      if(o.name == "push" || o.name == "emplace") {
         for(int i = 0; i < o.a; ++i) v[i] = nextv[t]++;
         if(o.a == 1) ev("\"c\",\"push\",[%ld]", v[0]); else if(o.a == 2) ev("\"c\",\"push\",[%ld,%ld]", v[0], v[1]); else ev("\"c\",\"push\",[%ld,%ld,%ld]", v[0], v[1], v[2]);
         if(o.name == "emplace") s->push_emplace(v[0]);
         else switch(o.a) { case 1: s->push(v[0]); break; case 2: s->push(v[0], v[1]); break; default: s->push(v[0], v[1], v[2]); }
         ev("\"r\",[]");
      }
      else if(o.name == "pop") {
         ev("\"c\",\"pop\",[%d]", o.a);
         switch(o.a) { case 1: s->pop(v[0]); break; case 2: s->pop(v[0], v[1]); break; default: s->pop(v[0], v[1], v[2]); }
         list(v, o.a);
      }
      else if(o.name == "drop") { ev("\"c\",\"discard\",[1]"); s->pop(); ev("\"r\",[]"); }
      else if(o.name == "popr") {
         ev("\"c\",\"popr\",[%d]", o.a);
         switch(o.a) { case 1: s->pop_reverse(v[0]); break; case 2: s->pop_reverse(v[0], v[1]); break; default: s->pop_reverse(v[0], v[1], v[2]); }
         list(v, o.a);
      }
      else if(o.name == "discard") { ev("\"c\",\"discard\",[%d]", o.a); s->discard(o.a); ev("\"r\",[]"); }
      else if(o.name == "peek") {
         ev("\"c\",\"peek\",[%d]", o.a);
         switch(o.a) { case 1: cs.peek(v[0]); break; case 2: cs.peek(v[0], v[1]); break; default: cs.peek(v[0], v[1], v[2]); }
         list(v, o.a);
      }
      else if(o.name == "peekr") {
         ev("\"c\",\"peekr\",[%d]", o.a);
         switch(o.a) { case 1: cs.peek_reverse(v[0]); break; case 2: cs.peek_reverse(v[0], v[1]); break; default: cs.peek_reverse(v[0], v[1], v[2]); }
         list(v, o.a);
      }
      else if(o.name == "peekd") { ev("\"c\",\"peekd\",[%d,%d]", o.a + 1, o.a); if(o.a == 1) cs.peek_depth(2, v[0]); else cs.peek_depth(3, v[0], v[1]); list(v, o.a); }
      else if(o.name == "settop") { v[0] = nextv[t]++; ev("\"c\",\"settop\",[%ld]", v[0]); s->top(v[0]); ev("\"r\",[]"); }
      else if(o.name == "size") { ev("\"c\",\"size\",[]"); v[0] = s->size(); list(v, 1); }
      else if(o.name == "empty") { ev("\"c\",\"empty\",[]"); v[0] = s->empty(); list(v, 1); }
      else if(o.name == "clear") { ev("\"c\",\"clear\",[]"); s->clear(); ev("\"r\",[]"); }
      else if(o.name == "shrink") { ev("\"c\",\"shrink\",[]"); s->shrink_to_fit(); ev("\"r\",[]"); }
      else if(o.name == "stats") { ev("\"c\",\"stats\",[]"); size_t a, b, c, d; s->getStats(a, b, c, d); v[0] = a; v[1] = b; v[2] = c; v[3] = d; list(v, 4); }
      else if(o.name == "copy") {
         ev("\"c\",\"copy\",[]");
         Stack* x = new Stack(cs);
         std::vector<long> all; for(auto i = x->rbegin(); i != x->rend(); ++i) all.push_back(*i);
         delete x;
         list(all.data(), (int) all.size());
      }
      else if(o.name == "acopy") {
         ev("\"c\",\"copy\",[]");
         Stack x(o.a, 1); x.push(7, 8); x = cs;
         std::vector<long> all; for(auto i = x.rbegin(); i != x.rend(); ++i) all.push_back(*i);
         list(all.data(), (int) all.size());
      }
      else if(o.name == "assign") {
         Stack x(o.a, 1);
         for(int i = 0; i < o.a; ++i) { v[i] = nextv[t]++; x.push(v[i]); }
         ev("\"c\",\"assign\",[%ld%s%s]", v[0], o.a > 1 ? ("," + std::to_string(v[1])).c_str() : "", o.a > 2 ? ("," + std::to_string(v[2])).c_str() : "");
         *s = x;
         ev("\"r\",[]");
      }
      else if(o.name[0] == 'g') {
         // the iterator all threads use
         ev("\"c\",\"s%s\",%s", n + 1, o.name == "geq" ? "[1,2]" : "[1]");
         if(o.name == "geq") { v[0] = *shared.i[0] == *shared.i[1]; list(v, 1); }
         else if(o.name == "gget") { shared.i[0]->get(v[0]); list(v, 1); }
         else { ++*shared.i[0]; ev("\"r\",[]"); }
      }
      else {
         // synchronised iterators: o.a which of the thread's, o.b constant or not
         int id = 2 * t - 1 + o.a;
         if(o.name == "sbegin" || o.name == "send") {
            ev("\"c\",\"%s\",[%d]", n, id);
            bool begin = o.name == "sbegin";
            if(o.b) its.k[o.a].reset(new typename Stack::const_sync_iterator(begin ? cs.sync_begin() : cs.sync_end()));
            else its.i[o.a].reset(new typename Stack::sync_iterator(begin ? s->sync_begin() : s->sync_end()));
            ev("\"r\",[]");
         }
         else if(o.name == "scopy") {
            ev("\"c\",\"scopy\",[%d,%d]", id, 2 * t - o.a);
            int to = 1 - o.a;
            if(nextv[t] % 2) {
               // assigned to an iterator of another stack
               Stack y(1, 1); y.push(1);
               if(o.b) { const Stack& cy = y; its.k[to].reset(new typename Stack::const_sync_iterator(cy.sync_begin())); *its.k[to] = *its.k[o.a]; }
               else { its.i[to].reset(new typename Stack::sync_iterator(y.sync_begin())); *its.i[to] = *its.i[o.a]; }
            }
            else
            if(o.b) its.k[to].reset(new typename Stack::const_sync_iterator(*its.k[o.a])); else its.i[to].reset(new typename Stack::sync_iterator(*its.i[o.a]));
            ev("\"r\",[]");
         }
         else if(o.name == "sdrop") { ev("\"c\",\"sdrop\",[%d]", id); its.k[o.a].reset(); its.i[o.a].reset(); ev("\"r\",[]"); }
         else if(o.name == "seq") { ev("\"c\",\"seq\",[%d,%d]", id, 2 * t - o.a); v[0] = o.b ? *its.k[0] == *its.k[1] : *its.i[0] == *its.i[1]; list(v, 1); }
         else {
            ev("\"c\",\"%s\",[%d]", n, id);
            try {
               if(o.name == "sget") { if(o.b) its.k[o.a]->get(v[0]); else its.i[o.a]->get(v[0]); list(v, 1); }
               else if(o.name == "snext") { if(o.b) ++*its.k[o.a]; else ++*its.i[o.a]; ev("\"r\",[]"); }
               else if(o.name == "sprev") { if(o.b) --*its.k[o.a]; else --*its.i[o.a]; ev("\"r\",[]"); }
               else abort();
            }
            catch(std::runtime_error&) { ev("\"r\",[-1,-1]"); }
         }
      }
   }

   // Which script: m mixed (removals stay within what is there from the beginning), c with clears, g growing only.
   void scenario(char kind) {
      size_t ps = 1 + script_random(4), pa = 1 + script_random(2);
      int n = 2 + script_random(2);
      std::vector<std::vector<Op>> p(n);
      int removed = 0, sharedMoves = 0;
      bool sharing = kind != 'c' && script_random(3) == 0;
      for(auto& ops: p) {
         int k = 2 + script_random(n == 2 ? 4 : 3);
         bool it = false; int moved = 0, w = script_random(2); bool two = false; int last = 99;
         for(int i = 0; i < k; ++i) {
            Op o; o.a = 1 + script_random(3);
            int x = script_random(20);
            if(sharing && script_random(2)) {
               int y = script_random(4);
               o.name = y == 0 && sharedMoves < 2 ? "gnext" : y == 1 ? "geq" : "gget";
               if(o.name == "gnext") ++sharedMoves;
            }
            else if(it && script_random(3) && last) {
               o.a = 0; o.b = w;
               int y = script_random(kind == 'g' ? 6 : 5);
               if(kind == 'c') { if(y == 4) y = 2; if(y == 2) last = 0; }
               if(y <= 1) o.name = "sget";
               else if(y == 2 && moved < 2) { o.name = "snext"; ++moved; }
               else if(y == 3) { if(!two) { o.name = "scopy"; two = true; } else { o.name = "seq"; } }
               else if(y == 5 && moved > 0) { o.name = "sprev"; --moved; }
               else { o.name = "sget"; }
            }
            else if(kind == 'm') switch(x) {
               case 0: case 1: case 2: o.name = "push"; break;
               case 3: o.name = "emplace"; o.a = 1; break;
               case 4: case 5: case 6: o.name = "pop"; removed += o.a; break;
               case 7: case 8: o.name = "popr"; removed += o.a; break;
               case 9: o.name = "discard"; removed += o.a; break;
               case 10: o.name = "drop"; removed += 1; break;
               case 11: o.name = "peek"; break;
               case 12: o.name = "peekr"; break;
               case 13: o.name = "peekd"; o.a = 1 + o.a % 2; break;
               case 14: o.name = script_random(2) ? "settop" : "empty"; break;
               case 15: o.name = "size"; break;
               case 16: o.name = script_random(2) ? "shrink" : "stats"; break;
               case 17: o.name = script_random(2) ? "acopy" : "copy"; break;
               default: if(!it) { o.name = "sbegin"; o.a = 0; o.b = w; it = true; } else o.name = "shrink";
            }
            else if(kind == 'c') switch(x) {
               case 0: case 1: case 2: case 3: o.name = "push"; break;
               case 4: o.name = "emplace"; o.a = 1; break;
               case 5: case 6: case 7: o.name = "clear"; break;
               case 8: o.name = "assign"; break;
               case 9: case 10: o.name = "size"; break;
               case 11: case 12: o.name = "empty"; break;
               case 13: case 14: o.name = "shrink"; break;
               case 15: case 16: o.name = "stats"; break;
               default: o.name = script_random(3) ? "copy" : "acopy";
            }
            else switch(x) {
               case 0: case 1: case 2: case 3: case 4: o.name = "push"; break;
               case 5: o.name = "emplace"; o.a = 1; break;
               case 6: o.name = "peek"; break;
               case 7: o.name = "peekr"; break;
               case 8: o.name = "size"; break;
               case 9: o.name = "settop"; break;
               case 10: o.name = "shrink"; break;
               case 11: o.name = "stats"; break;
               case 12: o.name = "copy"; break;
               default: if(!it) { o.name = "sbegin"; o.a = 0; o.b = w; it = true; } else { o.name = "push"; }
            }
            ops.push_back(o);
         }
      }
      s = new Stack(ps, pa);
      for(int t = 0; t < 8; ++t) nextv[t] = 1000 * t + 1;
      ev("\"i\",%zu,%zu", ps, pa);
      Its mine;
      int pre = kind == 'c' ? 4 : removed + 4;
      while(pre) { Op o; o.name = "push"; o.a = pre >= 3 ? 3 : pre; doit(1, o, mine); pre -= o.a; }
      std::vector<Its> its(n);
      if(sharing) { Op o; o.name = "sbegin"; o.a = 0; o.b = 0; doit(1, o, shared); o.name = "scopy"; doit(1, o, shared); }
      if(kind == 'c') for(int i = 0; i < n; ++i) {
         // an iterator from the beginning
         if(script_random(2)) continue;
         Op o; o.name = "sbegin"; o.b = script_random(2);
         doit(2 + i, o, its[i]);
         Op g; g.b = o.b; g.name = "sget";
         int k = script_random(3); while(k--) p[i].insert(p[i].begin() + script_random(p[i].size() + 1), g);
         if(script_random(3) == 0) { g.name = "snext"; p[i].push_back(g); }
      }
      std::vector<std::thread> th;
      for(int i = 0; i < n; ++i) th.emplace_back([this, i, &p, &its] {
         for(auto& o: p[i]) doit(2 + i, o, its[i]);
         for(int a = 0; a < 2; ++a) if(its[i].i[a] || its[i].k[a]) { Op o; o.name = "sdrop"; o.a = a; doit(2 + i, o, its[i]); }
      });
      for(auto& t: th) t.join();
      if(sharing) { Op o; o.name = "sdrop"; for(o.a = 0; o.a < 2; ++o.a) doit(1, o, shared); }
      for(const char* x: { "size", "stats", "copy", "empty" }) { Op o; o.name = x; doit(1, o, mine); }
      delete s;
   }
};

int main(int argc, char** argv) {
   return weave::main(argc, argv, [](const std::string& n) {
      char kind = n[0];
      if(n.substr(1) == "mutex") { Run<std::mutex> r; r.scenario(kind); }
      else { Run<falcon::Futex<1>> r; r.scenario(kind); }
   });
}
