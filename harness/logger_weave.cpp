// Log statements and blocks of random shapes, and the logger's category filter, run under weave.
#include "weave/weave.h"
#include <falcon/config.h>
#include <falcon/logger.h>
#include <thread>
#include <vector>
#include <memory>
#include <string>
#include <iomanip>
#include <locale>
#include <sstream>
#include <cstdarg>
#include <cstring>
using namespace weave;
using falcon::Logger; using falcon::LogSystem; using falcon::LOGLEVEL;

static void ev(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char* f, ...) { static thread_local char b[20000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); event(b); }
static uint32_t rnd(uint32_t n) { return script_random(n); }
static std::string json(const std::string& s) { std::string r; for(char c: s) { if(c == '"' || c == '\\') r += '\\'; if(c == '\n') r += "\\n"; else r += c; } return r; }

// ------------------------------------------------------------------ who listens
struct Probe: LogSystem::Listener {
   void onMessage(const LogSystem::Message& m) override {
      const char* f = strrchr(m.m_file.c_str(), '/');
      ev("\"m\",%d,\"%s\",%d,%d,\"%s\"", (int) m.m_level, json(m.m_category).c_str(), m.m_line, (int) (m.m_file == __FILE__ && f && !strcmp(f, "/logger_weave.cpp")), json(m.m_message).c_str());
   }
};

// ------------------------------------------------------------------ statements
static const char* catNames[] = { "", "net", "net.io", "db", "netdb", "NET", "net7", " net" };
static const int numbers[] = { 0, 7, 10, 31, 255, 4096, 65536, 2147483647 };
struct Stopped {};

struct Stmt;
struct Piece { int kind; int n; std::string s; std::shared_ptr<Stmt> sub; };
// IMBUE, LOSE and MASK act on the stream they are printed on; STATE prints what MASK may have left there; SNAP fails while it is printed.
enum { TEXT, NUMBER, FLAG, REAL, CALL, INSIDE, THROW, IMBUE, LOSE, MASK, STATE, SNAP };
struct Comma: std::numpunct<char> { char do_decimal_point() const override { return ','; } };
static std::locale& comma() { static std::locale l(std::locale::classic(), new Comma); return l; }
struct Stmt { int head, lv, shape, cat, leave; Piece p[3]; std::vector<std::shared_ptr<Stmt>> body; bool swallow; };
static void run(const Stmt& s);

// What is streamed: prints the piece, and tells so.
struct Out { const Piece* p; };
static std::ostream& operator<<(std::ostream& o, const Out& x) {
   ev("\"x\"");
   switch(x.p->kind) {
   case NUMBER: return o << numbers[x.p->n];
   case FLAG: return o << (x.p->n != 0);
   case REAL: return o << 3.14159265;
   case INSIDE: {
      // logs while it is printed
      ev("\"o\",\"s\",\"<\""); o << "<";
      run(*x.p->sub);
      ev("\"o\",\"s\",\">\""); return o << ">";
   }
   case IMBUE: o.imbue(comma()); return o;
   case LOSE: o.setstate(std::ios::failbit); return o;
   case MASK: o.exceptions(std::ios::eofbit); return o;
   case STATE: return o << (o.exceptions() == std::ios::eofbit ? "E" : o.exceptions() ? "?" : "e");
   case SNAP: ev("\"o\",\"s\",\"<\""); o << "<"; throw Stopped();
   default: return o << x.p->s;
   }
}
// An operand: evaluating it may log, or fail.
static Out O(const Piece& p) {
   switch(p.kind) {
   case TEXT: ev("\"o\",\"s\",\"%s\"", json(p.s).c_str()); break;
   case NUMBER: ev("\"o\",\"n\",%d", numbers[p.n]); break;
   case FLAG: ev("\"o\",\"b\",%d", p.n); break;
   case REAL: ev("\"o\",\"f\""); break;
   case CALL: run(*p.sub); ev("\"o\",\"s\",\"%s\"", json(p.s).c_str()); break;
   case INSIDE: case SNAP: break;
   case IMBUE: ev("\"o\",\"comma\""); break;
   case LOSE: ev("\"o\",\"lose\""); break;
   case MASK: ev("\"o\",\"mask\""); break;
   case STATE: ev("\"o\",\"state\""); break;
   case THROW: throw Stopped();
   }
   return Out{ &p };
}
static const std::string& C(int c) { static const std::string n[] = { catNames[0], catNames[1], catNames[2], catNames[3], catNames[4], catNames[5], catNames[6], catNames[7] }; ev("\"o\",\"cat\",\"%s\"", catNames[c]); return n[c]; }
#define M(name) ev("\"o\",\"" name "\"")

#define SHAPE(HEAD, LV) switch(s.shape) { \
   case 0: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << O(s.p[0]); break; \
   case 1: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << O(s.p[0]) << O(s.p[1]) << O(s.p[2]); break; \
   case 2: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << LOG_CAT(C(s.cat)) << O(s.p[0]) << O(s.p[1]); break; \
   case 3: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << O(s.p[0]) << (M("hex"), std::hex) << O(s.p[1]) << O(s.p[2]); break; \
   case 4: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << (M("w6"), std::setw(6)) << (M("star"), std::setfill('*')) << O(s.p[1]) << O(s.p[2]); break; \
   case 5: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << O(s.p[0]) << (M("w6"), std::setw(6)) << O(s.p[1]) << (M("pos"), std::showpos) << (M("hex"), std::hex) << O(s.p[2]); break; \
   case 6: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << (M("alpha"), std::boolalpha) << O(s.p[0]) << O(s.p[1]) << (M("w6"), std::setw(6)); break; \
   case 7: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << (M("prec"), std::setprecision(3)) << O(s.p[0]) << (M("pos"), std::showpos) << O(s.p[2]); break; \
   default: ev("\"open\",\"s\",%d,%d", LV, __LINE__); HEAD << LOG_CAT(C(s.cat)) << (M("hex"), std::hex) << O(s.p[0]); break; \
   }

#define BODY { ev("\"body\""); \
      LOGGER << O(s.p[0]); \
      if(s.shape & 1) LOGGER << (M("hex"), std::hex) << O(s.p[1]); \
      if(s.shape & 2) { LOGGER.setTempCategory(C(s.cat)); } \
      for(auto& b: s.body) { run(*b); } \
      if(s.leave == 1) break; \
      if(s.leave == 2) continue; \
      if(s.leave == 3) { return; } \
      if(s.leave == 4) throw Stopped(); \
      if(s.shape & 4) { LOGGER << (M("w6"), std::setw(6)) << O(s.p[2]) << (M("star"), std::setfill('*')); } }

#define OPENB(LV) ev("\"open\",\"b\",%d,%d", LV, __LINE__)
static void block(const Stmt& s) {
   switch(s.head) {
   case 10: OPENB(s.lv); LOG_BLOCK((LOGLEVEL) s.lv) BODY break;
   case 11: OPENB(0); LOG_BLOCK_CRIT BODY break;
   case 12: OPENB(1); LOG_BLOCK_ERR BODY break;
   case 13: OPENB(2); LOG_BLOCK_WARN BODY break;
   case 14: OPENB(3); LOG_BLOCK_INFO BODY break;
   case 15: OPENB(4); LOG_BLOCK_DBG BODY break;
   default: OPENB(5); LOG_BLOCK_TRC BODY break;
   }
}
static void run(const Stmt& s) {
   try {
      switch(s.head) {
      case 0: SHAPE(LOG((LOGLEVEL) s.lv), s.lv) break;
      case 1: SHAPE(LOG_CRIT, 0) break;
      case 2: SHAPE(LOG_ERR, 1) break;
      case 3: SHAPE(LOG_WARN, 2) break;
      case 4: SHAPE(LOG_INFO, 3) break;
      case 5: SHAPE(LOG_DBG, 4) break;
      case 6: SHAPE(LOG_TRC, 5) break;
      default: block(s);
      }
      ev(s.head >= 10 && (s.leave == 1 || s.leave == 3) ? "\"left\"" : "\"end\"");
   }
   catch(Stopped&) { ev("\"abort\""); if(!s.swallow) throw; }
}

// ------------------------------------------------------------------ scripts
static int serial;
static std::shared_ptr<Stmt> statement(int depth, bool fails);
static Piece piece(int depth, bool fails) {
   Piece p; p.n = 0;
   p.s = "p" + std::to_string(++serial); if(rnd(6) == 0) p.s = rnd(2) ? std::string(rnd(5) ? 30 : rnd(4) ? 200 + rnd(900) : 4000 + rnd(9000), 'q') + p.s : "";
   int k = rnd(12);
   p.kind = k < 4 ? TEXT : k < 6 ? NUMBER : k == 6 ? FLAG : k == 7 ? REAL : k == 8 ? CALL : k == 9 ? INSIDE : k == 10 && fails && rnd(2) ? THROW : NUMBER;
   if(rnd(7) == 0) { static const int odd[] = { IMBUE, LOSE, MASK, STATE, STATE, REAL, SNAP }; p.kind = odd[rnd(fails ? 7 : 6)]; }
   if(depth == 0 && (p.kind == CALL || p.kind == INSIDE)) p.kind = TEXT;
   if(p.kind == NUMBER) p.n = rnd(8);
   if(p.kind == FLAG) p.n = rnd(2);
   if(p.kind == CALL || p.kind == INSIDE) { p.sub = statement(depth - 1, fails && p.kind == CALL); }
   // (an ostream swallows the exceptions thrown while it prints only if it is told so: none are thrown there)
   return p;
}
static std::shared_ptr<Stmt> statement(int depth, bool fails) {
   auto s = std::make_shared<Stmt>();
   s->head = rnd(3) ? rnd(7) : 10 + rnd(7);
   s->lv = s->head == 0 || s->head == 10 ? (int) rnd(6) : s->head % 10 - 1;
   s->shape = rnd(9); s->cat = rnd(8);
   s->leave = s->head >= 10 && rnd(3) == 0 ? rnd(fails ? 5 : 4) : 0;
   for(auto& p: s->p) p = piece(depth, fails);
   if(s->head >= 10 && depth > 0 && rnd(2)) s->body.push_back(statement(depth - 1, fails));
   s->swallow = rnd(2);
   return s;
}
// Statements within statements, many levels of them.
static std::shared_ptr<Stmt> chain(int depth) {
   auto s = statement(0, false);
   s->leave = 0; if(s->head < 10 && s->shape == 4) s->shape = 5;
   if(depth == 0) return s;
   auto in = chain(depth - 1);
   if(s->head >= 10 && rnd(2)) s->body.push_back(in);
   else { s->p[0].kind = rnd(2) ? CALL : INSIDE; s->p[0].sub = in; }
   return s;
}
struct Op { int kind; int n; std::shared_ptr<Stmt> s; };
enum { STATEMENT, CATEGORY, GETCAT, GLEVEL, QUIET };
static void perform(const Op& o) {
   switch(o.kind) {
   case STATEMENT: try { run(*o.s); } catch(Stopped&) {} break;
   case CATEGORY: ev("\"category\",\"%s\"", catNames[o.n]); LOG_CATEGORY(catNames[o.n]); break;
   case GETCAT: { std::string c = LOGGER.getCategory(); ev("\"getcat\",\"%s\"", json(c).c_str()); } break;
   case GLEVEL: ev("\"glevel\",%d", o.n); LOGGER.level((LOGLEVEL) o.n); break;
   case QUIET: quiesce(); ev("\"q\""); break;
   }
}
static std::vector<Op> script(int n, bool alone, bool fails) {
   std::vector<Op> r;
   while(n--) {
      Op o; o.n = 0;
      switch(rnd(alone ? 9 : 6)) {
      case 0: o.kind = CATEGORY; o.n = rnd(8); break;
      case 1: o.kind = GETCAT; break;
      case 7: o.kind = GLEVEL; o.n = rnd(6); break;
      case 8: o.kind = QUIET; break;
      default: o.kind = STATEMENT; o.s = rnd(20) == 0 ? chain(5 + rnd(16)) : statement(rnd(6) ? 2 : 4, fails);
      }
      r.push_back(o);
   }
   return r;
}

static void statements(bool alone) {
   serial = 0;
   bool fails = rnd(2);
   std::vector<std::vector<Op>> all;
   int n = alone ? 1 : 2 + rnd(2);
   for(int i = 0; i < n; ++i) all.push_back(script(alone ? 3 + rnd(5) : 1 + rnd(2), alone, fails));
   std::vector<Op> mine = script(1 + rnd(2), alone, fails);
   auto probe = std::make_shared<Probe>();
   LOGGER.addListener(probe);
   int lv = rnd(3) ? 5 : rnd(6);
   ev("\"glevel\",%d", lv); LOGGER.level((LOGLEVEL) lv);
   if(alone) for(auto& o: all[0]) perform(o);
   else {
      std::vector<std::thread> th;
      for(auto& s: all) th.emplace_back([&s] { for(auto& o: s) perform(o); });
      for(auto& o: mine) perform(o);
      for(auto& t: th) t.join();
      // another thread starts afresh
      if(rnd(3) == 0) { std::vector<Op> after = script(1 + rnd(2), false, fails); std::thread t([&after] { perform(Op{ GETCAT, 0, nullptr }); for(auto& o: after) perform(o); }); t.join(); }
   }
   perform(Op{ QUIET, 0, nullptr });
}

// ------------------------------------------------------------------ the filter
struct Lines: std::streambuf {
   std::string cur;
   int overflow(int c) override { if(c == '\n') tell(); else if(c != EOF) cur += (char) c; return c; }
   std::streamsize xsputn(const char* s, std::streamsize n) override { for(std::streamsize i = 0; i < n; ++i) overflow((unsigned char) s[i]); return n; }
   void tell() {
      // which message it is: the number at its end
      size_t p = cur.rfind('#');
      ev("\"out\",%d", p == std::string::npos ? 0 : atoi(cur.c_str() + p + 1));
      cur.clear();
   }
};
static const char* regexes[] = { "", "net", "net.*", "db|net", "(net|db)+", "[a-m]b", ".*io", "net\\d", "(?:net|NET)", "[^n]\\w*", "net.io", "(?!N)\\w.*", "^net$", "(", "[z", "*a", "a{2" };
static void filters(bool together) {
   static Lines buf; static std::ostream out(&buf);
   LOGGER.defaultListener()->writeOn(&out);
   std::atomic<int> id(0);
   auto message = [&](int lv, int cat, int me) {
      ev("\"c\",\"log\",[%d,%d,%d]", me, lv, cat);
      LOGGER.log("f", 1, (LOGLEVEL) lv, catNames[cat], "message #" + std::to_string(me));
      ev("\"r\",[]");
   };
   bool filtered = false;
   std::vector<std::thread> th;
   std::vector<std::pair<int, int>> more; if(together) { int k = 2 + rnd(3); while(k--) more.push_back({ (int) rnd(6), (int) rnd(8) }); }
   if(together) th.emplace_back([&] { for(auto& m: more) message(m.first, m.second, 1000 + ++id); });
   int n = 3 + rnd(8), me = 0;
   while(n--) {
      switch(rnd(10)) {
      case 0: case 1: case 2: {
         int f = rnd(17), lv = rnd(4) ? (int) rnd(6) : -1;
         ev("\"c\",\"filter\",[%d,%d]", f, lv < 0 ? 5 : lv);
         int ok = 1;
         try { if(lv < 0) LOGGER.categoryFilter(regexes[f]); else LOGGER.categoryFilter(regexes[f], (LOGLEVEL) lv); }
         catch(LogSystem::InvalidCategory&) { ok = 0; } catch(...) { ok = -1; }
         ev("\"r\",[%d]", ok);
         if(ok == 1) filtered = true;
         break;
      }
      case 3: case 4: ev("\"c\",\"clear\",[]"); LOGGER.clearFilter(); ev("\"r\",[]"); filtered = false; break;
      case 5:
         // (what is set while a filter is in force is not kept)
         if(!filtered) { int lv = rnd(6); if(rnd(2)) { ev("\"c\",\"glevel\",[%d]", lv); LOGGER.level((LOGLEVEL) lv); } else { ev("\"c\",\"dlevel\",[%d]", lv); LOGGER.defaultListener()->level((LOGLEVEL) lv); } ev("\"r\",[]"); }
         break;
      default: message(rnd(6), rnd(8), ++me);
      }
      if(!together) {
         quiesce(); ev("\"q\"");
         ev("\"c\",\"levels\",[]"); ev("\"r\",[%d,%d]", (int) LOGGER.level(), (int) LOGGER.defaultListener()->level());
      }
   }
   for(auto& t: th) t.join();
   quiesce(); ev("\"q\"");
   ev("\"c\",\"levels\",[]"); ev("\"r\",[%d,%d]", (int) LOGGER.level(), (int) LOGGER.defaultListener()->level());
   // what the logger holds: listeners that were let go are gone after the next message
   LOGGER.level(falcon::LLTRACE);
   ev("\"c\",\"glevel\",[5]"); ev("\"r\",[]");
   message(0, 0, 999); quiesce(); ev("\"q\"");
   LogSystem::Diags d; LOGGER.getDiags(d);
   ev("\"c\",\"listeners\",[]"); ev("\"r\",[%zu]", d.m_pendingListeners + d.m_activeListeners);
}

int main(int argc, char** argv) {
   return weave::main(argc, argv, [](const std::string& n) {
      {
         Quiet q;
         struct L: LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} } l;
         for(auto r: regexes) { try { l.category(r); for(auto c: catNames) l.checkCategory(c); } catch(...) {} }
         comma(); std::ostringstream() << 3.14;
         falcon::LogStreamListener s; s.onMessage(LogSystem::Message("f", 1, falcon::LLINFO, "c", "m"));
      }
      if(n == "alone") statements(true);
      else if(n == "threads") statements(false);
      else filters(n == "filters2");
   });
}
