// Replays behaviours of spec/FutGen.tla: test programs, run by the unit-test framework in a process of their own each.
#include <falcon/fut/fut.h>
#include "trace.h"
#include <expat.h>
#include <iomanip>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
using vt::J; using vt::mismatch;
using falcon::testing::TestCase; using falcon::testing::UnitTest;

// ---------------------------------------------------------------- time: it passes only when a case says so
static long g_ms;
static const long g_epoch = 1700000000;
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = g_epoch + g_ms / 1000; tv->tv_usec = g_ms % 1000 * 1000; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = g_epoch + g_ms / 1000; ts->tv_nsec = g_ms % 1000 * 1000000; return 0; }
extern "C" time_t time(time_t* t) { time_t n = g_epoch + g_ms / 1000; if(t) *t = n; return n; }

static std::string g_xml;
static std::string expand(const std::string& s) {
   static const std::map<std::string, std::string> t{{"n", "\n"}, {"t", "\t"}, {"r", "\r"}, {"1", "\x01"}, {"e", "\xc3\xa9"}, {"u", "\xf0\x9f\x90\xa6"}, {"q", "\""}, {"a", "'"}, {"b", "\\"}, {"27", "\x1b"}, {"w", "\xe4\xb8\xad"},
      {"f", "\xef\xbf\xbf"}, {"g", "\xef\xbf\xbe"}, {"h", "\xef\xbf\xbd"}};
   std::string r;
   for(size_t i = 0; i < s.size(); ++i) {
      size_t e;
      if(s[i] == '{' && (e = s.find('}', i)) != std::string::npos) {
         std::string k = s.substr(i + 1, e - i - 1);
         if(k == "x") r += g_xml;
         else if(t.count(k)) r += t.at(k);
         else if(k[0] == '*') { size_t c = k.find(':'); for(long n = atol(k.c_str() + 1); n > 0; --n) r += k.substr(c + 1); }
         else throw std::logic_error("bad trace: place holder " + k);
         i = e;
      }
      else r += s[i];
   }
   return r;
}
static std::string show(std::string s) {
   std::string r;
   for(unsigned char c: s) { char b[8]; if(c < 32 || c == '"') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char) c; }
   return r.size() > 160 ? r.substr(0, 160) + ".." : r;
}

// ---------------------------------------------------------------- scripted cases
struct Event { int index; std::string phase; long count; };
static std::vector<Event> g_events;
static std::map<std::string, int> g_lines;
static std::map<int, int> g_runs;
static const J* g_cases;
static bool g_done;
#define SITE(name, ...) g_lines[name] = __LINE__; __VA_ARGS__
static void thrower(const std::string& kind) {
   if(kind == "runtime") throw std::runtime_error("a runtime error");
   if(kind == "logic") throw std::logic_error("a logic error");
   if(kind == "int") throw 42;
}
static const J& enter(int index, const char* phase) {
   g_events.push_back({index, phase, 0});
   if(*phase == 'S') ++g_runs[index];
   return (*g_cases)[index - 1][*phase == 'S' ? 2 : *phase == 'B' ? 3 : 4];
}
static double number(const J& a) { return strtod(a.s.c_str(), nullptr); }

// ---------------------------------------------------------------- cases that leave the streams in another state
struct Grouped: std::numpunct<char> {
   char do_decimal_point() const override { return ';'; }
   char do_thousands_sep() const override { return '.'; }
   std::string do_grouping() const override { return "\1"; }
};
static std::stringbuf g_away;
static void unusual(std::ostream& s) {
   s << std::hex << std::showbase << std::scientific << std::setprecision(1) << std::boolalpha << std::unitbuf;
}
static void lost(std::ostream& s, const std::string& how) {
   if(how == "bad") s.setstate(std::ios::badbit);
   else if(how == "fail") s.setstate(std::ios::failbit);
   else if(how == "null") s << (const char*) nullptr;
   else if(how == "away") s.rdbuf(&g_away);
   else if(how == "none") s.rdbuf(nullptr);
   else throw std::logic_error("bad trace: lost " + how);
}
static bool styled(const std::string& k, const J& a) {
   if(k == "fmt") unusual(a[1].s == "out" ? std::cout : std::cerr);
   else if(k == "width") (a[1].s == "out" ? std::cout : std::cerr).width(30);
   else if(k == "lose") lost(a[1].s == "out" ? std::cout : std::cerr, a[2].s);
   else if(k == "punct") (a[1].s == "out" ? std::cout : std::cerr).imbue(std::locale(std::locale::classic(), new Grouped));
   else if(k == "global") std::locale::global(std::locale(std::locale::classic(), new Grouped));
   else return false;
   return true;
}

class Scripted: public TestCase {
   int m_index;
   void step(const J& a) {
      const std::string& k = a[0].s;
      if(k == "first" || k == "later") {
         if((k == "first") == (g_runs[m_index] == 1)) step(a[1]); else g_done = true;
         return;
      }
      const std::string m = a.size() > 1 ? a[1].s : "";
      if(k == "out") std::cout << expand(m);
      else if(k == "err") std::cerr << expand(m);
      else if(k == "outn") std::cout << expand(m) << g_runs[m_index] << ";";
      else if(k == "wait") g_ms += a[1].i;
      else if(k == "now") std::cout << std::to_string(elapsedTimeNow()) << ";";
      else if(k == "took") std::cout << std::to_string(elapsedTime()) << ";";
      else if(styled(k, a)) {}
      else if(k == "int") {
         long want = a[2].i, got = a[3].i;
         if(m == "EQ") { SITE("intEQ", EXPECT_EQ(want, got)) }
         else if(m == "NE") { SITE("intNE", EXPECT_NE(want, got)) }
         else if(m == "GT") { SITE("intGT", EXPECT_GT(want, got)) }
         else if(m == "GE") { SITE("intGE", EXPECT_GE(want, got)) }
         else if(m == "LT") { SITE("intLT", EXPECT_LT(want, got)) }
         else { SITE("intLE", EXPECT_LE(want, got)) }
      }
      else if(k == "str") {
         std::string want = expand(a[2].s), gots = expand(a[3].s);
         const char* got = gots.c_str();
         if(m == "EQ") { SITE("strEQ", EXPECT_STREQ(want, got)) }
         else { SITE("strNE", EXPECT_STRNE(want, got)) }
      }
      else if(k == "flt") {
         double want = number(a[2]), got = number(a[4]);
         if(m == "EQ") { SITE("fltEQ", EXPECT_FLOAT_EQ(want, got)) }
         else { SITE("fltNE", EXPECT_FLOAT_NE(want, got)) }
      }
      else if(k == "bool") {
         bool got = a[2].s == "1";
         if(m == "TRUE") { SITE("boolTRUE", EXPECT_TRUE(got)) }
         else { SITE("boolFALSE", EXPECT_FALSE(got)) }
      }
      else if(k == "thr") {
         const std::string& t = a[2].s;
         if(m == "runtime") { SITE("thrruntime", EXPECT_THROW(thrower(t), std::runtime_error)) }
         else if(m == "logic") { SITE("thrlogic", EXPECT_THROW(thrower(t), std::logic_error)) }
         else { SITE("threxception", EXPECT_THROW(thrower(t), std::exception)) }
      }
      else if(k == "any") { SITE("any", EXPECT_ANY_THROW(thrower(m))) }
      else if(k == "no") { SITE("no", EXPECT_NO_THROW(thrower(m))) }
      else if(k == "fail") { SITE("fail", FAIL(expand(m).c_str())) }
      else if(k == "check") checkFail(expand(m + a[2].s).c_str(), atoi(a[3].s.c_str()), expand(a[4].s).c_str(), expand(a[5].s).c_str());
      else if(k == "direct") fail(expand(m + a[2].s).c_str(), atoi(a[3].s.c_str()), expand(a[4].s).c_str());
      else if(k == "throw") throw std::runtime_error(expand(m));
      else if(k == "throwint") throw 1;
      else throw std::logic_error("bad trace: " + k);
      g_done = true;
   }
   void phase(const char* p) {
      for(const J& a: enter(m_index, p).a) {
         ++g_events.back().count;
         g_done = false;
         step(a);
         if(!g_done) return;      // a check has returned
      }
   }
public:
   explicit Scripted(int index): m_index(index) {}
   void SetUp() override { phase("S"); }
   void test() override { phase("B"); }
   void TearDown() override { phase("T"); }
};

// ---------------------------------------------------------------- cases declared with the macros
static int g_macroIndex(const TestCase* c) {
   for(size_t n = 0; n < g_cases->size(); ++n) if((*g_cases)[n][0].s + "::" + (*g_cases)[n][1].s == c->fullName()) return n + 1;
   throw std::logic_error(std::string("bad trace: macro case ") + c->fullName());
}
#define BODY(phase) \
   int index = g_macroIndex(this); \
   for(const J& a: enter(index, phase).a) { \
      const std::string& k = a[0].s; const std::string m = a.size() > 1 ? a[1].s : ""; \
      ++g_events.back().count; \
      if(k == "out") std::cout << expand(m); \
      else if(k == "err") std::cerr << expand(m); \
      else if(k == "outn") std::cout << expand(m) << g_runs[index] << ";"; \
      else if(k == "wait") g_ms += a[1].i; \
      else if(styled(k, a)) {} \
      else if(k == "bool" && m == "TRUE") { bool got = a[2].s == "1"; SITE("boolTRUE", EXPECT_TRUE(got)) } \
      else if(k == "int" && m == "GE") { long want = a[2].i, got = a[3].i; SITE("intGE", EXPECT_GE(want, got)) } \
      else if(k == "no") { SITE("no", EXPECT_NO_THROW(thrower(m))) } \
      else if(k == "fail") { SITE("fail", FAIL(expand(m).c_str())) } \
      else if(k == "throw") throw std::runtime_error(expand(m)); \
      else if(k == "throwint") throw 1; \
      else throw std::logic_error("bad trace: macro " + k); \
   }
// In one line, so that a check has the same position wherever it is; in the order of registration.
#define DECLARE \
   class Fixture: public TestCase { \
   public: \
      int m_value; \
      Fixture(): m_value(0) {} \
      void SetUp() override { m_value += 10; BODY("S") } \
      void TearDown() override { m_value -= 10; BODY("T") } \
   }; \
   TEST_F(Fixture, second) { if(m_value != 10) std::cout << "another instance's data " << m_value; m_value = 10; BODY("B") } \
   TEST(Plain, a) { enter(g_macroIndex(this), "S"); BODY("B") } \
   TEST_F(Fixture, first) { if(m_value != 10) std::cout << "another instance's data " << m_value; m_value = 10; BODY("B") } \
   TEST(Another, z) { enter(g_macroIndex(this), "S"); BODY("B") } \
   TEST(Plain, b) { enter(g_macroIndex(this), "S"); BODY("B") }
DECLARE

// ---------------------------------------------------------------- comparing
static bool skipped(char c) { return c == '=' || isspace((unsigned char) c); }
static std::string resolve(std::string s) {
   size_t a = 0, b;
   while((a = s.find('@', a)) != std::string::npos && (b = s.find('@', a + 1)) != std::string::npos) {
      auto it = g_lines.find(s.substr(a + 1, b - a - 1));
      std::string l = it == g_lines.end() ? "?" : std::to_string(it->second);
      s.replace(a, b - a + 1, l);
      a += l.size();
   }
   return s;
}
static void sameTime(const std::string& what, const std::string& got, long ms) {
   if(!vt::watch('t')) return;
   char* end;
   double t = strtod(got.c_str(), &end);
   if(got.empty() || *end || fabs(t - ms / 1000.0) > 0.0006 + 0.0055 * ms / 1000.0) mismatch(what + " is \"" + show(got) + "\" seconds, should be " + std::to_string(ms) + " ms");
}
// Only the times are looked at: what else is wrong is for others to say.
struct NotTimes {};
static void wrong(char kind, const std::string& m) { if(vt::watch(kind)) mismatch(m); throw NotTimes(); }
// The text is the pieces, blank space and rules aside.
static void matchText(const char* what, const std::string& got, const J& pieces) {
   size_t at = 0;
   auto skip = [&]{ while(at < got.size() && skipped(got[at])) ++at; };
   for(const J& p: pieces.a) {
      if(p[0].s == "#") {
         skip();
         size_t from = at;
         while(at < got.size() && (isdigit((unsigned char) got[at]) || strchr("-+.e", got[at]))) ++at;
         if(at == from) wrong('o', std::string(what) + ": no time before \"" + show(got.substr(at)) + "\"");
         if(!p[1].s.empty()) sameTime(std::string(what) + ": the time in \"" + show(got.substr(from > 60 ? from - 60 : 0, 100)) + "\"", got.substr(from, at - from), atol(p[1].s.c_str()));
         if(at < got.size() && got[at] == 's') ++at;
         continue;
      }
      std::string t = expand(p[1].s);
      if(p[0].s == "name") t = t.substr(0, 50);
      else t = resolve(t);
      for(char c: t) {
         if(skipped(c)) continue;
         skip();
         if(at >= got.size() || got[at] != c)
            wrong('o', std::string(what) + " has \"" + show(got.substr(at)) + "\" where \"" + show(t) + "\" should be; the whole is \"" + show(got) + "\"");
         ++at;
      }
   }
   skip();
   if(at < got.size()) wrong('o', std::string(what) + " goes on with \"" + show(got.substr(at)) + "\"");
}
static std::string clean(const std::string& s) {     // control characters and U+FFFE, U+FFFF have no place in XML; they may be replaced
   std::string r;
   for(size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if(s.compare(i, 2, "\xef\xbf") == 0 && i + 2 < s.size() && (unsigned char) s[i + 2] >= 0xbd) i += 2;
      else if((c >= 32 || c == '\t' || c == '\n' || c == '\r') && c != '?') r += (char) c;
   }
   return r;
}
struct Element { std::string name, text; std::map<std::string, std::string> attr; std::vector<std::unique_ptr<Element>> sub; };
struct Parsing { Element root; std::vector<Element*> open; };
static void xmlStart(void* d, const XML_Char* n, const XML_Char** a) {
   auto* p = (Parsing*) d;
   p->open.back()->sub.emplace_back(new Element);
   Element* e = p->open.back()->sub.back().get();
   e->name = n;
   for(; *a; a += 2) e->attr[a[0]] = a[1];
   p->open.push_back(e);
}
static void xmlEnd(void* d, const XML_Char*) { ((Parsing*) d)->open.pop_back(); }
static void xmlText(void* d, const XML_Char* s, int n) { ((Parsing*) d)->open.back()->text.append(s, n); }
static void sameAttr(const Element& e, const char* a, const std::string& want) {
   auto it = e.attr.find(a);
   if(it == e.attr.end()) wrong('x', "XML report: <" + e.name + "> without " + a);
   if(clean(it->second) != clean(want)) wrong('x', "XML report: " + std::string(a) + " of <" + e.name + "> is \"" + show(it->second) + "\", should be \"" + show(want) + "\"");
}
static void timeAttr(const Element& e, long ms) {
   auto it = e.attr.find("time");
   sameTime("XML report: time of <" + e.name + " " + show(e.attr.count("name") ? e.attr.at("name") : "") + ">", it == e.attr.end() ? "" : it->second, ms);
}
static void oneMore(const Element& e, size_t n, const char* what) {
   if(n >= e.sub.size() || e.sub[n]->name != what) wrong('x', "XML report: <" + e.name + " " + show(e.attr.count("name") ? e.attr.at("name") : "") + "> lacks its <" + what + "> number " + std::to_string(n + 1));
}
static void noMore(const Element& e, size_t n) {
   if(e.sub.size() > n) wrong('x', "XML report: <" + e.name + " " + show(e.attr.count("name") ? e.attr.at("name") : "") + "> has one <" + e.sub[n]->name + "> more than it should");
}
static void matchXml(const std::string& text, const J& want) {
   Parsing p;
   p.open.push_back(&p.root);
   XML_Parser x = XML_ParserCreate(nullptr);
   XML_SetUserData(x, &p);
   XML_SetElementHandler(x, xmlStart, xmlEnd);
   XML_SetCharacterDataHandler(x, xmlText);
   if(XML_Parse(x, text.data(), text.size(), 1) != XML_STATUS_OK)
      wrong('x', std::string("XML report is not well-formed: ") + XML_ErrorString(XML_GetErrorCode(x)) + " in line " + std::to_string(XML_GetCurrentLineNumber(x)) + " near \"" +
               show(text.substr(std::max(0L, (long) XML_GetCurrentByteIndex(x) - 20), 60)) + "\"");
   XML_ParserFree(x);
   if(p.root.sub.size() != 1 || p.root.sub[0]->name != "testsuites") wrong('x', "XML report: no <testsuites>");
   Element& top = *p.root.sub[0];
   sameAttr(top, "id", expand(want[0].s));
   sameAttr(top, "name", expand(want[1].s));
   sameAttr(top, "tests", std::to_string(want[2].i));
   sameAttr(top, "failures", std::to_string(want[3].i));
   timeAttr(top, want[5].i);
   size_t n = 0;
   for(const J& c: want[4].a) {
      oneMore(top, n, "testsuite");
      Element& suite = *top.sub[n++];
      sameAttr(suite, "id", expand(c[0].s));
      sameAttr(suite, "name", expand(c[1].s));
      sameAttr(suite, "tests", std::to_string(c[2].i));
      sameAttr(suite, "failures", std::to_string(c[3].i));
      timeAttr(suite, c[5].i);
      size_t m = 0;
      for(const J& t: c[4].a) {
         oneMore(suite, m, "testcase");
         Element& tc = *suite.sub[m++];
         sameAttr(tc, "id", expand(t[0].s));
         sameAttr(tc, "name", expand(t[1].s));
         timeAttr(tc, t[6].i);
         if(t[2].s == "SUCCESS") { noMore(tc, 0); continue; }
         oneMore(tc, 0, "failure");
         noMore(tc, 1);
         Element& f = *tc.sub[0];
         sameAttr(f, "message", expand(t[3].s));
         if(!f.attr.count("type") || f.attr["type"].empty()) wrong('x', "XML report: <failure> of " + show(expand(t[1].s)) + " without type");
         std::string got = clean(f.text), line = resolve(t[5].s);
         size_t at = got.find(clean(expand(t[3].s)));
         if(at == std::string::npos) wrong('x', "XML report: failure text \"" + show(f.text) + "\" lacks \"" + show(expand(t[3].s)) + "\"");
         if(t[4].s != "*") {
            if(got.find("File: " + clean(expand(t[4].s)) + "\n", at) == std::string::npos) wrong('x', "XML report: failure text \"" + show(f.text) + "\" lacks the file " + show(expand(t[4].s)));
            if(got.find("Line: " + line + "\n", at) == std::string::npos) wrong('x', "XML report: failure text \"" + show(f.text) + "\" lacks the line " + line);
         }
      }
      noMore(suite, m);
   }
   noMore(top, n);
}
static std::string contents(int fd) {
   std::string r; char b[4096]; ssize_t n; off_t at = 0;
   while((n = pread(fd, b, sizeof b, at)) > 0) { r.append(b, n); at += n; }
   return r;
}

static const char* statusName(TestCase::t_status s) {
   switch(s) {
   case TestCase::NONE: return "NONE"; case TestCase::SUCCESS: return "SUCCESS"; case TestCase::FAIL: return "FAIL";
   case TestCase::ERROR: return "ERROR"; case TestCase::OUT_ON_ERROR_STREAM: return "STREAM-ERROR";
   }
   return "?";
}

extern "C" int __real_main(int argc, char* argv[]);
// ---------------------------------------------------------------- one program, in a process of its own
static void perform(const J& in, const J& want, int fdOut, int fdErr) {
   const std::string& mode = in[0].s;
   g_cases = &in[3];
   std::vector<TestCase*> cases;
   UnitTest* ut = mode == "macro" ? UnitTest::singleton() : new UnitTest;
   if(mode == "macro") {
      TestCase* all[] = {TestCase_Fixture_c_second::_instance_, TestCase_Plain_c_a::_instance_, TestCase_Fixture_c_first::_instance_, TestCase_Another_c_z::_instance_, TestCase_Plain_c_b::_instance_};
      cases.assign(all, all + 5);
   }
   else for(size_t n = 0; n < g_cases->size(); ++n) {
      const J& c = (*g_cases)[n];
      std::string comp = expand(c[0].s), name = expand(c[1].s);
      cases.push_back(ut->addTestCase(comp.c_str(), name.c_str(), new Scripted(n + 1)));
   }
   std::vector<std::string> args{expand(in[1].s)}, singles;
   const J& given = in[2];
   for(size_t n = 0; n < given.size(); ++n) {
      std::string a = expand(given[n].s);
      if(mode != "main" && mode != "macro" && a == "-t") singles.push_back(expand(given[++n].s));
      else args.push_back(a);
   }
   std::vector<char*> argv;
   for(auto& a: args) argv.push_back(&a[0]);
   argv.push_back(nullptr);
   std::vector<std::string> codes;
   auto* outbuf = std::cout.rdbuf(); auto* errbuf = std::cerr.rdbuf();
   if(mode == "macro") codes.push_back(__real_main(args.size(), argv.data()) % 256 == 0 ? "ok" : "failed");
   else if(mode == "main") codes.push_back(ut->main(args.size(), argv.data()) % 256 == 0 ? "ok" : "failed");
   else {
      ut->detectTestName(argv[0]);
      if(ut->parseParams(args.size() - 1, argv.data() + 1) != 0) codes.push_back("failed");
      else {
         for(auto& s: singles) codes.push_back(ut->performTest(s.c_str()) == 0 ? "ok" : "failed");
         if(mode == "both") codes.push_back(ut->performUnitTests() == 0 ? "ok" : "failed");
      }
   }
   if(std::cout.rdbuf() != outbuf || std::cerr.rdbuf() != errbuf) mismatch("the program's streams are not its own again");
   std::cout << std::flush; std::cerr << std::flush;
   bool bad = !want.at("bad").s.empty();
   if(vt::watch('v') || vt::watch('e')) {
      const J& w = want.at("codes");
      if(codes.size() != w.size()) throw std::logic_error("bad trace: codes");
      for(size_t n = 0; n < codes.size(); ++n)
         if(codes[n] != w[n].s) mismatch("the run reports " + std::string(codes[n] == "ok" ? "success" : "a failure") + " (run " + std::to_string(n + 1) + ")");
   }
   if(vt::watch('e')) {
      const J& w = want.at("evs");
      static const std::map<std::string, std::string> nm{{"S", "set-up"}, {"B", "body"}, {"T", "tear-down"}};
      bool macro = mode == "macro";
      size_t n = 0;
      for(const J& e: w.a) {
         std::string should = nm.at(e[1].s) + " of case " + std::to_string(e[0].i);
         // cases without fixture have no tear-down of their own to report
         if(macro && e[1].s == "T" && (*g_cases)[e[0].i - 1][0].s != "Fixture") continue;
         if(n >= g_events.size()) mismatch("the " + should + " has not run");
         const Event& g = g_events[n++];
         if(g.index != e[0].i || g.phase != e[1].s) mismatch("the " + nm.at(g.phase) + " of case " + std::to_string(g.index) + " ran when the " + should + " should have");
         if(g.count != e[2].i) mismatch("the " + should + ": " + std::to_string(g.count) + " actions executed, should be " + std::to_string(e[2].i));
      }
      if(n < g_events.size()) mismatch("the " + nm.at(g_events[n].phase) + " of case " + std::to_string(g_events[n].index) + " ran once too often");
   }
   if(vt::watch('t') && !bad) for(const J& v: want.at("verdicts").a) {
      long last = 0;
      for(const J& w: want.at("verdicts").a) if(w[0].i == v[0].i) last = w[5].i;
      long got = cases[v[0].i - 1]->elapsedTime();
      if(got != last) mismatch("case " + std::to_string(v[0].i) + ": its elapsed time is " + std::to_string(got) + " ms, should be " + std::to_string(last));
   }
   if(vt::watch('v') && !bad) for(size_t at = 0; at < want.at("verdicts").size(); ++at) {
      const J& v = want.at("verdicts")[at];
      bool again = false;     // its last run counts
      for(size_t n = at + 1; n < want.at("verdicts").size(); ++n) again |= want.at("verdicts")[n][0].i == v[0].i;
      if(again) continue;
      TestCase* c = cases[v[0].i - 1];
      std::string who = "case " + std::to_string(v[0].i) + ": ", line = resolve(v[4].s);
      if(statusName(c->status()) != v[1].s) mismatch(who + "its status is " + statusName(c->status()) + ", should be " + v[1].s);
      if(c->failDesc() != resolve(expand(v[2].s))) mismatch(who + "its failure is described as \"" + show(c->failDesc()) + "\", should be \"" + show(expand(v[2].s)) + "\"");
      if(v[3].s != "*" && (c->failFile() != expand(v[3].s) || std::to_string(c->failLine()) != line))
         mismatch(who + "its failure is at " + show(c->failFile()) + ":" + std::to_string(c->failLine()) + ", should be at " + show(expand(v[3].s)) + ":" + line);
   }
   if(vt::watch('o') || vt::watch('t')) try {
      std::string o = contents(fdOut), e = contents(fdErr);
      if(!bad) {
         matchText("standard output", o, want.at("out"));
         matchText("standard error", e, want.at("err"));
         if(want.at("v").i == 0 && want.at("cap").i && !o.empty()) wrong('o', "silent, but writes \"" + show(o) + "\"");
      }
      else if(o.empty() && e.empty()) wrong('o', "options refused without a word");
   }
   catch(const NotTimes&) {}
   if(vt::watch('x') || vt::watch('t')) try {
      struct stat st;
      bool there = stat(g_xml.c_str(), &st) == 0;
      if(there != (want.at("xml").size() > 0)) wrong('x', there ? "an XML report that was not asked for" : "no XML report");
      if(there) { std::ifstream in(g_xml); std::stringstream ss; ss << in.rdbuf(); matchXml(ss.str(), want.at("xml")); }
   }
   catch(const NotTimes&) {}
}

static size_t replay(const J& tr) {
   const J& want = tr[2][0];
   g_xml = "fut-" + std::to_string(getpid()) + ".xml";
   unlink(g_xml.c_str());
   int fdOut = memfd_create("out", 0), fdErr = memfd_create("err", 0), fdRes = memfd_create("res", 0);
   fflush(stdout);
   pid_t pid = fork();
   if(pid == 0) {
      alarm(20);
      dup2(fdOut, 1); dup2(fdErr, 2);
      std::string m;
      try { perform(tr[1], want, fdOut, fdErr); }
      catch(const vt::Mismatch& x) { m = std::string("M") + x.what(); }
      catch(const std::logic_error& x) { m = std::string("B") + x.what(); }
      catch(const std::exception& x) { m = std::string("Mthe run ends with an exception: ") + x.what(); }
      catch(...) { m = "Mthe run ends with an exception"; }
      if(write(fdRes, m.data(), m.size()) < 0) _exit(3);
      _exit(m.empty() ? 0 : 2);
   }
   int status = 0;
   while(waitpid(pid, &status, 0) < 0) {}
   std::string m = contents(fdRes), e = contents(fdErr);
   close(fdOut); close(fdErr); close(fdRes);
   unlink(g_xml.c_str());
   if(!m.empty()) { if(m[0] == 'B') throw std::logic_error("bad trace: " + m.substr(1)); mismatch(m.substr(1)); }
   if(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) mismatch("the run does not end");
   if(!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
      size_t at = e.find("ERROR: AddressSanitizer"); if(at == std::string::npos) at = e.find("runtime error");
      mismatch("the program crashes: " + show(e.substr(at == std::string::npos ? 0 : at)));
   }
   return want.at("evs").size() + 1;
}
// linked with --wrap=main: the main() of the framework is the real one
extern "C" int __wrap_main(int argc, char** argv) { return vt::replay(argc, argv, replay); }
