// The logging service and its listeners, run under weave.
#include "weave/weave.h"
#include <falcon/logsystem.h>
#include <falcon/logstream.h>
#include <thread>
#include <vector>
#include <iomanip>
#include <locale>
#include <memory>
#include <string>
#include <cstdarg>
#include <cstring>
#include <ctime>
using namespace weave;
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;

static void ev(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char* f, ...) { char b[20000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); event(b); }
static uint32_t rnd(uint32_t n) { return script_random(n); }

static const char* cats[] = { "", "net", "net.io", "db", "netdb", "NET", "net7", " net" };
static const char* regexes[] = { "", "net", "net.*", "db|net", "(net|db)+", "[a-m]b", ".*io", "net\\d", "(?:net|NET)", "[^n]\\w*", "net.io", "(?!N)\\w.*", "^net$", "(", "[z", "*a", "a{2" };
enum { NCAT = 8, NREGEX = 17, MAXMSG = 7000, MAXL = 24 };

// ------------------------------------------------------------------ messages
struct Msg { int level, cat; };
static Msg msgs[MAXMSG]; static int nmsgs;
static std::string file_of(int id) { return id % 4 == 1 ? "/a/b/f" + std::to_string(id) + ".cpp" : id % 17 == 4 ? std::string(300 + id, 'd') + "/" + std::string(5000, 'f') : id % 17 == 8 ? "" : "f" + std::to_string(id); }
static int line_of(int id) { return id % 13 == 6 ? 2147483647 - id : id % 13 == 9 ? -id : id % 13 == 11 ? 0 : 10 + id * 7; }
static std::string text_of(int id) { std::string s = "text " + std::to_string(id); if(id % 3 == 0) s += std::string(20 + id % 40, 'a' + id % 26);
   // some are long, or of any bytes
   if(id % 19 == 5) s += std::string(id % 38 == 5 ? 70000 + id : 9000 + id, 'A' + id % 26);
   if(id % 11 == 3) { s += ' '; s += '\0'; s += "\n%s\x80\xff\t"; s += (char) id; s += std::string(3, '\0'); }
   return s; }
static int id_of(const std::string& s) { int id = 0; return sscanf(s.c_str(), "text %d", &id) == 1 && id > 0 && id < MAXMSG ? id : 0; }
static int message(int level, int cat) { msgs[++nmsgs] = { level, cat }; return nmsgs; }
static int message() { return message(rnd(6), rnd(3) ? 1 + rnd(NCAT - 1) : 0); }

// ------------------------------------------------------------------ the service
struct Probe;
static LogSystem* sys;
static bool closing;
static thread_local bool dropping;
static Probe* probe[MAXL];
static std::shared_ptr<LogSystem::Listener> held[MAXL];
static int nprobes;
static void send(int id, bool direct);

struct Op { std::string n; int a{0}, b{0}; };
using Script = std::vector<Op>;
static void call(const Op& o);
// HANDY: makes calls itself, of the service and of listeners; LASTWORDS: when it goes away, too
enum Kind { PLAIN, ECHO, ENDLESS, ONCE, LASTWORDS, HANDY };
static int spare;                    // the listener they add
struct Probe: LogSystem::Listener {
   std::vector<Script> acts;
   int no; Kind kind; int left; int reply;      // reply: first of the messages sent by itself
   Probe(int n, Kind k): no(n), kind(k), left(0), reply(0) {}
   void onMessage(const LogSystem::Message& m) override {
      int id = id_of(m.m_message);
      bool ok = id && m.m_message == text_of(id) && m.m_file == file_of(id) && m.m_line == line_of(id)
         && (int) m.m_level == msgs[id].level && m.m_category == cats[msgs[id].cat];
      ev("\"d\",%d,%d,%d", no, id, (int) ok);
      point();
      if(kind == ECHO && left > 0) { --left; send(reply++, false); }
      if(kind == HANDY && !acts.empty()) { Script now = acts.back(); acts.pop_back(); for(auto& o: now) call(o); }
      if(kind == ENDLESS) send(reply, false);
      if(kind == ONCE) { ev("\"c\",\"detach\",[%d]", no); detach(); ev("\"r\",[]"); }
      ok = ok && m.m_message == text_of(id) && m.m_file == file_of(id) && m.m_line == line_of(id) && m.m_category == cats[msgs[id].cat];
      ev("\"x\",%d,%d,%d", no, id, (int) ok);
   }
   ~Probe() {
      if(kind == LASTWORDS && !closing && !dropping) { send(reply, false); for(auto& s: acts) for(auto& o: s) call(o); }
      ev("\"gone\",%d", no);
   }
};

static void send(int id, bool direct) {
   std::string f = file_of(id), t = text_of(id), c = cats[msgs[id].cat];
   int l = line_of(id);
   LEVEL v = (LEVEL) msgs[id].level;
   ev("\"c\",\"%s\",[%d,%d,%d]", direct ? "give" : "log", id, msgs[id].level, msgs[id].cat);
   if(direct) sys->log(new LogSystem::Message(f, l, v, c, t)); else sys->log(f, l, v, c, t);
   ev("\"r\",[]");
}

static void call(const Op& o) {
   const std::string& n = o.n;
   Probe* p = o.a < MAXL ? probe[o.a] : nullptr;
   if(n == "log") send(o.a, false);
   else if(n == "give") send(o.a, true);
   else if(n == "glevel") { ev("\"c\",\"glevel\",[%d]", o.a); sys->level((LEVEL) o.a); ev("\"r\",[]"); }
   else if(n == "getglevel") { ev("\"c\",\"getglevel\",[]"); int v = sys->level(); ev("\"r\",[%d]", v); }
   else if(n == "add") { ev("\"c\",\"add\",[%d]", o.a); sys->addListener(held[o.a]); ev("\"r\",[]"); }
   else if(n == "drop") { ev("\"c\",\"drop\",[%d]", o.a); dropping = true; held[o.a].reset(); dropping = false; ev("\"r\",[]"); }
   else if(n == "detach") { ev("\"c\",\"detach\",[%d]", o.a); p->detach(); ev("\"r\",[]"); }
   else if(n == "isdet") { ev("\"c\",\"isdet\",[%d]", o.a); int v = p->isDetached(); ev("\"r\",[%d]", v); }
   else if(n == "enable") { ev("\"c\",\"enable\",[%d,%d]", o.a, o.b); p->enable(o.b); ev("\"r\",[]"); }
   else if(n == "isenabled") { ev("\"c\",\"isenabled\",[%d]", o.a); int v = p->isEnabled(); ev("\"r\",[%d]", v); }
   else if(n == "level") { ev("\"c\",\"level\",[%d,%d]", o.a, o.b); p->level((LEVEL) o.b); ev("\"r\",[]"); }
   else if(n == "getlevel") { ev("\"c\",\"getlevel\",[%d]", o.a); int v = p->level(); ev("\"r\",[%d]", v); }
   else if(n == "cat") {
      std::string re = regexes[o.b];
      ev("\"c\",\"cat\",[%d,%d]", o.a, o.b);
      int v = 1;
      try { p->category(re); }
      catch(LogSystem::InvalidCategory&) { v = 0; }
      catch(...) { v = -1; }
      ev("\"r\",[%d]", v);
   }
   else if(n == "getcat") {
      ev("\"c\",\"getcat\",[%d]", o.a);
      std::string s = p->category();
      int v = -1; for(int i = 0; i < NREGEX; ++i) if(s == regexes[i]) v = i;
      ev("\"r\",[%d]", v);
   }
   else if(n == "start") { ev("\"c\",\"start\",[]"); sys->start(); ev("\"r\",[]"); }
   else if(n == "stop") { ev("\"c\",\"stop\",[]"); sys->stop(); ev("\"r\",[]"); }
   else if(n == "diags" || n == "anydiags") {
      ev("\"c\",\"%s\",[]", n.c_str());
      LogSystem::Diags d; sys->getDiags(d);
      if(n == "diags") ev("\"r\",[%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu]", d.m_poolSize, d.m_maxMsgQueueSize, d.m_msgReceived, d.m_msgsCreated, d.m_msgsDiscarded,
         d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners);
      else ev("\"r\",[]");
   }
   else if(n == "uses") { ev("\"c\",\"uses\",[%d]", o.a); int v = held[o.a].use_count(); ev("\"r\",[%d]", v); }
   else if(n == "quiet") { quiesce(); ev("\"q\""); }
   else abort();
}

static void make(int n, Kind k) {
   held[n] = std::make_shared<Probe>(n, k);
   probe[n] = static_cast<Probe*>(held[n].get());
}
static void phase(const std::vector<Script>& ss, const Script& mine = {}) {
   std::vector<std::thread> th;
   for(auto& s: ss) th.emplace_back([&s] { for(auto& o: s) call(o); });
   for(auto& o: mine) call(o);
   for(auto& t: th) t.join();
}
static void quiet(bool diags) { call({ "quiet" }); if(diags) call({ "diags" }); for(int i = 1; i <= std::max(nprobes, spare); ++i) if(held[i]) call({ "uses", i }); }
// Settings of a listener before it is used.
static void settle(int i) {
   if(rnd(4) == 0) call({ "level", i, (int) rnd(6) });
   if(rnd(3) == 0) call({ "cat", i, (int) rnd(NREGEX) });
   if(rnd(8) == 0) call({ "enable", i, 0 });
}

static Op setting(int l, bool reads) {
   switch(rnd(reads ? 8 : 4)) {
   case 0: return { "level", l, (int) rnd(6) };
   case 1: return { "enable", l, (int) rnd(2) };
   case 2: case 3: return { "cat", l, (int) rnd(NREGEX) };
   case 4: return { "getlevel", l };
   case 5: return { "isenabled", l };
   case 6: return { "getcat", l };
   default: return { "isdet", l };
   }
}

static void service(const std::string& kind) {
   bool now = rnd(3) != 0;
   closing = false;
   nprobes = kind == "tiny" ? rnd(2) : 1 + rnd(3);
   nmsgs = 0;
   if(kind == "pool") now = rnd(2);
   bool big = kind == "burst" && rnd(4) == 0;        // more than a thousand messages
   if(kind == "many") nprobes = rnd(8) == 0 ? 8 + rnd(MAXL - 8) : 1 + rnd(7);
   if(kind == "burst") { long_run(); nprobes = big ? 1 + rnd(2) : rnd(6) == 0 ? 17 + rnd(4) : 1 + rnd(7); }
   spare = 0;
   // messages of the listeners themselves come first
   Kind kinds[MAXL] = { PLAIN }; int first[MAXL] = { 0 }, left[MAXL] = { 0 };
   for(int i = 1; i <= nprobes; ++i) {
      kinds[i] = PLAIN;
      int x = rnd(10);
      if(kind == "service" && i == 1 && x < 3) kinds[i] = ENDLESS;
      else if(i == 1 && kind != "tiny" && kind != "burst" && (kind == "all" || kind == "attach" ? x >= 4 && x < 7 : x == (kind == "many" ? 7 : 8) || (x == 7 && kind == "service"))) kinds[i] = HANDY;
      else if(kind == "order" || kind == "service") { if(x == 9 && i == 1) kinds[i] = ECHO; }
      else if(kind == "many") kinds[i] = x == 9 ? ONCE : x == 8 && i == 1 ? ECHO : PLAIN;
      else if(kind == "attach") kinds[i] = x == 9 ? ONCE : x == 8 ? LASTWORDS : x == 7 && i == 1 ? ECHO : PLAIN;
      if(kinds[i] == ECHO) { left[i] = 1 + rnd(2); for(int k = 0; k < left[i]; ++k) { int id = message(rnd(3), 0); if(!k) first[i] = id; } }
      else if(kinds[i] == ENDLESS || kinds[i] == LASTWORDS) first[i] = message(0, 0);
   }
   bool endless = kinds[1] == ENDLESS;
   std::vector<Script> acts[MAXL];
   for(int i = 1; i <= nprobes && i < MAXL - 1; ++i) if(kinds[i] == HANDY || (kinds[i] == LASTWORDS && rnd(2))) {
      bool adds = !spare && rnd(4) != 0;
      if(adds) spare = nprobes + 1;
      int k = 1 + rnd(3);
      while(k--) {
         Script a; int m = 1 + rnd(2);
         while(m--) switch(rnd(7)) {
            case 0: case 6: a.push_back({ "anydiags" }); break;
            case 1: a.push_back(rnd(2) ? Op{ "glevel", 2 + (int) rnd(4) } : Op{ "getglevel" }); break;
            case 2: a.push_back({ "log", message(rnd(3), 0) }); break;
            case 3: if(spare && kinds[i] == HANDY) { a.push_back(rnd(4) ? setting(spare, true) : Op{ "detach", spare }); break; } // fall through
            default: if(kinds[i] == HANDY) a.push_back(setting(i, true));
         }
         if(adds && rnd(2)) { a.insert(a.begin() + rnd(a.size() + 1), Op{ "add", spare }); adds = false; }
         acts[i].push_back(a);
      }
   }
   long before = live_blocks();
   ev("\"i\",%d,%d", (int) now, (int) LogSystem::MESSAGE_POOL_THRESHOLD);
   for(int i = 1; i <= nprobes; ++i) { make(i, kinds[i]); probe[i]->reply = first[i]; probe[i]->left = left[i]; probe[i]->acts = acts[i]; }
   if(spare) make(spare, PLAIN);
   sys = new LogSystem(now);
   if(kind == "order" || kind == "filter" || kind == "service" || kind == "pool" || kind == "all" || kind == "burst")
      for(int i = 1; i <= nprobes; ++i) { if(!endless) settle(i); call({ "add", i }); }
   auto logs = [](int n) { Script s; while(n--) { Op o; o.n = rnd(12) ? "log" : "give"; o.a = message(); s.push_back(o); } return s; };

   if(kind == "order") {
      int ph = 1 + rnd(2);
      while(ph--) {
         int n = 2 + rnd(2); std::vector<Script> ss;
         while(n--) ss.push_back(logs(1 + rnd(3)));
         phase(ss, logs(rnd(2)));
         if(!now) { call({ "start" }); now = true; }
         quiet(false);
      }
   }
   else if(kind == "filter") {
      if(!now) call({ "start" });
      int k = 2 + rnd(4);
      while(k--) {
         bool conc = rnd(4) == 0;
         Script mine;
         int m = 1 + rnd(3);
         while(m--) mine.push_back(rnd(5) == 0 ? (rnd(2) ? Op{ "glevel", (int) rnd(6) } : Op{ "getglevel" }) : setting(1 + rnd(nprobes), true));
         if(conc) { std::vector<Script> ss; ss.push_back(logs(1 + rnd(3))); if(rnd(2)) ss.push_back({ setting(1 + rnd(nprobes), true), setting(1 + rnd(nprobes), true) }); phase(ss, mine); }
         else { for(auto& o: mine) call(o); for(auto& o: logs(1 + rnd(3))) call(o); }
         quiet(false);
         if(rnd(2)) { call({ "getlevel", 1 }); call({ "getcat", 1 }); call({ "isenabled", 1 }); }
      }
   }
   else if(kind == "attach") {
      std::vector<int> st(MAXL, 0);       // 0 new, 1 added, 2 detached, 3 dropped
      int k = 2 + rnd(4);
      if(rnd(2)) { call({ "add", 1 }); st[1] = 1; }
      while(k--) {
         // each listener is handled by one thread at a time
         std::vector<Script> ss(2);
         for(int i = 1; i <= nprobes; ++i) {
            Script& s = ss[rnd(2)];
            int m = rnd(3);
            while(m--) {
               if(st[i] == 0 && rnd(2)) { s.push_back({ "add", i }); st[i] = 1; }
               else if(st[i] == 1) switch(rnd(5)) { case 0: s.push_back({ "detach", i }); st[i] = 2; break; case 1: s.push_back({ "enable", i, (int) rnd(2) }); break;
                  case 2: s.push_back({ "isdet", i }); break;
                  case 3: if(kinds[i] != LASTWORDS) { s.push_back({ "drop", i }); st[i] = 3; } break;
                  default: s.push_back({ "isenabled", i }); }
               else if(st[i] == 2 && rnd(2)) { s.push_back({ "drop", i }); st[i] = 3; }
            }
         }
         Script extra = logs(rnd(3)); for(auto& o: extra) { Script& s = ss[rnd(2)]; s.insert(s.begin() + rnd(s.size() + 1), o); }
         if(rnd(2)) phase(ss, logs(rnd(2))); else { for(auto& s: ss) for(auto& o: s) call(o); }
         if(!now && rnd(2)) { call({ "start" }); now = true; }
         if(rnd(2)) quiet(true);
      }
      if(!now) call({ "start" });
      for(auto& o: logs(1)) call(o);
      quiet(true);
   }
   else if(kind == "service") {
      int k = 1 + rnd(3);
      if(endless) { if(!now) call({ "start" }); for(auto& o: logs(1)) call(o); call({ "stop" }); for(auto& o: logs(rnd(2))) call(o); if(rnd(2)) { call({ "start" }); call({ "stop" }); } }
      else if(rnd(8) == 0) {
         // again and again
         for(k = 4 + rnd(20); k--; ) {
            call({ rnd(2) ? "start" : "stop" });
            for(auto& o: logs(rnd(3))) call(o);
            if(rnd(2)) { call({ rnd(2) ? "start" : "stop" }); if(rnd(2)) quiet(true); }
         }
         quiet(true);
      }
      else if(rnd(8) == 0) {
         // while many messages wait
         for(k = 1 + rnd(2); k--; ) {
            Script all = logs(5 + rnd(30));
            all.insert(all.begin() + rnd(all.size() + 1), Op{ "start" });
            all.insert(all.begin() + all.size() - rnd(5), Op{ "stop" });
            for(auto& o: all) call(o);
            quiet(true);
         }
      }
      else while(k--) {
         std::vector<Script> ss(1 + rnd(3));
         for(auto& s: ss) { int m = 1 + rnd(2); while(m--) { int x = rnd(5); s.push_back(x == 0 ? Op{ "start" } : x == 1 ? Op{ "stop" } : logs(1)[0]); } }
         Script mine; int m = rnd(3); while(m--) mine.push_back(rnd(2) ? Op{ "start" } : rnd(2) ? Op{ "stop" } : logs(1)[0]);
         if(rnd(2)) phase(ss, mine); else { for(auto& o: mine) call(o); for(auto& o: ss[0]) call(o); }
         quiet(true);
      }
      if(!endless && rnd(2)) { call({ "start" }); quiet(true); }
   }
   else if(kind == "tiny") {
      // few calls, to be explored systematically
      if(nprobes) call({ "add", 1 });
      auto one = [&] { return rnd(5) == 0 ? Op{ "start" } : rnd(3) == 0 ? Op{ "stop" } : logs(1)[0]; };
      Script other; int m = 1 + rnd(2); while(m--) other.push_back(one());
      phase({ other }, { one() });
      if(rnd(2)) quiet(false);
   }
   else if(kind == "pool") {
      // bursts that empty the pool
      int k = 2 + rnd(2);
      while(k--) {
         if(rnd(2)) {
            call({ "stop" });
            int n = rnd(2) ? 60 + rnd(10) : 1 + rnd(5);
            if(nmsgs + n > MAXMSG - 40) n = 1;
            std::vector<Script> ss; if(rnd(2)) ss.push_back(logs(1 + rnd(2)));
            phase(ss, logs(n));
            if(rnd(2)) quiet(true);
            call({ "start" });
            if(rnd(3) == 0) { phase({ logs(1 + rnd(3)), logs(1 + rnd(2)) }); }
         }
         else { if(rnd(2)) call({ "start" }); if(rnd(2)) call(rnd(2) ? Op{ "detach", 1 + (int) rnd(nprobes) } : Op{ "enable", 1 + (int) rnd(nprobes), (int) rnd(2) }); if(rnd(2)) quiet(true);
            std::vector<Script> ss; ss.push_back(logs(1 + rnd(3))); ss.push_back(logs(1 + rnd(3))); phase(ss, logs(rnd(3))); }
         if(rnd(3) == 0) {
            // stopped, or the level changed, in the middle
            quiet(true);
            Script o = logs(rnd(3)); if(rnd(2)) o.insert(o.begin() + rnd(o.size() + 1), Op{ "stop" });
            Script g; if(rnd(2)) { g.push_back({ "glevel", (int) rnd(3) }); g.push_back({ "glevel", 2 + (int) rnd(4) }); }
            phase({ o, g }, logs(1 + rnd(2)));
         }
         quiet(true);
      }
   }
   else if(kind == "many") {
      // many listeners, which come and go in any order
      std::vector<int> st(MAXL, 0);       // 0 new, 1 added, 2 detached, 3 dropped
      int k = 4 + rnd(12);
      for(int i = 1; i <= nprobes; ++i) if(rnd(4)) { if(rnd(3) == 0) settle(i); call({ "add", i }); st[i] = 1; }
      if(rnd(2)) { if(!now) call({ "start" }); now = true; quiet(true); }
      while(k--) {
         int m = rnd(nprobes);
         while(m--) {
            int i = 1 + rnd(nprobes);
            if(st[i] == 0) { call({ "add", i }); st[i] = 1; }
            else if(st[i] == 1) switch(rnd(8)) { case 0: case 1: call({ "detach", i }); st[i] = 2; break; case 2: call({ "drop", i }); st[i] = 3; break; default: call(setting(i, true)); }
            else if(st[i] == 2 && rnd(2)) { call({ "drop", i }); st[i] = 3; }
         }
         Script more = logs(rnd(4));
         if(rnd(3) == 0) phase({ logs(1 + rnd(3)) }, more); else for(auto& o: more) call(o);
         if(!now && rnd(3) == 0) { call({ "start" }); now = true; }
         if(rnd(2)) quiet(true);
      }
      if(!now) call({ "start" });
      quiet(true);
   }
   else if(kind == "burst") {
      // hundreds of messages waiting, and hundreds more one after the other
      if(now) call({ "stop" });
      int n = big ? 1030 + rnd(40) : 250 + rnd(60);
      for(auto& o: logs(n)) call(o);
      quiet(true);
      call({ "start" });
      if(rnd(2)) quiet(true);
      for(auto& o: logs(rnd(8))) call(o);
      quiet(true);
      n = 250 + rnd(60);
      while(n--) { for(auto& o: logs(1)) call(o); if(rnd(3)) call({ "quiet" }); }
      quiet(true);
   }
   else if(kind == "all") {
      std::vector<Script> ss(2 + rnd(2));
      for(auto& s: ss) {
         int m = 2 + rnd(3);
         while(m--) switch(rnd(10)) {
            case 0: case 1: case 2: s.push_back(logs(1)[0]); break;
            case 3: s.push_back({ "anydiags" }); break;
            case 4: s.push_back(rnd(3) ? Op{ "glevel", (int) rnd(6) } : Op{ "getglevel" }); break;
            case 5: s.push_back(rnd(2) ? Op{ "start" } : Op{ "stop" }); break;
            case 6: s.push_back({ "detach", 1 + (int) rnd(nprobes) }); break;
            default: s.push_back(setting(1 + rnd(nprobes), true));
         }
      }
      if(nprobes < 3 && !spare && rnd(2)) { ++nprobes; make(nprobes, PLAIN); ss[0].insert(ss[0].begin(), Op{ "add", nprobes }); }
      phase(ss, logs(1));
   }

   // the end
   if(rnd(3) == 0) { call({ "stop" }); }
   if(rnd(2)) for(auto& o: logs(rnd(3))) call(o);
   if(rnd(4) == 0) for(int i = 1; i <= nprobes; ++i) if(held[i] && kinds[i] != LASTWORDS) { call({ "drop", i }); break; }
   closing = true;
   ev("\"c\",\"destroy\",[]"); delete sys; ev("\"r\",[]");
   for(int i = 1; i <= std::max(nprobes, spare); ++i) if(held[i]) { call({ "uses", i }); call({ "drop", i }); }
   ev("\"live\",%ld", live_blocks() - before);
}

// ------------------------------------------------------------------ streams
// The clock: it stands still but for what the scenarios add to it.
#define UNSEEN __attribute__((no_sanitize_thread, noinline))
static volatile long theTime = 1700000000, ticks = 0;
UNSEEN static long timeNow() { return theTime; }
UNSEEN static void timePasses(long s) { theTime = theTime + s; }
UNSEEN static void timeIs(long s) { theTime = s; }
extern "C" {
UNSEEN int clock_gettime(clockid_t c, struct timespec* ts) {
   if(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = theTime; ts->tv_nsec = 250000000; }
   else { ticks = ticks + 1; ts->tv_sec = 5000 + ticks / 100; ts->tv_nsec = ticks % 100 * 10000000; }
   return 0;
}
UNSEEN int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = theTime; tv->tv_usec = 250000; return 0; }
UNSEEN time_t time(time_t* t) { if(t) *t = theTime; return theTime; }
// as the library's, which all threads share: using it is an access to memory that needs an order
static struct tm theTm;
struct tm* localtime(const time_t* t) {
   struct tm r; { Quiet q; tzset(); localtime_r(t, &r); }
   weave::point();
   theTm = r;
   weave::point();
   return &theTm;
}
}
// summer: 1 from the 1st of March to the 27th of October, 2 the other way round
struct Zone { const char* tz; int offset, summer; };
static const Zone zones[] = { { "UTC0", 0, 0 }, { "AAA-5:30", 19800, 0 }, { "BBB+8", -28800, 0 }, { "CCC+0:00:07", -7, 0 }, { "DDD-1EEE,J60/0,J300/0", 3600, 1 }, { "SSS3TTT,J300/0,J60/0", -10800, 2 } };
static long firstDay;      // the times are given in seconds since the beginning of that day
static const long moments[] = { 2147483647, 4102444799, 4107542399, 7263215999, 8777894399, 8777980799, 2145916800, 0,
   1709247599, 1709247599, 1729979999, 1729997999, 1709258399, 1688212800, 1703440800, 1677635999, 1698357599,
   951782399, 951868799, 951955199, 1704067199, 1709164800, 1709251199, 1700000000, 1078099199, 1041382861, 978307199, 1236304984, 68256000 };

static std::string written(const std::string& s) { std::string r; for(char c: s) if(c == 0) r += "{0}"; else if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else r += c; return r; }
static std::string plain(const char* s) { std::string r; for(; *s; ++s) if(!strncmp(s, "{0}", 3)) { r += '\0'; s += 2; } else r += *s == '\\' ? *++s : *s; return r; }

struct RecBuf: std::streambuf {
   int no; std::string cur;
   int overflow(int c) override { if(c != EOF) cur += (char) c; return c; }
   std::streamsize xsputn(const char* s, std::streamsize n) override { cur.append(s, n); return n; }
   int sync() override { flush(); return 0; }
   void flush() {
      if(cur.empty()) return;
      // date and time, and what follows
      bool ok = cur.size() > 19 && cur[19] == ' ';
      std::string rest = ok ? cur.substr(20) : cur, stamp = ok ? cur.substr(0, 19) : "";
      for(char& c: stamp) if(c == '"' || c == '\\' || (unsigned char) c < 32) c = '~';
      bool line = !rest.empty() && rest.find('\n') == rest.size() - 1;
      if(line) rest.pop_back();
      std::string j = written(rest);
      ev("\"w\",%d,%d,\"%s\",\"%s\",%ld", no, (int) (ok && line), j.c_str(), stamp.c_str(), timeNow() - firstDay * 86400);
      cur.clear();
   }
};
struct RecStream: std::ostream {
   RecBuf b;
   RecStream(int n): std::ostream(&b) { b.no = n; }
   ~RecStream() { b.flush(); ev("\"gone\",%d", b.no); }
};
struct Grouping: std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct Tapped: falcon::LogStreamListener {
   const LogSystem::Message* expected{nullptr};
   void onMessage(const LogSystem::Message& m) override;
};
struct Line { int level; const char *cat, *dir, *file; int line; const char* text; };
// (written as in JSON; {0} is a NUL)
static const char* dirs[] = { "", "/", "/usr/src/", "src/x/" };
static const char* files[] = { "a.cpp", "file.with.dots", "d\\\\x", "b c.h", "odd{0}name", "" };
static const char* names[] = { "", "net", "net.io", "db", "netdb", "NET", "cat{0}egory", "(x) [y]" };
enum { FILES = 6 };
static const std::string longText = std::string(4100, 'x') + " " + std::string(4500, 'y') + ".";
static const char* texts[] = { "hello", "", "100% \\\"quoted\\\"", "a longer line of text that does not fit in the string itself: 0123456789 0123456789", "  spaces  ", "[INFO] (x) f:1 y",
   "z\u00fcrich - 100 \u20ac", longText.c_str(), "one{0}two{0}{0}", "{0}" };
enum { TEXTS = 10 };
static void describe(const LogSystem::Message& m, int d, int f, int t) {
   ev("\"c\",\"msg\",[%d,\"%s\",\"%s\",\"%s\",%d,\"%s\",%ld]", (int) m.m_level, written(m.m_category).c_str(), dirs[d], files[f], m.m_line, texts[t], timeNow() - firstDay * 86400);
}
static LogSystem::Message line(int id) {
   int d = id % 4, f = id % 31 == 0 ? 4 : id % 31 == 1 ? 5 : id / 4 % 4, t = id % 29 < 4 ? 6 + id % 29 : id / 16 % 6;
   int lv = id / 96 % 7;
   return LogSystem::Message(dirs[d] + plain(files[f]), id / 672 % 4 == 0 ? 123456 : id / 672 % 4 == 1 ? -id : id % 1000, (LEVEL) (lv == 6 ? 9 : lv), id % 5 == 0 ? "" : plain(names[1 + id % 7]), plain(texts[t]));
}
void Tapped::onMessage(const LogSystem::Message& m) {
   // which file and text: found again by their values
   int d = 0, f = 0, t = 0;
   for(int i = 0; i < 4; ++i) for(int k = 0; k < FILES; ++k) if(m.m_file == dirs[i] + plain(files[k])) { d = i; f = k; }
   for(int i = 0; i < TEXTS; ++i) if(m.m_message == plain(texts[i])) t = i;
   describe(m, d, f, t);
   falcon::LogStreamListener::onMessage(m);
   ev("\"r\"");
}

static void streams(const std::string& kind) {
   bool viaService = kind == "slines";
   std::vector<int> ids; int n = 1 + rnd(4); while(n--) ids.push_back(rnd(100000));
   std::vector<std::pair<int, int>> sw[2];
   int nsw = rnd(2);
   for(int i = 0; i <= nsw; ++i) { int k = 1 + rnd(3); while(k--) { int x = i == 0 ? 1 + (int) rnd(3) : 4 + (int) rnd(2); sw[i].push_back({ rnd(4) == 0 ? 1 : 0, x }); } }
   const Zone& zone = zones[rnd(6)];
   { Quiet q; setenv("TZ", zone.tz, 1); tzset(); time_t t = 0; struct tm tm; localtime_r(&t, &tm); }
   timeIs(rnd(4) ? moments[rnd(sizeof moments / sizeof *moments)] : 86400 + (long) rnd(21000) * 100000 + rnd(100000));
   static const long lapses[] = { 0, 0, 1, 59, 3600, 86400, 2678400 };
   long before = live_blocks();
   auto* lis = new Tapped;
   std::shared_ptr<Tapped> shared;
   LogSystem* s = nullptr;
   enum { N = 5 };
   RecStream* raw[N + 1] = { nullptr }; std::unique_ptr<std::ostream> uniq[N + 1]; std::shared_ptr<std::ostream> shr[N + 1];
   int mode[N + 1] = { 0 };     // 1 borrowed, 2 owned, 3 shared
   firstDay = timeNow() / 86400;
   ev("\"i\",%d,%d,%ld", zone.offset, zone.summer, firstDay);
   for(int k = 1; k <= N; ++k) {
      mode[k] = 1 + rnd(3);
      raw[k] = new RecStream(k);
      // whatever its owner writes on it otherwise
      switch(rnd(6)) {
      case 0: *raw[k] << std::hex << std::showbase << std::uppercase; break;
      case 1: *raw[k] << std::setfill('*') << std::setw(30) << std::left; break;
      case 2: *raw[k] << std::showpos << std::internal << std::oct; break;
      case 3: raw[k]->imbue(std::locale(raw[k]->getloc(), new Grouping)); break;
      }
      if(mode[k] == 2) uniq[k].reset(raw[k]);
      if(mode[k] == 3) shr[k].reset(raw[k]);
      ev("\"made\",%d,%d", k, mode[k]);
   }
   if(viaService) { shared.reset(lis); s = new LogSystem(rnd(2)); s->addListener(shared); }
   auto use = [&](int k) {
      if(mode[k] == 2 && !uniq[k]) return;
      if(mode[k] == 3 && !shr[k]) return;
      if(mode[k] == 1) { ev("\"c\",\"writeOn\",%d", k); lis->writeOn(raw[k]); }
      else if(mode[k] == 2) { ev("\"c\",\"own\",%d", k); lis->own(uniq[k]); }
      else { ev("\"c\",\"share\",%d", k); lis->share(shr[k]); }
      ev("\"r\"");
   };
   auto drop = [&](int k) { if(mode[k] == 3 && shr[k]) { ev("\"c\",\"drop\",%d", k); shr[k].reset(); ev("\"r\""); } };
   auto early = rnd(3);
   if(early) use(1 + rnd(N));
   if(rnd(4)) {
      std::thread a([&] {
         for(int id: ids) { LogSystem::Message m = line(id); timePasses(lapses[id % (viaService ? 3 : 7)]);
            if(viaService) s->log(m.m_file, m.m_line, m.m_level, m.m_category, m.m_message); else lis->onMessage(m); } });
      std::thread b([&] { for(auto& p: sw[0]) { timePasses(p.second % 2); if(p.first) drop(p.second); else use(p.second); } });
      // another listener somewhere else in the program, at work at the same time
      std::ostringstream elsewhere; falcon::LogStreamListener second; second.writeOn(&elsewhere);
      int nmore = rnd(3); std::vector<int> more; for(int i = 0; i < nmore; ++i) more.push_back(rnd(100000));
      std::thread d([&] { for(int id: more) second.onMessage(line(id)); });
      if(nsw) { std::thread c([&] { for(auto& p: sw[1]) if(p.first) drop(p.second); else use(p.second); }); c.join(); }
      a.join(); b.join(); d.join();
   }
   else for(size_t i = 0; i < ids.size(); ++i) {
      LogSystem::Message m = line(ids[i]); timePasses(lapses[ids[i] % 7]);
      if(viaService) { s->log(m.m_file, m.m_line, m.m_level, m.m_category, m.m_message); quiesce(); } else lis->onMessage(m);
      if(i < sw[0].size()) { auto& p = sw[0][i]; if(p.first) drop(p.second); else use(p.second); }
   }
   if(viaService) { if(rnd(2)) s->start(); quiesce(); s->stop(); }
   // a last message, and the end
   if(rnd(2) && !viaService) lis->onMessage(line(rnd(100000)));
   if(viaService) delete s;
   ev("\"c\",\"destroy\",0");
   if(viaService) shared.reset(); else delete lis;
   ev("\"r\"");
   for(int k = 1; k <= N; ++k) {
      if(mode[k] == 1 || (mode[k] == 2 && uniq[k])) { ev("\"c\",\"release\",%d", k); if(mode[k] == 1) delete raw[k]; else uniq[k].reset(); ev("\"r\""); }
      else drop(k);
   }
   ev("\"live\",%ld", live_blocks() - before);
}

int main(int argc, char** argv) {
   return weave::main(argc, argv, [](const std::string& n) {
      {
         // what the library allocates once and for all
         Quiet q;
         Probe* dummy = nullptr; (void) dummy;
         struct L: LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} } l;
         for(int i = 0; i < NREGEX; ++i) { try { l.category(regexes[i]); for(auto c: cats) l.checkCategory(c); } catch(...) {} }
         falcon::LogStreamListener s; s.onMessage(LogSystem::Message("f", 1, LEVEL::INFO, "c", "m"));
         time_t t = 0; tzset(); struct tm tm; localtime_r(&t, &tm); mktime(&tm);
      }
      if(n == "stream" || n == "slines") streams(n); else service(n);
   });
}
