// Replays behaviours of spec/CategoryGen.tla: one listener of a logging service, its category expressions, levels and switch.
#include <falcon/logsystem.h>
#include "trace.h"
#include <condition_variable>
using vt::J; using vt::mismatch;
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;

struct Taker: LogSystem::Listener {
   std::vector<std::string> got;
   void onMessage(const LogSystem::Message& m) override { if(m.m_message == "text") got.push_back(m.m_category); }
};
// Knows when everything before has been dealt with.
struct Last: LogSystem::Listener {
   std::mutex m; std::condition_variable c; bool there{false};
   void onMessage(const LogSystem::Message& msg) override { if(msg.m_message == "the last") { std::lock_guard<std::mutex> g(m); there = true; c.notify_all(); } }
   void wait() { std::unique_lock<std::mutex> g(m); c.wait(g, [this]{ return there; }); there = false; }
};
static std::string show(const std::string& s) { return s.size() > 100 ? s.substr(0, 100) + ".. (" + std::to_string(s.size()) + ")" : s; }

static size_t replay(const J& tr) {
   auto l = std::make_shared<Taker>();
   auto last = std::make_shared<Last>();
   LogSystem sys(true);
   sys.addListener(l);
   sys.addListener(last);
   std::string text;
   for(const J& s: tr[1].a) {
      const std::string& k = s[0].s;
      if(k == "cat") {
         int ok = 1;
         try { l->category(s[1].s); } catch(LogSystem::InvalidCategory&) { ok = 0; } catch(std::exception&) { ok = -1; }
         if(ok != s[2].i) mismatch("the expression \"" + show(s[1].s) + "\" is " + (ok == 1 ? "taken" : ok == 0 ? "refused" : "refused with another exception"));
         if(ok == 1) text = s[1].s;
      }
      else if(k == "get") { if(l->category() != s[1].s) mismatch("the expression reads back as \"" + show(l->category()) + "\", should be \"" + show(s[1].s) + "\""); }
      else if(k == "level") l->level((LEVEL) s[1].i);
      else if(k == "glevel") sys.level((LEVEL) s[1].i);
      else if(k == "on") l->enable(s[1].i);
      else if(k == "match") {
         bool got = l->checkCategory(s[1].s);
         if(got != (s[2].i == 1)) mismatch("the category \"" + show(s[1].s) + "\" is " + (got ? "let through" : "held back") + " by the expression \"" + show(text) + "\"");
      }
      else if(k == "log") {
         l->got.clear();
         sys.log("file", 1, (LEVEL) s[2].i, s[1].s, "text");
         sys.log(new LogSystem::Message("", 1, LEVEL::CRITICAL, "", "the last"));
         last->wait();
         size_t n = l->got.size();
         if(n != (size_t) s[3].i) mismatch("a message of the category \"" + show(s[1].s) + "\" and level " + std::to_string(s[2].i) + " is " + (n ? "handed" : "not handed") + " to a listener with the expression \"" + show(text) + "\"");
      }
      else throw std::logic_error("bad trace: " + k);
   }
   return tr[1].size();
}
int main(int argc, char** argv) { return vt::replay(argc, argv, replay); }
