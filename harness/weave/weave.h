// Runs multi-threaded code under a deterministic scheduler and records what it does.
//
// The code under test and the scenario are compiled with -fsanitize=thread and linked with
// weave.cpp instead of the sanitizer's library: every memory access, atomic operation, lock,
// condition, thread start and join then goes through this runtime, which lets one thread run
// at a time and decides, from a seed or from a list of decisions, which one is next.
#ifndef VERIF_WEAVE_H
#define VERIF_WEAVE_H
#include <string>
#include <functional>
#include <cstdint>

namespace weave {
   // Adds an event of the running thread to the trace; the text is a list of JSON values.
   void event(const char* text);
   inline void event(const std::string& s) { event(s.c_str()); }
   // Adds a note that is not an event (not part of what is compared between traces).
   // A point where another thread may be scheduled.
   void point();
   // Waits until every other thread is blocked or over.
   void quiesce();
   // Number of the running thread, from 1.
   int self();
   // Names a location, so that events on it can be told: the accesses carry this name.
   void name(const void* addr, size_t size, const char* text);
   // Random numbers which depend on the seed of the scenario only, not on the schedule.
   uint32_t script_random(uint32_t below);
   // Live blocks of memory got by operator new (count since the start of the run).
   long live_blocks();
   void long_run();                       // more steps than usual are no livelock
   // While off, plain accesses are not recorded and do not switch (for the harness's own bookkeeping).
   struct Quiet { Quiet(); ~Quiet(); };

   struct Scenario {
      std::string name;
      std::function<void()> body;      // runs as thread 1
   };
   // main() of a harness: options -s first seed, -n executions, -d (systematic: preemption bound), -o output,
   // -k seeds of the scripts: one script per k schedules, -a (record plain accesses), then names of scenarios.
   int main(int argc, char** argv, const std::function<void(const std::string& name)>& body);
}
#endif
