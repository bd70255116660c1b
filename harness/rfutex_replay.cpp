// Replays behaviours of spec/RFutexGen.tla on RFutex, each call made by its own thread.
#include "trace.h"
#include <falcon/futex.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <memory>

// A thread that does what it is told, one thing at a time.
class Worker {
   std::mutex m; std::condition_variable c; const std::function<void()>* job{nullptr}; bool over{false}; std::thread th;
public:
   Worker(): th([this] {
      std::unique_lock<std::mutex> l(m);
      for(;;) { c.wait(l, [this] { return job || over; }); if(over) return; (*job)(); job = nullptr; c.notify_all(); }
   }) {}
   ~Worker() { { std::lock_guard<std::mutex> l(m); over = true; } c.notify_all(); th.join(); }
   void run(const std::function<void()>& f) { std::unique_lock<std::mutex> l(m); job = &f; c.notify_all(); c.wait(l, [this] { return !job; }); }
};

static size_t replay(const vt::J& tr) {
   falcon::RFutex f;
   const vt::J& steps = tr[1];
   std::vector<std::unique_ptr<Worker>> w;
   size_t n = 0;
   if(steps.size()) for(size_t i = 0; i < steps[0][2][1].size(); ++i) w.emplace_back(new Worker);
   for(const vt::J& s: steps.a) {
      ++n;
      std::string at = "step " + std::to_string(n) + " " + s[0].s + " by thread " + s[1].s + std::to_string(s[1].i) + ": ";
      long times = s[3].i;
      if(s[0].s == "renew") {
         w[s[1].i - 1].reset();
         for(long k = 0; k < times; ++k) std::thread([&] {
            f.lock();
            if(!f.isOwner() || !f.isLocked()) vt::mismatch(at + "a new thread does not own what it has locked");
            f.unlock();
            if(f.isLocked()) vt::mismatch(at + "not free after a new thread has used it");
         }).join();
         w[s[1].i - 1].reset(new Worker);
      }
      else w[s[1].i - 1]->run([&] {
         for(long k = 1; k <= times; ++k) {
            if(s[0].s == "lock") f.lock(); else f.unlock();
            // in between it is still held if it is at the end (when unlocking), or already (when locking)
            if(s[2][0].i && !f.isOwner()) vt::mismatch(at + "not owned after call " + std::to_string(k));
         }
      });
      for(size_t t = 0; t < w.size(); ++t) {
         bool l = false, o = false;
         w[t]->run([&] { l = f.isLocked(); o = f.isOwner(); });
         vt::expect((at + "isLocked() asked by thread " + std::to_string(t + 1)).c_str(), (long) l, s[2][0].i);
         vt::expect((at + "isOwner() asked by thread " + std::to_string(t + 1)).c_str(), (long) o, s[2][1][t].i);
      }
   }
   return n;
}
int main(int argc, char** argv) { return vt::replay(argc, argv, replay); }
