// First uses of the application logger by several threads, run under weave.
#include "weave/weave.h"
#include <falcon/config.h>
#include <falcon/logger.h>
#include <thread>
#include <vector>
using namespace weave;
static const void* g_seen[8][2]; static int g_nseen = 0;
static int object(const void* p, const void* q) {
   Quiet z;
   for(int i = 0; i < g_nseen; ++i) if(g_seen[i][0] == p && g_seen[i][1] == q) return i + 1;
   if(g_nseen < 8) { g_seen[g_nseen][0] = p; g_seen[g_nseen][1] = q; ++g_nseen; }
   return g_nseen;
}
static void use() {
   event("\"c\"");
   falcon::Logger& l = LOGGER;
   auto d = l.defaultListener();
   bool ok = d && (int) l.level() >= 0;
   char b[80]; snprintf(b, sizeof b, "\"r\",%d,%d", object(&l, d.get()), (int) ok); event(b);
}
static void instance() {
   int n = 2 + script_random(3);
   std::vector<int> k(n); for(int& x: k) x = 1 + script_random(2);
   bool first = script_random(4) == 0;
   if(first) use();
   std::vector<std::thread> th;
   for(int i = 0; i < n; ++i) th.emplace_back([&k, i] { for(int j = 0; j < k[i]; ++j) use(); });
   for(auto& t: th) t.join();
   use();
}
int main(int argc, char** argv) { return weave::main(argc, argv, [](const std::string&) { instance(); }); }
