// Simulated threads: real threads that run one at a time.  The code of the library is compiled with
// -fsanitize=thread, but the calls the compiler inserts end here and not in the sanitizer's runtime: every memory
// access is a step at which the plan may switch threads, and is checked against a happens-before relation.
#ifndef SIM_SCHED_H_
#define SIM_SCHED_H_
#include <functional>
#include "common.h"
namespace sim {
namespace sched {
const int kMax = 4;  // threads
struct Switch { long step; int to; };
struct Report {
  long steps = 0;                     // memory accesses, synchronisations and I/O events of all threads
  long switches = 0;                  // switches of the plan that took place
  struct Point { long step; uint64_t where; };
  std::vector<Point> points;          // steps with synchronisation, I/O or an access to data another thread uses
  bool stuck = false;
  std::string stuck_text;
  std::vector<std::string> races;     // distinct descriptions
  uint64_t order = 7;                 // hash over the order in which the threads passed their points
};
// Runs the functions as threads.  With `alone`, each runs to its end before the next starts, without switches.
Report Run(const std::vector<std::function<void()>> &threads, const std::vector<Switch> &switches);
int Self();           // index of the simulated thread, -1 outside
}  // namespace sched
}  // namespace sim
#endif
