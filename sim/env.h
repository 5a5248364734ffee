// The simulated environment: disk, clock and memory.  Reached by SplineLib through libc / operator new, which this
// program interposes; nothing in /repo is changed.  Active only while a library call runs.
#ifndef SIM_ENV_H_
#define SIM_ENV_H_
#include <memory>
#include "common.h"
namespace sim {
namespace env {

struct Fault {
  std::string op;    // open read write close seek alloc clock any
  long n = 0;        // index among the events of this kind within the library call
  std::string kind;  // error kind, see env.cc
  long arg = 0;
  bool sticky = false;
  long fired = 0;
};
struct Node {
  std::string data;
};
typedef std::shared_ptr<Node> NodePtr;

void ResetWorld();                       // empty disk, clock 0, no faults
std::map<std::string, NodePtr> &Disk();
void PutFile(const std::string &name, const std::string &data);
bool GetFile(const std::string &name, std::string *data);
std::map<std::string, std::string> Snapshot();
void SetDirs(const std::vector<std::string> &dirs);
void SetReadOnly(const std::string &name, bool ro);

void SetClock(long long sec, long long tick, const std::string &tz);
const std::vector<long long> &ClockReadings();   // values handed out during the last call

void Arm(const std::vector<Fault> &faults, long capacity);  // for the next call; capacity<0: unlimited
std::vector<Fault> &Armed();
bool CapacityHit();
bool AnyFired();
bool Crashed();

struct Counts {
  std::map<std::string, long> ev;
  long allocs = 0;
  long total = 0;
};
void Begin();   // library code runs from here
void End();
const Counts &LastCounts();
long OpenHandles();
void DropHandles();        // after a crash
long LiveObjects();        // objects allocated by library calls and not yet freed
bool MemCapHit();
struct CallState;                   // state of the library call of one simulated thread
CallState *NewCall();
void UseCall(CallState *c);         // for the calling thread; nullptr: that of the main thread
bool Active();
void SetActive(bool a);
void SetFreeHook(void (*hook)(void *p, size_t n));
void SetEventHook(void (*hook)(const char *op));  // called at every I/O event (thread world)

struct Scope {
  Scope() { Begin(); }
  ~Scope() { End(); }
};
struct Pause {  // environment code running inside a library call
  bool was;
  Pause();
  ~Pause();
};
void InstallPugiHooks();
}  // namespace env
}  // namespace sim
#endif
