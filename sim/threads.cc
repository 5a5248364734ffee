#include "threads.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <locale.h>
#include <iostream>
#include "env.h"

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}

namespace sim {
namespace sched {
namespace {
enum Kind { kWrite, kRead, kAtomicWrite, kAtomicRead };
typedef uint32_t Clk;

struct VC { Clk c[kMax] = {0, 0, 0, 0}; };
void Join(VC *a, const VC &b) { for (int i = 0; i < kMax; ++i) a->c[i] = std::max(a->c[i], b.c[i]); }

enum State { kReady, kBlocked, kDone };
struct Thread {
  int id = 0;
  VC vc;
  State state = kReady;
  const void *waits_for = nullptr;
  const char *waits_how = "";
  sem_t sem;
  uintptr_t lo = 0, hi = 0;  // stack
  pthread_t handle;
  std::function<void()> fn;
  env::CallState *call = nullptr;
};
thread_local Thread *t_self = nullptr;

struct Rec { Rec *next; Clk clk[4][kMax]; const void *pc[4][kMax]; };
struct Granule { Rec *rec; bool split; };
struct Page { uintptr_t no; Granule g[512]; };

// ------------------------------------------------------------ memory of the detector (never the program's heap)
char *g_arena, *g_arena_end;
void *Arena(size_t n) {
  n = (n + 15) & ~size_t{15};
  if (!g_arena || g_arena + n > g_arena_end) {
    size_t chunk = std::max<size_t>(n, 4u << 20);
    g_arena = static_cast<char *>(mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (g_arena == MAP_FAILED) { const char m[] = "harness: no memory\n"; if (::syscall(1, 2, m, sizeof m - 1) < 0) {} _exit(88); }
    g_arena_end = g_arena + chunk;
  }
  void *p = g_arena;
  g_arena += n;
  return p;
}
Rec *g_free_rec[2];  // single, eightfold
Rec *NewRec(bool eight) {
  Rec *&head = g_free_rec[eight];
  size_t n = sizeof(Rec) * (eight ? 8 : 1);
  if (head) {
    Rec *r = head;
    head = r->next;
    r->next = nullptr;
    uint64_t *w = reinterpret_cast<uint64_t *>(r);
    for (size_t i = 0; i < n / 8; ++i) w[i] = 0;
    return r;
  }
  return static_cast<Rec *>(Arena(n));
}
void FreeRec(Rec *r, bool eight) { r->next = g_free_rec[eight]; g_free_rec[eight] = r; }

const size_t kBuckets = 1 << 16;
Page **g_pages;
Page *g_last;
Page *FindPage(uintptr_t no, bool make) {
  if (g_last && g_last->no == no) return g_last;
  if (!g_pages) {
    if (!make) return nullptr;
    g_pages = static_cast<Page **>(Arena(kBuckets * sizeof(Page *)));
  }
  size_t h = (no * 0x9E3779B97F4A7C15ull) >> 48;
  for (size_t i = 0; i < kBuckets; ++i, h = (h + 1) & (kBuckets - 1)) {
    if (!g_pages[h]) {
      if (!make) return nullptr;
      g_pages[h] = static_cast<Page *>(Arena(sizeof(Page)));
      g_pages[h]->no = no;
      return g_last = g_pages[h];
    }
    if (g_pages[h]->no == no) return g_last = g_pages[h];
  }
  return nullptr;
}

// ------------------------------------------------------------ the run
bool g_running = false;
std::vector<Thread *> *g_threads;
const std::vector<Switch> *g_switches;
size_t g_next_switch;
long g_next_step, g_quantum_end;
Report *g_report;
sem_t g_main_sem;
std::map<const void *, VC> *g_sync;
struct Lock { int owner = -1; int depth = 0; int readers = 0; int reader[kMax] = {0, 0, 0, 0}; };
std::map<const void *, Lock> *g_locks;
std::map<const void *, int> *g_once;
const long kQuantum = 300000;
struct Range { uintptr_t lo, hi; };
Range g_ignored[256];
int g_nignored;
Range g_tracked[16];
int g_ntracked;
uintptr_t g_text_lo, g_text_hi, g_base;

int AddRange(struct dl_phdr_info *i, size_t, void *) {
  bool main = i->dlpi_name == nullptr || i->dlpi_name[0] == 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const auto &p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD) continue;
    uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
    if (main && (p.p_flags & PF_X)) { g_text_lo = lo; g_text_hi = hi; g_base = i->dlpi_addr; }
    if (!main && (p.p_flags & PF_W) && g_nignored < 250) g_ignored[g_nignored++] = {lo, hi};
  }
  return 0;
}
void Ignore(const void *p, size_t n) { g_ignored[g_nignored++] = {reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n}; }
bool Ignored(uintptr_t a) {
  for (int i = 0; i < g_nignored; ++i) {
    if (a >= g_ignored[i].lo && a < g_ignored[i].hi) {
      for (int k = 0; k < g_ntracked; ++k) if (a >= g_tracked[k].lo && a < g_tracked[k].hi) return false;
      return true;
    }
  }
  return false;
}

std::string NameOf(const void *pc) {
  Dl_info info;
  if (!pc) return "?";
  if (getenv("SIM_PC")) { char b[64]; snprintf(b, sizeof b, "%#lx", reinterpret_cast<uintptr_t>(pc) - g_base); return b; }
  if (!dladdr(pc, &info) || !info.dli_sname) return "a local function";
  int st = 0;
  char *d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &st);
  std::string r = st == 0 && d ? d : info.dli_sname;
  free(d);
  return r.substr(0, 300);
}

struct Inactive {
  bool was;
  Inactive() : was(env::Active()) { env::SetActive(false); }
  ~Inactive() { env::SetActive(was); }
};

void SetNext() {
  g_next_step = g_next_switch < g_switches->size() ? (*g_switches)[g_next_switch].step : (1l << 60);
  if (g_next_step > g_quantum_end) g_next_step = g_quantum_end;
}
void Pass(Thread *self, Thread *to) {  // self goes on when it gets its turn again
  g_quantum_end = g_report->steps + kQuantum;
  SetNext();
  if (to == self) return;
  sem_post(&to->sem);
  if (self) while (sem_wait(&self->sem) != 0) {}
}
Thread *NextReady(int after) {
  int n = static_cast<int>(g_threads->size());
  for (int i = 1; i <= n; ++i) {
    Thread *t = (*g_threads)[(after + i) % n];
    if (t->state == kReady) return t;
  }
  return nullptr;
}
void EndRun() { sem_post(&g_main_sem); }
void Point(Thread *t, uint64_t what, const void *pc = nullptr) {
  g_report->order = Mix(g_report->order, static_cast<uint64_t>(t->id) * 1000003 + what);
  if (g_report->points.size() < 100000) g_report->points.push_back({g_report->steps, what * 0x100000000ull + static_cast<uint64_t>(t->id) * 0x40000000ull + ((reinterpret_cast<uintptr_t>(pc) - g_base) & 0x3fffffff)});
}
inline void Step(Thread *t) {
  if (++g_report->steps < g_next_step) return;
  Inactive off;
  while (g_next_switch < g_switches->size() && (*g_switches)[g_next_switch].step <= g_report->steps) {
    // "to" counts the other threads, beginning after the one that runs
    int others = static_cast<int>(g_threads->size()) - 1;
    int to = others > 0 ? (t->id + 1 + (*g_switches)[g_next_switch].to % others) % (others + 1) : t->id;
    ++g_next_switch;
    Thread *n = (*g_threads)[to];
    if (n->state != kReady) n = NextReady(t->id);
    if (n && n != t) {
      to = n->id;
      ++g_report->switches;
      g_report->order = Mix(g_report->order, static_cast<uint64_t>(g_report->steps) * 8 + static_cast<uint64_t>(to));
      Pass(t, n);
      return;
    }
  }
  if (g_report->steps >= g_quantum_end) { Thread *n = NextReady(t->id); Pass(t, n ? n : t); return; }
  SetNext();
}
void Yield(Thread *t) {
  Inactive off;
  ++g_report->steps;
  Thread *n = NextReady(t->id);
  Pass(t, n ? n : t);
}
// The thread waits until another one calls Wake for the same address.
void Block(Thread *t, const void *what, const char *how) {
  t->state = kBlocked;
  t->waits_for = what;
  t->waits_how = how;
  Thread *n = NextReady(t->id);
  if (!n) {
    g_report->stuck = true;
    for (auto *x : *g_threads) if (x->state == kBlocked) g_report->stuck_text += "thread " + std::to_string(x->id) + " waits for ever for " + x->waits_how + "; ";
    EndRun();
    for (;;) pause();
  }
  Pass(t, n);
}
void Wake(const void *what) {
  for (auto *x : *g_threads) if (x->state == kBlocked && x->waits_for == what) { x->state = kReady; x->waits_for = nullptr; }
}
void Release(Thread *t, const void *a, bool keep) {
  VC &v = (*g_sync)[a];
  if (!keep) v = VC();
  Join(&v, t->vc);
  ++t->vc.c[t->id];
}
void Acquire(Thread *t, const void *a) {
  auto it = g_sync->find(a);
  if (it != g_sync->end()) Join(&t->vc, it->second);
}

void Race(Thread *t, Kind k, const void *pc, int u, int uk, const void *upc) {
  Inactive off;
  static const char *names[] = {"writes", "reads", "changes atomically", "reads atomically"};
  std::string a = std::string(names[k]) + " in " + NameOf(pc), b = std::string(names[uk]) + " in " + NameOf(upc);
  std::string text = "thread " + std::to_string(u) + " " + b + ", thread " + std::to_string(t->id) + " " + a + ", on the same memory without any order between them";
  if (g_report->races.size() < 8 && std::find(g_report->races.begin(), g_report->races.end(), text) == g_report->races.end()) g_report->races.push_back(text);
}
inline void Check(Rec *r, Thread *t, Kind k, const void *pc) {
  Clk now = t->vc.c[t->id];
  if (r->clk[k][t->id] == now) return;
  for (int u = 0; u < kMax; ++u) {
    if (u == t->id) continue;
    for (int uk = 0; uk < 4; ++uk) {
      if (r->clk[uk][u] <= t->vc.c[u]) continue;
      bool conflict = k == kWrite || (k == kRead && (uk == kWrite || uk == kAtomicWrite)) ||
                      (k == kAtomicWrite && (uk == kWrite || uk == kRead)) || (k == kAtomicRead && uk == kWrite);
      if (conflict) Race(t, k, pc, u, uk, r->pc[uk][u]);
    }
  }
  r->clk[k][t->id] = now;
  r->pc[k][t->id] = pc;
}
inline bool Others(const Rec *r, const Thread *t) {
  for (int k = 0; k < 4; k += 2) for (int u = 0; u < kMax; ++u) if (u != t->id && r->clk[k][u]) return true;
  return false;
}
void Touch(Thread *t, uintptr_t a, size_t n, Kind k, const void *pc) {
  if (a >= t->lo && a < t->hi) return;
  if (Ignored(a)) return;
  uintptr_t end = a + n;
  bool shared = false;
  while (a < end) {
    Page *p = FindPage(a >> 12, true);
    Granule &g = p->g[(a >> 3) & 511];
    uintptr_t gend = std::min(end, (a | 7) + 1);
    bool whole = (a & 7) == 0 && gend - a == 8;
    if (!g.rec) {
      g.split = !whole;
      g.rec = NewRec(g.split);
    } else if (!whole && !g.split) {
      Rec *r = NewRec(true);
      for (int i = 0; i < 8; ++i) r[i] = *g.rec;
      FreeRec(g.rec, false);
      g.rec = r;
      g.split = true;
    }
    if (!g.split) {
      Check(g.rec, t, k, pc);
      shared |= Others(g.rec, t);
    } else {
      for (uintptr_t b = a; b < gend; ++b) Check(&g.rec[b & 7], t, k, pc);
      shared |= Others(&g.rec[a & 7], t);
    }
    a = gend;
  }
  if (shared) Point(t, 1 + static_cast<uint64_t>(k), pc);
}
void Clear(uintptr_t a, size_t n) {
  if (!g_running || !g_pages) return;
  Inactive off;
  uintptr_t end = (a + n + 7) & ~uintptr_t{7};
  for (a &= ~uintptr_t{7}; a < end; a += 8) {
    Page *p = FindPage(a >> 12, false);
    if (!p) { a = (a | 4095) - 7; continue; }
    Granule &g = p->g[(a >> 3) & 511];
    if (g.rec) { FreeRec(g.rec, g.split); g.rec = nullptr; }
  }
}
inline Thread *Self_() { return t_self && env::Active() ? t_self : nullptr; }
inline void Access(const void *p, size_t n, Kind k, const void *pc) {
  Thread *t = Self_();
  if (!t) return;
  Step(t);
  Inactive off;
  Touch(t, reinterpret_cast<uintptr_t>(p), n, k, pc);
}
void OnEvent(const char *op) {
  Thread *t = Self_();
  if (!t) return;
  Step(t);
  Inactive off;
  Point(t, 100 + static_cast<uint64_t>(op[0]));
}
void OnFree(void *p, size_t n) {
  Thread *t = Self_();
  if (!t) return;
  Inactive off;
  Touch(t, reinterpret_cast<uintptr_t>(p), n, kWrite, __builtin_return_address(0));
}
bool Rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
bool Acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }

void *Main(void *arg) {
  Thread *t = static_cast<Thread *>(arg);
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *lo;
  size_t n;
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  t->lo = reinterpret_cast<uintptr_t>(lo);
  t->hi = t->lo + n;
  env::UseCall(t->call);
  t_self = t;
  while (sem_wait(&t->sem) != 0) {}
  t->fn();
  env::SetActive(false);
  t->state = kDone;
  Thread *next = NextReady(t->id);
  if (next) {
    Pass(nullptr, next);
  } else {
    for (auto *x : *g_threads) if (x->state == kBlocked) { g_report->stuck = true; g_report->stuck_text += "thread " + std::to_string(x->id) + " waits for ever for " + x->waits_how + "; "; }
    EndRun();
  }
  for (;;) pause();  // nothing of a thread is torn down while others run
  return nullptr;
}
}  // namespace

int Self() { return t_self ? t_self->id : -1; }

Report Run(const std::vector<std::function<void()>> &fns, const std::vector<Switch> &switches) {
  static Report report;
  static std::vector<Thread *> threads;
  static std::vector<Switch> plan;
  report = Report();
  report.points.reserve(100000);
  report.races.reserve(16);
  plan = switches;
  std::stable_sort(plan.begin(), plan.end(), [](const Switch &a, const Switch &b) { return a.step < b.step; });
  g_report = &report;
  g_threads = &threads;
  g_switches = &plan;
  g_next_switch = 0;
  g_sync = new std::map<const void *, VC>;
  g_locks = new std::map<const void *, Lock>;
  g_once = new std::map<const void *, int>;
  sem_init(&g_main_sem, 0, 0);
  dl_iterate_phdr(AddRange, nullptr);
  Ignore(&std::cout, sizeof std::cout);
  Ignore(&std::cerr, sizeof std::cerr);
  Ignore(&std::clog, sizeof std::clog);
  Ignore(&std::cin, sizeof std::cin);
  env::SetEventHook(OnEvent);
  env::SetFreeHook(OnFree);
  for (size_t i = 0; i < fns.size(); ++i) {
    Thread *t = new Thread;
    t->id = static_cast<int>(i);
    t->vc.c[i] = 1;
    t->fn = fns[i];
    t->call = env::NewCall();
    sem_init(&t->sem, 0, 0);
    threads.push_back(t);
  }
  for (auto *t : threads) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8u << 20);
    if (pthread_create(&t->handle, &at, Main, t) != 0) { fprintf(stderr, "harness: no thread\n"); _exit(88); }
    pthread_attr_destroy(&at);
  }
  g_running = true;
  Pass(nullptr, threads[0]);
  while (sem_wait(&g_main_sem) != 0) {}
  g_running = false;
  env::SetEventHook(nullptr);
  env::SetFreeHook(nullptr);
  return report;
}
}  // namespace sched
}  // namespace sim

using namespace sim::sched;  // NOLINT

// ---------------------------------------------------------------- what the compiler inserts
#define PC __builtin_return_address(0)
// Reference counts of shared_ptr: an increment orders nothing, a decrement hands over, the last one takes over.
template<class T> static T Count(volatile T *p, T v, int o, int sign, const void *pc) {
  Thread *t = Self_();
  if (t) { Step(t); Inactive off; Touch(t, reinterpret_cast<uintptr_t>(p), sizeof(T), kAtomicWrite, pc); Point(t, 50, pc); }
  T old = *p, now = static_cast<T>(sign > 0 ? old + v : old - v);
  *p = now;
  if (t) {
    Inactive off;
    const void *a = const_cast<T *>(p);
    if (sizeof(T) == 4 && o == __ATOMIC_ACQ_REL) {
      T d = static_cast<T>(now - old);
      if (d == static_cast<T>(-1)) { Release(t, a, true); if (now == 0) Acquire(t, a); }
    } else {
      if (Acq(o)) Acquire(t, a);
      if (Rel(o)) Release(t, a, true);
    }
  }
  return old;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define SIM_RW(n) \
  void __tsan_read##n(void *p) { Access(p, n, kRead, PC); } \
  void __tsan_write##n(void *p) { Access(p, n, kWrite, PC); } \
  void __tsan_unaligned_read##n(void *p) { Access(p, n, kRead, PC); } \
  void __tsan_unaligned_write##n(void *p) { Access(p, n, kWrite, PC); } \
  void __tsan_volatile_read##n(void *p) { Access(p, n, kRead, PC); } \
  void __tsan_volatile_write##n(void *p) { Access(p, n, kWrite, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { Access(p, n, kRead, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { Access(p, n, kWrite, PC); }
SIM_RW(1) SIM_RW(2) SIM_RW(4) SIM_RW(8) SIM_RW(16)
void __tsan_read_range(void *p, long n) { Access(p, static_cast<size_t>(n), kRead, PC); }
void __tsan_write_range(void *p, long n) { Access(p, static_cast<size_t>(n), kWrite, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) Access(p, 8, kWrite, PC); }
void __tsan_vptr_read(void **p) { Access(p, 8, kRead, PC); }

#define SIM_SYNC_BEFORE(p, n, k) \
  Thread *t = Self_(); \
  if (t) { Step(t); Inactive off; Touch(t, reinterpret_cast<uintptr_t>(p), n, k, PC); Point(t, 50, PC); }
#define SIM_RMW(T, bits, name, expr) \
  T __tsan_atomic##bits##_##name(volatile T *p, T v, int o) { \
    SIM_SYNC_BEFORE(p, sizeof(T), kAtomicWrite) \
    T old = *p; \
    *p = static_cast<T>(expr); \
    if (t) { Inactive off; const void *a = const_cast<T *>(p); if (Acq(o)) Acquire(t, a); if (Rel(o)) Release(t, a, true); } \
    return old; \
  }
#define SIM_ATOMIC(T, bits) \
  T __tsan_atomic##bits##_load(const volatile T *p, int o) { \
    SIM_SYNC_BEFORE(p, sizeof(T), kAtomicRead) \
    T v = *p; \
    if (t && Acq(o)) { Inactive off; Acquire(t, const_cast<T *>(p)); } \
    return v; \
  } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { \
    SIM_SYNC_BEFORE(p, sizeof(T), kAtomicWrite) \
    *p = v; \
    if (t) { Inactive off; const void *a = const_cast<T *>(p); if (Rel(o)) Release(t, a, false); else g_sync->erase(a); } \
  } \
  SIM_RMW(T, bits, exchange, v) \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { return Count<T>(p, v, o, 1, PC); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { return Count<T>(p, v, o, -1, PC); } \
  SIM_RMW(T, bits, fetch_and, old & v) \
  SIM_RMW(T, bits, fetch_or, old | v) \
  SIM_RMW(T, bits, fetch_xor, old ^ v) \
  SIM_RMW(T, bits, fetch_nand, ~(old & v)) \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int fo) { \
    SIM_SYNC_BEFORE(p, sizeof(T), kAtomicWrite) \
    bool ok = *p == *e; \
    if (ok) *p = v; else *e = *p; \
    if (t) { Inactive off; const void *a = const_cast<T *>(p); if (Acq(ok ? o : fo)) Acquire(t, a); if (ok && Rel(o)) Release(t, a, true); } \
    return ok; \
  } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, fo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo); return e; }
SIM_ATOMIC(uint8_t, 8) SIM_ATOMIC(uint16_t, 16) SIM_ATOMIC(uint32_t, 32) SIM_ATOMIC(uint64_t, 64)
static char g_fence;
void __tsan_atomic_thread_fence(int o) {
  Thread *t = Self_();
  if (!t) return;
  Step(t);
  Inactive off;
  if (Acq(o)) Acquire(t, &g_fence);
  if (Rel(o)) Release(t, &g_fence, true);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions
static inline bool FromProgram(const void *pc) { uintptr_t a = reinterpret_cast<uintptr_t>(pc); return a >= g_text_lo && a < g_text_hi; }
void *memcpy(void *__restrict d, const void *__restrict s, size_t n) {
  if (t_self && n && Self_() && FromProgram(PC)) { Access(s, n, kRead, PC); Access(d, n, kWrite, PC); }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if (t_self && n && Self_() && FromProgram(PC)) { Access(s, n, kRead, PC); Access(d, n, kWrite, PC); }
  void *r = d;
  if (d <= s || static_cast<char *>(d) >= static_cast<const char *>(s) + n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *de = static_cast<char *>(d) + n - 1;
    const char *se = static_cast<const char *>(s) + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(de), "+S"(se), "+c"(n) : : "memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n) {
  if (t_self && n && Self_() && FromProgram(PC)) Access(d, n, kWrite, PC);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (p && g_running) Clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
  return p;
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  if (p && g_running) Clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
  return p;
}
void *realloc(void *q, size_t n) {
  void *p = __libc_realloc(q, n);
  if (p && g_running) Clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
  return p;
}
void free(void *p) { __libc_free(p); }

// ---------------------------------------------------------------- synchronisation
#define REAL(ret, name, args) static auto real = reinterpret_cast<ret (*) args>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_mutex_lock, (pthread_mutex_t *)); return real(m); }
  Step(t);
  Inactive off;
  Point(t, 62);
  Lock *l = &(*g_locks)[m];
  if (l->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l->depth; return 0; }
  while (l->owner >= 0) Block(t, m, "a mutex");
  l->owner = t->id;
  l->depth = 1;
  Acquire(t, m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_mutex_trylock, (pthread_mutex_t *)); return real(m); }
  Step(t);
  Inactive off;
  Point(t, 63);
  Lock *l = &(*g_locks)[m];
  if (l->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l->depth; return 0; }
  if (l->owner >= 0) return EBUSY;
  l->owner = t->id;
  l->depth = 1;
  Acquire(t, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_mutex_unlock, (pthread_mutex_t *)); return real(m); }
  Step(t);
  Inactive off;
  Lock *l = &(*g_locks)[m];
  if (l->owner != t->id) return EPERM;
  if (--l->depth > 0) return 0;
  l->owner = -1;
  Release(t, m, true);
  Wake(m);
  Point(t, 64);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *)); return real(m); }
  Step(t);
  Inactive off;
  Point(t, 65);
  Lock *l = &(*g_locks)[m];
  while (l->owner >= 0) Block(t, m, "a shared mutex");
  ++l->readers;
  ++l->reader[t->id];
  Acquire(t, m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *)); return real(m); }
  Step(t);
  Inactive off;
  Point(t, 66);
  Lock *l = &(*g_locks)[m];
  while (l->owner >= 0 || l->readers > 0) Block(t, m, "a shared mutex");
  l->owner = t->id;
  Acquire(t, m);
  Acquire(t, reinterpret_cast<char *>(m) + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *)); return real(m); }
  Step(t);
  Inactive off;
  Lock *l = &(*g_locks)[m];
  if (l->owner == t->id) {
    l->owner = -1;
    Release(t, m, true);
  } else if (l->reader[t->id] > 0) {
    --l->reader[t->id];
    --l->readers;
    Release(t, reinterpret_cast<char *>(m) + 1, true);  // readers order only later writers
  }
  Wake(m);
  Point(t, 67);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_once, (pthread_once_t *, void (*)(void))); return real(o, fn); }
  Step(t);
  {
    Inactive off;
    Point(t, 68);
    if (*o == 2) return 0;  // done by libc before the threads started
    int *s = &(*g_once)[o];
    while (*s == 1) Block(t, o, "a call_once");
    if (*s == 2) { Acquire(t, o); return 0; }
    *s = 1;
  }
  try {
    fn();
  } catch (...) {
    Inactive off;
    (*g_once)[o] = 0;
    Wake(o);
    throw;
  }
  Inactive off;
  (*g_once)[o] = 2;
  Release(t, o, true);
  Wake(o);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *)); return real(c, m); }
  pthread_mutex_unlock(m);
  { Inactive off; Block(t, c, "a condition"); }
  pthread_mutex_lock(m);
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_cond_signal, (pthread_cond_t *)); return real(c); }
  Step(t);
  Wake(c);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  Thread *t = Self_();
  if (!t) { REAL(int, pthread_cond_broadcast, (pthread_cond_t *)); return real(c); }
  Step(t);
  Wake(c);
  return 0;
}
int sched_yield() noexcept {
  Thread *t = Self_();
  if (t) Yield(t);
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  Thread *t = Self_();
  if (t) { Yield(t); return 0; }
  REAL(int, nanosleep, (const struct timespec *, struct timespec *));
  return real(ts, rem);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *ts, struct timespec *rem) {
  Thread *t = Self_();
  if (t) { Yield(t); return 0; }
  REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *));
  return real(c, f, ts, rem);
}

// ---------------------------------------------------------------- libc functions with hidden shared state
static void Hidden(const void *p, size_t n, const void *pc) {
  Thread *t = Self_();
  if (!t || !p) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  bool known = false;
  for (int i = 0; i < g_ntracked; ++i) known |= g_tracked[i].lo == a;
  if (!known && g_ntracked < 16) g_tracked[g_ntracked++] = {a, a + n};
  Step(t);
  Inactive off;
  Touch(t, a, n, kWrite, pc);
}
struct tm *localtime(const time_t *t) noexcept {
  REAL(struct tm *, localtime, (const time_t *));
  struct tm *r = real(t);
  Hidden(r, sizeof *r, PC);
  return r;
}
struct tm *gmtime(const time_t *t) noexcept {
  REAL(struct tm *, gmtime, (const time_t *));
  struct tm *r = real(t);
  Hidden(r, sizeof *r, PC);
  return r;
}
char *asctime(const struct tm *t) noexcept {
  REAL(char *, asctime, (const struct tm *));
  char *r = real(t);
  Hidden(r, 26, PC);
  return r;
}
char *ctime(const time_t *t) noexcept {
  REAL(char *, ctime, (const time_t *));
  char *r = real(t);
  Hidden(r, 26, PC);
  return r;
}
static char g_strtok_cell, g_locale_cell;
char *strtok(char *__restrict s, const char *__restrict d) noexcept {
  REAL(char *, strtok, (char *, const char *));
  Hidden(&g_strtok_cell, 1, PC);
  return real(s, d);
}
char *setlocale(int c, const char *l) noexcept {
  REAL(char *, setlocale, (int, const char *));
  if (l) Hidden(&g_locale_cell, 1, PC);
  return real(c, l);
}
}

namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(__guard *g) {
  char *b = reinterpret_cast<char *>(g);
  Thread *t = Self_();
  if (!t) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  Step(t);
  Inactive off;
  Point(t, 60);
  while (!b[0] && b[1]) Block(t, g, "the initialisation of a static variable");
  if (b[0]) { Acquire(t, g); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(__guard *g) noexcept {
  char *b = reinterpret_cast<char *>(g);
  b[0] = 1;
  b[1] = 0;
  Thread *t = Self_();
  if (!t) return;
  Inactive off;
  Release(t, g, true);
  Wake(g);
  Point(t, 61);
}
void __cxa_guard_abort(__guard *g) noexcept {
  char *b = reinterpret_cast<char *>(g);
  b[1] = 0;
  Thread *t = Self_();
  if (!t) return;
  Inactive off;
  Wake(g);
}
}
}  // namespace __cxxabiv1
