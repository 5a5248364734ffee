#include <sanitizer/asan_interface.h>
#include "env.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include "pugixml.hpp"

namespace sim {
namespace env {
namespace {
thread_local bool g_active = false;

struct Handle {
  NodePtr node;
  size_t pos = 0;
  int flags = 0;
  FILE *file = nullptr;
  bool open = false;
  std::string name;
  size_t written = 0;
};
const int kFdBase = 100000;
struct World {
  std::map<std::string, NodePtr> disk;
  std::set<std::string> dirs, readonly;
  std::vector<Handle> handles;
  long long now = 0, tick = 0;
};
// alloc faults are kept in plain variables: operator new must not allocate
struct AllocFault { long n; bool sticky; long span; long fired; };
}  // namespace
struct CallState {  // one per simulated thread: the library call under way
  std::vector<long long> readings;
  std::vector<Fault> faults;
  long capacity = -1;
  bool capacity_hit = false, crashed = false;
  Counts counts;
  long alloc_index = 0;
  AllocFault af[8];
  int naf = 0;
  bool memcap = false;
};
namespace {
CallState g_main_call;
thread_local CallState *g_call = nullptr;
inline CallState *C() { return g_call ? g_call : &g_main_call; }
World *W() {
  static World *w = new World;
  return w;
}
long g_live = 0;
long long g_live_bytes = 0;
void (*g_hook)(const char *) = nullptr;
void (*g_free_hook)(void *, size_t) = nullptr;

Fault *Match(const char *op) {
  World *w = W();
  long n = C()->counts.ev[op]++;
  ++C()->counts.total;
  for (auto &f : C()->faults) {
    if (f.op == op && (f.sticky ? n >= f.n : n == f.n)) {
      ++f.fired;
      return &f;
    }
  }
  return nullptr;
}

int ErrnoOf(const std::string &kind) {
  if (kind == "enospc") return ENOSPC;
  if (kind == "eacces") return EACCES;
  if (kind == "emfile") return EMFILE;
  if (kind == "eintr") return EINTR;
  if (kind == "enoent") return ENOENT;
  if (kind == "edquot") return EDQUOT;
  return EIO;
}

std::string Parent(const std::string &p) {
  size_t s = p.rfind('/');
  return s == std::string::npos ? "" : p.substr(0, s);
}
long TotalBytes() {
  long t = 0;
  for (auto &f : W()->disk) t += static_cast<long>(f.second->data.size());
  return t;
}

int OpenNode(const std::string &path, int flags) {
  World *w = W();
  if (C()->crashed) { errno = EIO; return -1; }
  Fault *f = Match("open");
  if (f != nullptr) {
    if (f->kind == "crash") { C()->crashed = true; errno = EIO; return -1; }
    if (f->kind == "crash_after") {
      if (flags & O_TRUNC) { auto it = w->disk.find(path); if (it != w->disk.end()) it->second->data.clear(); }
      C()->crashed = true;
      errno = EIO;
      return -1;
    }
    errno = ErrnoOf(f->kind);
    return -1;
  }
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (w->dirs.count(path)) {
    if (wr) { errno = EISDIR; return -1; }
  }
  if (wr && w->readonly.count(path)) { errno = EACCES; return -1; }
  auto it = w->disk.find(path);
  NodePtr node;
  if (it == w->disk.end()) {
    if (!(flags & O_CREAT) || path.empty() || !w->dirs.count(Parent(path))) {
      errno = ENOENT;
      return -1;
    }
    node = std::make_shared<Node>();
    w->disk[path] = node;
  } else {
    node = it->second;
    if (flags & O_TRUNC) node->data.clear();
  }
  size_t i = 0;
  while (i < w->handles.size() && w->handles[i].open) ++i;
  if (i == w->handles.size()) w->handles.emplace_back();
  w->handles[i] = Handle();
  w->handles[i].node = node;
  w->handles[i].flags = flags;
  w->handles[i].open = true;
  w->handles[i].name = path;
  return kFdBase + static_cast<int>(i);
}
Handle *Get(int fd) {
  if (fd < kFdBase) return nullptr;
  size_t i = static_cast<size_t>(fd - kFdBase);
  if (i >= W()->handles.size()) return nullptr;
  return &W()->handles[i];
}

ssize_t DoRead(int fd, char *buf, size_t n) {
  World *w = W();
  Handle *h = Get(fd);
  if (!h || !h->open) { errno = EBADF; return -1; }
  if (C()->crashed) { errno = EIO; return -1; }
  Fault *f = Match("read");
  size_t avail = h->pos < h->node->data.size() ? h->node->data.size() - h->pos : 0;
  size_t m = std::min(n, avail);
  if (f != nullptr) {
    if (f->kind == "short") {
      if (m > 0) m = std::min<size_t>(m, 1 + static_cast<size_t>(f->arg) % std::max<size_t>(1, m));
    } else if (f->kind == "eof") {
      m = 0;
    } else {
      errno = ErrnoOf(f->kind);
      return -1;
    }
  }
  memcpy(buf, h->node->data.data() + h->pos, m);
  h->pos += m;
  return static_cast<ssize_t>(m);
}
ssize_t DoWrite(int fd, const char *buf, size_t n) {
  World *w = W();
  Handle *h = Get(fd);
  if (!h || !h->open) { errno = EBADF; return -1; }
  if (C()->crashed) return static_cast<ssize_t>(n);
  if (h->pos + n > (64u << 20)) raise(SIGXCPU);  // runaway output; counts as a call that does not end
  Fault *f = Match("write");
  size_t m = n;
  bool crash = false;
  if (f != nullptr) {
    if (f->kind == "short") {
      if (m > 0) m = 1 + static_cast<size_t>(f->arg) % m;
    } else if (f->kind == "crash") {  // torn write: a prefix reaches the disk, then the process dies
      m = n == 0 ? 0 : static_cast<size_t>(f->arg) % (n + 1);
      crash = true;
    } else if (f->kind == "torn") {   // a prefix is written, the call reports an error
      m = n == 0 ? 0 : static_cast<size_t>(f->arg) % n;
      if (h->flags & O_APPEND) h->pos = h->node->data.size();
      if (h->node->data.size() < h->pos + m) h->node->data.resize(h->pos + m);
      memcpy(&h->node->data[0] + h->pos, buf, m);
      h->pos += m;
      h->written += m;
      errno = EIO;
      return -1;
    } else {
      errno = ErrnoOf(f->kind);
      return -1;
    }
  }
  if (C()->capacity >= 0 && n > 0) {
    long space = C()->capacity - TotalBytes();
    if (space < static_cast<long>(m)) {
      C()->capacity_hit = true;
      if (space <= 0) { errno = ENOSPC; return -1; }
      m = static_cast<size_t>(space);
    }
  }
  if (h->flags & O_APPEND) h->pos = h->node->data.size();
  if (h->node->data.size() < h->pos + m) h->node->data.resize(h->pos + m);
  if (m) memcpy(&h->node->data[0] + h->pos, buf, m);
  h->pos += m;
  h->written += m;
  if (crash) { C()->crashed = true; return static_cast<ssize_t>(n); }
  return static_cast<ssize_t>(m);
}
off_t DoSeek(int fd, off_t off, int whence) {
  Handle *h = Get(fd);
  if (!h || !h->open) { errno = EBADF; return -1; }
  Fault *f = Match("seek");
  if (f != nullptr) { errno = ErrnoOf(f->kind); return -1; }
  off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off_t>(h->pos) : static_cast<off_t>(h->node->data.size());
  if (base + off < 0) { errno = EINVAL; return -1; }
  h->pos = static_cast<size_t>(base + off);
  return base + off;
}
int DoClose(int fd) {
  World *w = W();
  Handle *h = Get(fd);
  if (!h || !h->open) { errno = EBADF; return -1; }
  h->open = false;
  h->file = nullptr;
  if (C()->crashed) { h->node.reset(); return 0; }
  Fault *f = Match("close");
  int r = 0;
  if (f != nullptr) {
    bool wr = (h->flags & O_ACCMODE) != O_RDONLY;
    if (f->kind == "crash") {
      C()->crashed = true;
    } else if (wr) {  // an error at close: data written back late is lost
      size_t lost = static_cast<size_t>(f->arg) % (std::min(h->written, h->node->data.size()) + 1);
      h->node->data.resize(h->node->data.size() - lost);
      errno = ErrnoOf(f->kind);
      r = -1;
    } else {
      errno = ErrnoOf(f->kind);
      r = -1;
    }
  }
  h->node.reset();
  return r;
}
ssize_t CookieRead(void *c, char *b, size_t n) { Pause p; return DoRead(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t CookieWrite(void *c, const char *b, size_t n) {
  Pause p;
  ssize_t r = DoWrite(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
  return r < 0 ? 0 : r;
}
int CookieSeek(void *c, off64_t *o, int wh) {
  Pause p;
  off_t r = DoSeek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, wh);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int CookieClose(void *c) { Pause p; return DoClose(static_cast<int>(reinterpret_cast<intptr_t>(c))); }

void Hook(const char *op) { if (g_hook) g_hook(op); }

int FlagsOf(const char *mode) {
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  return fl;
}
FILE *SimFopen(const char *path, const char *mode) {
  Hook("open");
  Pause p;
  int fd = OpenNode(path ? path : "", FlagsOf(mode));
  if (fd < 0) return nullptr;
  cookie_io_functions_t fn = {CookieRead, CookieWrite, CookieSeek, CookieClose};
  FILE *f = fopencookie(reinterpret_cast<void *>(static_cast<intptr_t>(fd)), mode, fn);
  Get(fd)->file = f;
  return f;
}
int FdOf(FILE *f) {
  auto &h = W()->handles;
  for (size_t i = 0; i < h.size(); ++i) if (h[i].open && h[i].file == f) return kFdBase + static_cast<int>(i);
  return -1;
}
template<class F> F Real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

long long ReadClock() {
  World *w = W();
  Fault *f = Match("clock");
  if (f != nullptr) w->now += f->arg;  // the clock jumps
  else w->now += w->tick;
  C()->readings.push_back(w->now);
  return w->now;
}

bool FailAlloc(size_t size) {
  long n = C()->alloc_index++;
  for (int i = 0; i < C()->naf; ++i) {
    if (n >= C()->af[i].n && (C()->af[i].sticky || n < C()->af[i].n + C()->af[i].span)) {
      ++C()->af[i].fired;
      return true;
    }
  }
  if (size > (256u << 20) || g_live_bytes + static_cast<long long>(size) > (1ll << 30)) {
    C()->memcap = true;
    return true;
  }
  return false;
}
}  // namespace

Pause::Pause() : was(g_active) { g_active = false; }
Pause::~Pause() { g_active = was; }

void ResetWorld() {
  World *w = W();
  *w = World();
  *C() = CallState();
  w->dirs = {"/d", "/d/sub"};
  C()->naf = 0;
  C()->memcap = false;
}
std::map<std::string, NodePtr> &Disk() { return W()->disk; }
void PutFile(const std::string &name, const std::string &data) {
  auto n = std::make_shared<Node>();
  n->data = data;
  W()->disk[name] = n;
}
bool GetFile(const std::string &name, std::string *data) {
  auto it = W()->disk.find(name);
  if (it == W()->disk.end()) return false;
  *data = it->second->data;
  return true;
}
std::map<std::string, std::string> Snapshot() {
  std::map<std::string, std::string> r;
  for (auto &p : W()->disk) r[p.first] = p.second->data;
  return r;
}
void SetDirs(const std::vector<std::string> &dirs) { W()->dirs = std::set<std::string>(dirs.begin(), dirs.end()); }
void SetReadOnly(const std::string &name, bool ro) {
  if (ro) W()->readonly.insert(name);
  else W()->readonly.erase(name);
}
void SetClock(long long sec, long long tick, const std::string &tz) {
  W()->now = sec;
  W()->tick = tick;
  setenv("TZ", tz.c_str(), 1);
  tzset();
}
const std::vector<long long> &ClockReadings() { return C()->readings; }
void Arm(const std::vector<Fault> &faults, long capacity) {
  C()->faults = faults;
  C()->capacity = capacity;
}
std::vector<Fault> &Armed() { return C()->faults; }
bool CapacityHit() { return C()->capacity_hit; }
bool Crashed() { return C()->crashed; }
bool MemCapHit() { return C()->memcap; }
bool AnyFired() {
  for (auto &f : C()->faults) if (f.fired) return true;
  return C()->capacity_hit || C()->memcap;
}
void Begin() {
  World *w = W();
  C()->counts = Counts();
  C()->readings.clear();
  C()->capacity_hit = false;
  C()->crashed = false;
  C()->alloc_index = 0;
  C()->memcap = false;
  C()->naf = 0;
  for (auto &f : C()->faults) {
    f.fired = 0;
    if (f.op == "alloc" && C()->naf < 8) C()->af[C()->naf++] = {f.n, f.sticky, std::max(1l, f.arg), 0};
  }
  g_active = true;
}
void End() {
  g_active = false;
  World *w = W();
  int i = 0;
  for (auto &f : C()->faults) if (f.op == "alloc" && i < C()->naf) f.fired = C()->af[i++].fired;
  C()->naf = 0;
  C()->counts.allocs = C()->alloc_index;
}
const Counts &LastCounts() { return C()->counts; }
long OpenHandles() {
  long n = 0;
  for (auto &h : W()->handles) n += h.open;
  return n;
}
void DropHandles() {
  for (auto &h : W()->handles) h.open = false;
}
long LiveObjects() { return g_live; }
void SetEventHook(void (*hook)(const char *)) { g_hook = hook; }
void SetFreeHook(void (*hook)(void *, size_t)) { g_free_hook = hook; }
CallState *NewCall() { return new CallState; }
void UseCall(CallState *c) { g_call = c; }
bool Active() { return g_active; }
void SetActive(bool a) { g_active = a; }

static void *PugiAlloc(size_t n) { return ::operator new(n, std::nothrow); }
static void PugiFree(void *p) { ::operator delete(p); }
void InstallPugiHooks() { pugi::set_memory_management_functions(PugiAlloc, PugiFree); }
}  // namespace env
}  // namespace sim

using namespace sim::env;  // NOLINT

// ---------------------------------------------------------------- memory
namespace {
struct Head { uint64_t counted; uint64_t size; uint64_t pad[2]; };
void *New(size_t n) {
  bool count = g_active;
  if (count && FailAlloc(n)) return nullptr;
  Head *h = static_cast<Head *>(malloc(n + sizeof(Head)));
  if (!h) return nullptr;
  h->counted = count ? 0xC0DEu : 0;
  h->size = n;
  if (count) { ++g_live; g_live_bytes += static_cast<long long>(n); }
  ASAN_POISON_MEMORY_REGION(h, sizeof(Head));
  return h + 1;
}
void Delete(void *p) {
  if (!p) return;
  Head *h = static_cast<Head *>(p) - 1;
  ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Head));
  if (g_free_hook) g_free_hook(p, h->size);
  if (h->counted == 0xC0DEu) { --g_live; g_live_bytes -= static_cast<long long>(h->size); h->counted = 0; }
  free(h);
}
}  // namespace
void *operator new(size_t n) {
  void *p = New(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return New(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return New(n); }
void operator delete(void *p) noexcept { Delete(p); }
void operator delete[](void *p) noexcept { Delete(p); }
void operator delete(void *p, size_t) noexcept { Delete(p); }
void operator delete[](void *p, size_t) noexcept { Delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { Delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { Delete(p); }

// ---------------------------------------------------------------- libc
extern "C" {
FILE *fopen(const char *path, const char *mode) {
  if (g_active) return SimFopen(path, mode);
  static auto real = Real<FILE *(*)(const char *, const char *)>("fopen");
  return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fileno(FILE *f) noexcept {
  int fd = FdOf(f);
  if (fd >= 0) return fd;
  static auto real = Real<int (*)(FILE *)>("fileno");
  return real(f);
}
int fclose(FILE *f) {
  if (FdOf(f) >= 0) Hook("close");
  static auto real = Real<int (*)(FILE *)>("fclose");
  return real(f);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd >= kFdBase) { Hook("read"); Pause p; return DoRead(fd, static_cast<char *>(b), n); }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd >= kFdBase) { Hook("write"); Pause p; return DoWrite(fd, static_cast<const char *>(b), n); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd >= kFdBase) {
    Hook("write");
    Pause p;
    std::string all;
    for (int i = 0; i < c; ++i) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
    return DoWrite(fd, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (fd >= kFdBase) { Pause p; return DoSeek(fd, o, w); }
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) {
  if (fd >= kFdBase) { Hook("close"); Pause p; return DoClose(fd); }
  return static_cast<int>(syscall(SYS_close, fd));
}
int open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (g_active) { Hook("open"); Pause p; return OpenNode(path, flags); }
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return open(path, flags, mode);
}
static void FillStat(Handle *h, const NodePtr &n, struct stat *st) {
  (void)h;
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = static_cast<off_t>(n->data.size());
  st->st_nlink = 1;
}
int fstat(int fd, struct stat *st) noexcept {
  if (fd >= kFdBase) {
    Handle *h = Get(fd);
    if (!h || !h->open) { errno = EBADF; return -1; }
    FillStat(h, h->node, st);
    return 0;
  }
  return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, reinterpret_cast<struct stat *>(st)); }
int stat(const char *path, struct stat *st) noexcept {
  if (g_active) {
    Pause p;
    auto it = W()->disk.find(path);
    if (it != W()->disk.end()) { FillStat(nullptr, it->second, st); return 0; }
    if (W()->dirs.count(path)) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
    errno = ENOENT;
    return -1;
  }
  return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
}
int access(const char *path, int m) noexcept {
  if (g_active) {
    Pause p;
    if (W()->disk.count(path) || W()->dirs.count(path)) return 0;
    errno = ENOENT;
    return -1;
  }
  return static_cast<int>(syscall(SYS_faccessat, AT_FDCWD, path, m));
}
int unlink(const char *path) noexcept {
  if (g_active) {
    Pause p;
    if (C()->crashed) return 0;
    Match("unlink");
    if (W()->disk.erase(path)) return 0;
    errno = ENOENT;
    return -1;
  }
  return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, path, 0));
}
int remove(const char *path) noexcept {
  if (g_active) return unlink(path);
  static auto real = Real<int (*)(const char *)>("remove");
  return real(path);
}
int rename(const char *a, const char *b) noexcept {
  if (g_active) {
    Pause p;
    World *w = W();
    if (C()->crashed) { errno = EIO; return -1; }
    Fault *f = Match("rename");
    if (f) { if (f->kind == "crash") C()->crashed = true; errno = ErrnoOf(f->kind); return -1; }
    auto it = w->disk.find(a);
    if (it == w->disk.end()) { errno = ENOENT; return -1; }
    NodePtr n = it->second;
    w->disk.erase(it);
    w->disk[b] = n;
    return 0;
  }
  return static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int ftruncate(int fd, off_t len) noexcept {
  if (fd >= kFdBase) {
    Handle *h = Get(fd);
    if (!h || !h->open) { errno = EBADF; return -1; }
    if (!C()->crashed) h->node->data.resize(static_cast<size_t>(len));
    return 0;
  }
  return static_cast<int>(syscall(SYS_ftruncate, fd, len));
}
int fsync(int fd) {
  if (fd >= kFdBase) return 0;
  return static_cast<int>(syscall(SYS_fsync, fd));
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (fd >= kFdBase) { errno = ENOTTY; return -1; }
  return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
}
time_t time(time_t *t) noexcept {
  if (g_active) {
    Pause p;
    time_t v = ReadClock();
    if (t) *t = v;
    return v;
  }
  return static_cast<time_t>(syscall(SYS_time, t));
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (g_active && c == CLOCK_REALTIME) { Pause p; ts->tv_sec = ReadClock(); ts->tv_nsec = 0; return 0; }
  return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) noexcept {
  (void)tz;
  if (g_active) { Pause p; tv->tv_sec = ReadClock(); tv->tv_usec = 0; return 0; }
  return static_cast<int>(syscall(SYS_gettimeofday, tv, nullptr));
}
}
