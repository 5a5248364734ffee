// Driver: generates plans from seeds, executes every plan in a process of its own, minimises failing plans.
//   sim gen  PROP SEED TIER                 print the plan of a seed
//   sim run  PROP PLANFILE [-v]             execute one plan; exit 0 held, 1 violated
//   sim batch PROP TIER SEED0 COUNT SECONDS OUT   execute the plans of COUNT seeds (stop after SECONDS)
//   sim min  PROP PLANFILE OUT SECONDS      minimise a violating plan
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <ctime>
#include <functional>
#include <iostream>
#include "common.h"
#include "worlds.h"

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=8:malloc_context_size=8:max_allocation_size_mb=2000";
}
extern "C" const char *__ubsan_default_options() { return "exitcode=77:print_stacktrace=0"; }

namespace sim {
namespace {
const size_t kShm = 16u << 20;
char *g_shm;      // [0,8): length, then bytes
char *g_err;      // stderr of the child
int g_errfd = -1;

void Publish(const std::string &s) {
  uint64_t n = std::min(s.size(), kShm - 16);
  memcpy(g_shm + 8, s.data(), n);
  memcpy(g_shm, &n, 8);
}
std::string Published() {
  uint64_t n;
  memcpy(&n, g_shm, 8);
  return std::string(g_shm + 8, n);
}
double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
std::string ErrSummary() {
  off_t n = lseek(g_errfd, 0, SEEK_END);
  std::string s(static_cast<size_t>(std::min<off_t>(n, 200000)), ' ');
  if (pread(g_errfd, &s[0], s.size(), 0) < 0) s.clear();
  std::string best;
  for (const char *key : {"runtime error:", "SUMMARY:", "Assertion", "what():", "terminate called"}) {
    size_t p = s.find(key);
    if (p != std::string::npos) {
      size_t b = s.rfind('\n', p), e = s.find('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      best = s.substr(b, e == std::string::npos ? std::string::npos : e - b);
      break;
    }
  }
  if (best.empty()) best = s.substr(0, s.find('\n'));
  for (char &c : best) if (static_cast<unsigned char>(c) < 32) c = ' ';
  return best;
}
// Runs f in a child process.  "" if it ended normally, else how it died.
std::string InChild(const std::function<void()> &f) {
  uint64_t zero = 0;
  memcpy(g_shm, &zero, 8);
  if (ftruncate(g_errfd, 0) != 0) abort();
  lseek(g_errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    dup2(g_errfd, 2);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 1);
    struct rlimit rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    alarm(200);  // blocked without using the processor
    f();
    _exit(0);
  }
  int st = 0;
  double t0 = Now();
  int flags = 0;
  // a run that does not use CPU at all (blocked for ever) is ended by the clock
  for (;;) {
    pid_t w = waitpid(p, &st, flags);
    if (w == p) break;
    (void)t0;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  std::string s;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM)) return "hang: the call did not end (20 s of processor time)";
  if (WIFSIGNALED(st)) s = "signal " + std::to_string(WTERMSIG(st));
  else s = "exit " + std::to_string(WEXITSTATUS(st));
  return s + ": " + ErrSummary();
}

std::string Pack(const Result &r) {
  std::ostringstream o;
  std::string d = r.detail;
  for (char &c : d) if (static_cast<unsigned char>(c) < 32) c = ' ';
  o << (r.violated ? 1 : 0) << " " << r.hash << "\n" << r.cls << "\n" << d.substr(0, 2000) << "\n" << r.stats.size() << "\n";
  for (auto &s : r.stats) o << s.first << " " << s.second << "\n";
  o << r.states.size() << "\n";
  for (auto s : r.states) o << s << "\n";
  return o.str();
}
bool Unpack(const std::string &t, Result *r) {
  std::istringstream i(t);
  int v;
  if (!(i >> v >> r->hash)) return false;
  r->violated = v != 0;
  i.ignore();
  std::getline(i, r->cls);
  std::getline(i, r->detail);
  size_t n;
  if (!(i >> n)) return false;
  for (size_t k = 0; k < n; ++k) { std::string a; long b; i >> a >> b; r->stats[a] = b; }
  if (!(i >> n)) return false;
  for (size_t k = 0; k < n; ++k) { uint64_t h; i >> h; r->states.insert(h); }
  return !i.fail();
}
void RunPlan(const std::string &prop, const std::string &plan, Result *r) {
  std::string died = InChild([&]() {
    Result c;
    Execute(prop, Plan::Parse(plan), &c);
    Publish(Pack(c));
  });
  if (!died.empty()) {
    *r = Result();
    r->Violate(died.compare(0, 4, "hang") == 0 ? "hang" : "crash", "the process was ended: " + died);
    // the text may hold addresses, so it does not go into the hash
    r->hash = HashStr(r->cls);
    return;
  }
  if (!Unpack(Published(), r)) { fprintf(stderr, "harness: no result\n"); exit(3); }
}
// The plan of a seed; false if generating it (which runs the library without faults) crashed - then the plan
// that was being run is returned.
std::string PlanOf(const std::string &prop, uint64_t seed, const std::string &tier) {
  InChild([&]() {
    Plan p = GeneratePlan(prop, seed, tier);
    Publish(p.Text());
  });
  return Published();
}
std::string ReadFile(const std::string &f) {
  FILE *h = fopen(f.c_str(), "rb");
  if (!h) { perror(f.c_str()); exit(3); }
  std::string r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n);
  fclose(h);
  return r;
}
void WriteFile(const std::string &f, const std::string &s) {
  FILE *h = fopen(f.c_str(), "wb");
  if (!h) { perror(f.c_str()); exit(3); }
  fwrite(s.data(), 1, s.size(), h);
  fclose(h);
}
std::string Js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

int Batch(const std::string &prop, const std::string &tier, uint64_t seed0, long count, double seconds, const std::string &out) {
  double t0 = Now();
  long runs = 0, nontrivial = 0;
  std::map<std::string, long> stats;
  std::set<uint64_t> states, hashes, plans;
  std::string viol, samples;
  int nviol = 0, nsamples = 0;
  for (long i = 0; i < count && Now() - t0 < seconds && nviol < 3; ++i) {
    uint64_t seed = seed0 + static_cast<uint64_t>(i);
    std::string plan = PlanOf(prop, seed, tier);
    if (plan.empty()) { fprintf(stderr, "harness: no plan for seed %lu: %s\n", seed, ErrSummary().c_str()); return 3; }
    Result r;
    RunPlan(prop, plan, &r);
    ++runs;
    for (auto &s : r.stats) stats[s.first] += s.second;
    bool fault = false;
    for (auto &s : r.stats) fault |= s.first.compare(0, 6, "fault:") == 0 || s.first == "crashes" || s.first == "nontrivial";
    if (fault && hashes.insert(r.hash).second) ++nontrivial;
    plans.insert(HashStr(plan));
    for (auto s : r.states) if (states.size() < 400000) states.insert(s);
    if (nsamples < 2 && fault) {
      samples += std::string(nsamples ? "," : "") + "{\"seed\":" + std::to_string(seed) + ",\"plan\":" + Js(plan.substr(0, 3000)) + ",\"trace_hash\":\"" + std::to_string(r.hash) + "\"}";
      ++nsamples;
    }
    if (r.violated) {
      viol += std::string(nviol ? "," : "") + "{\"seed\":" + std::to_string(seed) + ",\"cls\":" + Js(r.cls) + ",\"detail\":" + Js(r.detail) + ",\"plan\":" + Js(plan) + "}";
      ++nviol;
    }
  }
  std::string j = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontrivial) + ",\"plans\":" + std::to_string(plans.size()) + ",\"seconds\":" + std::to_string(Now() - t0) + ",\"stats\":{";
  bool first = true;
  for (auto &s : stats) { j += (first ? "" : ",") + Js(s.first) + ":" + std::to_string(s.second); first = false; }
  j += "},\"violations\":[" + viol + "],\"samples\":[" + samples + "],\"hashes\":[";
  first = true;
  for (auto h : hashes) { j += (first ? "\"" : ",\"") + std::to_string(h) + "\""; first = false; }
  j += "],\"states\":[";
  first = true;
  for (auto h : states) { j += (first ? "\"" : ",\"") + std::to_string(h) + "\""; first = false; }
  j += "]}\n";
  WriteFile(out, j);
  return 0;
}

int Minimise(const std::string &prop, const std::string &file, const std::string &out, double seconds) {
  double t0 = Now();
  Plan p = Plan::Parse(ReadFile(file));
  Result base;
  RunPlan(prop, p.Text(), &base);
  if (!base.violated) { WriteFile(out, p.Text()); return 0; }
  auto fails = [&](const Plan &q) {
    if (Now() - t0 > seconds) return false;
    Result r;
    RunPlan(prop, q.Text(), &r);
    return r.violated && r.cls == base.cls;
  };
  bool progress = true;
  while (progress && Now() - t0 < seconds) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, p.lines.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < p.lines.size();) {
        Plan q = p;
        q.lines.erase(q.lines.begin() + static_cast<long>(i), q.lines.begin() + static_cast<long>(std::min(i + chunk, q.lines.size())));
        if (fails(q)) { p = q; progress = true; } else { i += chunk; }
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.lines.size(); ++i) {
      for (size_t k = 0; k < p.lines[i].kv.size(); ++k) {
        std::string key = p.lines[i].kv[k].first;
        if (key == "id" || key == "t" || key == "rep" || key == "seed" || key == "file" || key == "in" || key == "out" || key == "fmt" || key == "kind" || key == "op" || key == "name") continue;
        std::string v = p.lines[i].kv[k].second;
        // lists: drop an element; integers: towards zero
        if (v.find(',') != std::string::npos) {
          if (key == "deg" || key == "n" || key == "scat") {
            std::vector<int> e = p.lines[i].Ints(key);
            for (size_t m = 0; m < e.size(); ++m) {
              for (int t : {0, 1, e[m] / 2, e[m] - 1}) {
                if (t >= e[m] || t < 0) continue;
                std::vector<int> f = e;
                f[m] = t;
                Plan q = p;
                q.lines[i].kv[k].second = JoinInts(f);
                if (fails(q)) { p = q; e = f; progress = true; break; }
              }
            }
          } else {
            std::vector<int> e = p.lines[i].Ints(key);
            for (size_t m = 0; m < e.size() && e.size() > 1;) {
              std::vector<int> f = e;
              f.erase(f.begin() + static_cast<long>(m));
              Plan q = p;
              q.lines[i].kv[k].second = JoinInts(f);
              if (fails(q)) { p = q; e = f; progress = true; } else { ++m; }
            }
          }
        } else if (!v.empty() && v.find_first_not_of("0123456789-") == std::string::npos) {
          long long x = atoll(v.c_str());
          for (long long t : {0ll, 1ll, x / 2, x - 1}) {
            if (t >= x || t < 0) continue;
            Plan q = p;
            q.lines[i].kv[k].second = std::to_string(t);
            if (fails(q)) { p = q; progress = true; break; }
          }
        }
      }
    }
  }
  WriteFile(out, p.Text());
  return 0;
}
}  // namespace

void PublishPlan(const Plan &p) { if (g_shm) Publish(p.Text()); }

int Main(int argc, char **argv) {
  setenv("TZ", "UTC0", 1);
  tzset();
  g_shm = static_cast<char *>(mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_errfd = memfd_create("err", 0);
  WarmUp();
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 5) {
    std::cout << PlanOf(argv[2], strtoull(argv[3], nullptr, 10), argv[4]);
    return 0;
  }
  if (mode == "run" && argc >= 4) {
    std::string text = ReadFile(argv[3]);
    Result r;
    if (argc > 4 && std::string(argv[4]) == "-v") {
      r.keep_log = true;
      Execute(argv[2], Plan::Parse(text), &r);
      for (auto &l : r.log) std::cout << l << "\n";
    } else {
      RunPlan(argv[2], text, &r);
    }
    std::cout << "HASH " << r.hash << "\n";
    for (auto &s : r.stats) std::cout << "STAT " << s.first << " " << s.second << "\n";
    if (r.violated) { std::cout << "VIOLATED " << r.cls << ": " << r.detail << "\n"; return 1; }
    return 0;
  }
  if (mode == "batch" && argc >= 8) return Batch(argv[2], argv[3], strtoull(argv[4], nullptr, 10), atol(argv[5]), atof(argv[6]), argv[7]);
  if (mode == "min" && argc >= 6) return Minimise(argv[2], argv[3], argv[4], atof(argv[5]));
  fprintf(stderr, "usage: sim gen|run|batch|min ...\n");
  return 2;
}
}  // namespace sim
int main(int argc, char **argv) { return sim::Main(argc, argv); }
