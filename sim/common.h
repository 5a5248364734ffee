// Shared pieces of the simulator: PRNG, plans, results.  No SplineLib code in here.
#ifndef SIM_COMMON_H_
#define SIM_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

struct Rng {  // splitmix64: one integer decides everything
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { Next(); Next(); }
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int Range(int lo, int hi) { return lo + static_cast<int>(Below(static_cast<uint64_t>(hi - lo) + 1)); }
  double Unit() { return static_cast<double>(Next() >> 11) / 9007199254740992.0; }
  bool Chance(double p) { return Unit() < p; }
  template<class T> const T &Pick(const std::vector<T> &v) { return v[Below(v.size())]; }
};

// A plan is a list of lines "kind key=value ...".  It is the complete description of one simulated execution:
// operations, faults (at explicit event indices) and scheduler switches.  The executor is a pure function of it.
struct Line {
  std::string kind;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() = default;
  explicit Line(std::string k) : kind(std::move(k)) {}
  Line &Set(const std::string &k, const std::string &v) {
    for (auto &p : kv) if (p.first == k) { p.second = v; return *this; }
    kv.emplace_back(k, v);
    return *this;
  }
  Line &Set(const std::string &k, long long v) { return Set(k, std::to_string(v)); }
  bool Has(const std::string &k) const {
    for (auto &p : kv) if (p.first == k) return true;
    return false;
  }
  std::string Str(const std::string &k, const std::string &def = "") const {
    for (auto &p : kv) if (p.first == k) return p.second;
    return def;
  }
  long long Int(const std::string &k, long long def = 0) const {
    for (auto &p : kv) if (p.first == k) return atoll(p.second.c_str());
    return def;
  }
  std::vector<int> Ints(const std::string &k) const {
    std::vector<int> r;
    std::string v = Str(k), t;
    std::stringstream ss(v);
    while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back(atoi(t.c_str()));
    return r;
  }
};
inline std::string JoinInts(const std::vector<int> &v) {
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
  return r;
}

struct Plan {
  std::vector<Line> lines;
  Line &Add(const std::string &kind) { lines.emplace_back(kind); return lines.back(); }
  std::string Text() const {
    std::string r;
    for (auto &l : lines) {
      r += l.kind;
      for (auto &p : l.kv) r += " " + p.first + "=" + p.second;
      r += "\n";
    }
    return r;
  }
  static Plan Parse(const std::string &text) {
    Plan p;
    std::stringstream ss(text);
    std::string line;
    while (std::getline(ss, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::stringstream ls(line);
      std::string w;
      ls >> w;
      if (w.empty()) continue;
      p.lines.emplace_back(w);
      while (ls >> w) {
        size_t e = w.find('=');
        if (e != std::string::npos) p.lines.back().Set(w.substr(0, e), w.substr(e + 1));
      }
    }
    return p;
  }
};

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t HashStr(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline uint64_t HashDouble(double d) {
  if (d != d) return 0x7ff8dead;
  if (d == 0) d = 0;
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

struct Result {
  bool violated = false;
  std::string cls;      // class of the violation
  std::string detail;
  uint64_t hash = 7;    // hash over everything observable in the run (event log)
  std::vector<std::string> log;
  std::map<std::string, long> stats;
  std::set<uint64_t> states;
  bool keep_log = false;
  void Log(const std::string &s) {
    hash = Mix(hash, HashStr(s));
    if (keep_log) log.push_back(s);
  }
  void Violate(const std::string &c, const std::string &d) {
    if (violated) return;
    violated = true;
    cls = c;
    detail = d;
    Log("VIOLATION " + c + ": " + d);
  }
  void Count(const std::string &k, long n = 1) { stats[k] += n; }
};

// Implemented by each world.
Plan GeneratePlan(const std::string &prop, uint64_t seed, const std::string &tier);
void Execute(const std::string &prop, const Plan &plan, Result *result);

}  // namespace sim
#endif
