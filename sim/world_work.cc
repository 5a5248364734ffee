// The workbench world: one user, many splines, generators and knot vectors that share data; histories of operations
// with failing allocations.  Everything is checked against the independent model in model.cc.
#include <new>
#include <stdexcept>
#include "env.h"
#include "glue_work.h"
#include "worlds.h"
namespace sim {
namespace {
const char *kOps[] = {"new", "same", "gen", "make", "copy", "assign", "reuse", "drop", "insert", "refine", "remove", "insrem", "elevate", "reduce",
                      "elred", "almost", "divide", "query", "ask", "bad", "random", "square", "sweep", "burn"};
bool IsOp(const std::string &k) {
  for (auto o : kOps) if (k == o) return true;
  return false;
}
std::string Num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.12g", v);
  return b;
}
double MaxAbs(const MSpline &s) {
  double m = 0;
  for (double v : s.cp) m = std::max(m, std::fabs(v));
  return m;
}
double MaxNorm(const MSpline &s) {
  double m = 0;
  for (int i = 0; i < s.Total(); ++i) {
    double q = 0;
    for (int c = 0; c < s.pd; ++c) q += s.cp[i * s.pd + c] * s.cp[i * s.pd + c];
    m = std::max(m, std::sqrt(q));
  }
  return m;
}
double MinW(const MSpline &s) {
  double m = 1;
  if (s.rat) { m = s.w[0]; for (double v : s.w) m = std::min(m, v); }
  return m;
}
double MaxW(const MSpline &s) {
  double m = 1;
  if (s.rat) { m = s.w[0]; for (double v : s.w) m = std::max(m, std::fabs(v)); }
  return m;
}
bool Finite(const MSpline &s) {
  for (double v : s.cp) if (!std::isfinite(v)) return false;
  for (double v : s.w) if (!std::isfinite(v)) return false;
  return true;
}
int Mult(const std::vector<double> &k, double u) { return static_cast<int>(std::count(k.begin(), k.end(), u)); }
std::vector<double> Distinct(const std::vector<double> &k) {
  std::vector<double> r(k);
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
// largest inner multiplicity
int InnerMult(const MSpline &s, int d) {
  int m = 0;
  for (double u : Distinct(s.knots[d])) if (u != s.Lo(d) && u != s.Hi(d)) m = std::max(m, Mult(s.knots[d], u));
  return m;
}

struct Slot {
  WPtr obj;
  MSpline cur;      // state as last observed
  MSpline truth;    // geometry it has to have, on its own (sub)domain
  double slack = 0; // accumulated tolerance granted by the user
  int knots = -1;   // index of the user's knot vectors it was built from
  int gen = -1;
};
struct UserKnots { std::shared_ptr<WKnots> k; std::vector<std::vector<double>> v; MSpline base; };
struct UserGen { std::shared_ptr<WGen> g; MSpline m; };

struct Work {
  std::string prop;
  Result *r;
  bool record = false;                 // fault-free run that records allocation counts
  std::vector<long> allocs;            // per op line (record)
  std::vector<Slot> slots;
  std::vector<UserKnots> knots;
  std::vector<UserGen> gens;
  std::vector<MSpline> recipes;
  const Line *op = nullptr;
  long line_allocs = 0;
  std::vector<env::Fault> pending;

  bool Mine(const std::string &cls) const {
    if (cls == "malformed") return prop == "P11" || prop == "P12" || prop == "P13" || prop == "P14";
    if (prop == "P11") return cls == "geometry";
    if (prop == "P12") return cls == "structure";
    if (prop == "P13") return cls == "isolation";
    if (prop == "P14") return cls == "atomicity" || cls == "leak" || cls == "rejected";
    if (prop == "P15") return cls == "query";
    if (prop == "P16") return cls == "generator";
    return false;
  }
  void Bad(const std::string &cls, const std::string &what) {
    if (Mine(cls)) r->Violate(cls, "operation " + (op ? op->kind : "") + ": " + what);
    else { r->Count("foreign:" + cls); r->Log("foreign " + cls + ": " + what); }
    stop_ = true;
  }
  bool stop_ = false;

  // ------------------------------------------------------------ calls
  enum Out { kOk, kNoMem, kThrown, kOther };
  std::string what_;
  bool fired_ = false;
  long live_delta_ = 0;
  template<class F> Out Call(const F &f) {
    env::Arm(pending, -1);
    pending.clear();
    long live = env::LiveObjects();
    Out o = kOk;
    what_.clear();
    {
      try {
        env::Scope scope;
        f();
      } catch (const std::bad_alloc &e) { o = kNoMem; what_ = "std::bad_alloc";
      } catch (const std::runtime_error &e) { o = kThrown; what_ = e.what();
      } catch (const std::exception &e) { o = kOther; what_ = std::string("exception of another type: ") + e.what();
      } catch (...) { o = kOther; what_ = "exception of unknown type"; }
    }
    fired_ = env::AnyFired();
    line_allocs += env::LastCounts().allocs;
    if (fired_) { r->Count("fault:alloc"); r->Count("alloc-faults"); }
    live_delta_ = env::LiveObjects() - live;
    env::Arm({}, -1);
    return o;
  }

  // ------------------------------------------------------------ oracles
  // no two conventions need agree on the value right at a jump: `other` may jump where s no longer does
  static bool Jumps(const MSpline &s, int d, double u) { return Mult(s.knots[d], u) > s.deg[d]; }
  std::vector<double> Sample(const MSpline &s, const MSpline &other, Rng *g, int mode) const {
    auto u = Sample(s, g, mode);
    for (int d = 0; d < s.dim; ++d)
      for (int i = 0; i < 4 && Jumps(other, d, u[d]) && u[d] != other.Lo(d) && u[d] != other.Hi(d); ++i)
        u[d] = s.Lo(d) + (s.Hi(d) - s.Lo(d)) * (0.25 + 0.5 * g->Unit());
    return u;
  }
  std::vector<double> Sample(const MSpline &s, Rng *g, int mode) const {
    std::vector<double> u(s.dim);
    for (int d = 0; d < s.dim; ++d) {
      double lo = s.Lo(d), hi = s.Hi(d);
      int m = mode == 0 ? 0 : static_cast<int>(g->Below(4));
      if (s.deg[d] == 0) m = std::min(m, 1);
      auto k = Distinct(s.knots[d]);
      if (m <= 1) u[d] = lo + (hi - lo) * (0.001 + 0.998 * g->Unit());
      else if (m == 2) u[d] = k[g->Below(k.size())];
      else { size_t i = g->Below(k.size() - 1); u[d] = 0.5 * (k[i] + k[i + 1]); }
      u[d] = std::min(std::max(u[d], lo), hi);
      if (s.deg[d] == 0 && Mult(s.knots[d], u[d])) u[d] = 0.5 * (k[0] + k[1]);
    }
    return u;
  }
  double NumTol(const MSpline &s) const {
    double w = MinW(s);
    double cond = s.rat ? MaxW(s) / std::max(w, 1e-6) : 1;
    return 1e-8 * (1 + MaxAbs(s)) * std::max(1.0, cond);
  }
  std::string At(const std::vector<double> &u) const {
    std::string t;
    for (double x : u) t += (t.empty() ? "" : ",") + Num(x);
    return "(" + t + ")";
  }
  // both as models, on the domain of a
  std::string SameGeometry(const MSpline &a, const MSpline &b, double tol, uint64_t seed, int n = 8) const {
    Rng g(seed);
    for (int i = 0; i < n; ++i) {
      auto u = Sample(a, b, &g, i < 2 ? 0 : 1);
      for (int d = 0; d < b.dim; ++d) if (u[d] < b.Lo(d) || u[d] > b.Hi(d)) return "domain has grown to include " + At(u);
      auto x = EvalModel(a, u), y = EvalModel(b, u);
      for (size_t c = 0; c < x.size(); ++c) if (!(std::fabs(static_cast<double>(x[c] - y[c])) <= tol)) return "at " + At(u) + " coordinate " + std::to_string(c) + " is " + Num(static_cast<double>(x[c])) + " instead of " + Num(static_cast<double>(y[c])) + " (tolerance " + Num(tol) + ")";
    }
    return "";
  }
  void CheckLibGeometry(const Slot &s, uint64_t seed, const char *what) {
    if (prop != "P11" || stop_) return;
    Rng g(seed);
    std::vector<int> dims;
    for (int c = 0; c < s.cur.pd; ++c) dims.push_back(c);
    double tol = NumTol(s.cur) + NumTol(s.truth) + s.slack;
    for (int i = 0; i < 4; ++i) {
      auto u = Sample(s.cur, s.truth, &g, i < 1 ? 0 : 1);
      std::vector<double> got = s.obj->Eval(u, dims);
      auto want = EvalModel(s.truth, u);
      for (int c = 0; c < s.cur.pd; ++c) {
        if (!(std::fabs(got[c] - static_cast<double>(want[c])) <= tol)) return Bad("geometry", std::string(what) + ": evaluating " + Describe(s.cur) + " at " + At(u) + " gives coordinate " + std::to_string(c) + " = " + Num(got[c]) + " instead of " + Num(static_cast<double>(want[c])) + " (tolerance " + Num(tol) + ")");
      }
    }
  }
  // observe a slot; Bad if malformed
  bool Observe(Slot *s, MSpline *m) {
    std::string e = s->obj->Extract(m);
    if (!e.empty()) { Bad("malformed", "a spline is malformed afterwards: " + e); return false; }
    return true;
  }
  // every object but those in `except` is bit for bit what it was
  void CheckOthers(const std::vector<int> &except, const char *cls) {
    if (stop_) return;
    for (size_t i = 0; i < slots.size(); ++i) {
      if (!slots[i].obj || std::find(except.begin(), except.end(), static_cast<int>(i)) != except.end()) continue;
      MSpline m;
      std::string e = slots[i].obj->Extract(&m);
      if (e.empty()) e = SameExactly(slots[i].cur, m);
      if (!e.empty()) return Bad(cls, "spline " + std::to_string(i) + " (" + Describe(slots[i].cur) + ") changed: " + e);
      if (prop == "P13") {  // what it evaluates to, too
        Rng g(op ? HashStr(op->kind) + i : i);
        auto u = Sample(slots[i].cur, &g, 1);
        std::vector<int> dims{static_cast<int>(g.Below(slots[i].cur.pd))};
        double got = slots[i].obj->Eval(u, dims)[0], want = static_cast<double>(EvalModel(slots[i].cur, u)[dims[0]]);
        if (!(std::fabs(got - want) <= NumTol(slots[i].cur))) return Bad(cls, "spline " + std::to_string(i) + " evaluates to " + Num(got) + " instead of " + Num(want) + " at " + At(u));
      }
    }
    for (size_t i = 0; i < knots.size(); ++i) {
      if (knots[i].k->Values() != knots[i].v) return Bad(cls, "knot vectors held by the user changed");
    }
    for (size_t i = 0; i < gens.size(); ++i) {
      MSpline m;
      std::string e = gens[i].g->Make()->Extract(&m);
      if (e.empty()) e = SameExactly(gens[i].m, m);
      if (!e.empty()) return Bad(cls, "a generator held by the user changed: " + e);
    }
  }
  std::string OtherDirections(const MSpline &a, const MSpline &b, int d) const {
    if (a.dim != b.dim || a.pd != b.pd || a.rat != b.rat) return "kind of spline changed";
    for (int e = 0; e < a.dim; ++e) if (e != d && (a.deg[e] != b.deg[e] || a.knots[e] != b.knots[e])) return "direction " + std::to_string(e) + " changed";
    return "";
  }
  void StepGeometry(const Slot &s, const MSpline &before, double granted, const char *what) {
    if (stop_ || prop != "P11") return;
    double tol = NumTol(before) + NumTol(s.cur) + granted;
    std::string e = Finite(s.cur) ? SameGeometry(s.cur, before, tol, HashSpline(before)) : "control points are no finite numbers";
    if (!e.empty()) return Bad("geometry", std::string(what) + ": geometry of " + Describe(before) + " changed: " + e);
    CheckLibGeometry(s, HashSpline(s.cur), what);
  }

  // Runs a modifying call on slot t, with the faults of this line; a failed one is checked to have had no effect and repeated
  // without faults.  Returns the outcome of the last call.
  template<class F> Out Modify(int t, const F &f) {
    pending.clear();
    if (op->Has("af")) {
      env::Fault a;
      a.op = "alloc";
      a.n = op->Int("af");
      a.sticky = op->Int("as") != 0;
      a.arg = 1;
      pending.push_back(a);
    }
    auto faults = pending;
    Out o = Call(f);
    if (o == kOk) return o;
    if (o == kOther) { Bad("atomicity", what_); return o; }
    if (o == kNoMem && !fired_) { Bad("atomicity", "out of memory without a failing allocation"); return o; }
    if (live_delta_ > 0) {  // memory kept once may be a cache; memory kept every time is lost
      auto again = faults;
      std::string first = what_;
      long grown = 0;
      for (int i = 0; i < 3; ++i) {
        pending = again;
        if (Call(f) == kOk) { grown = 0; break; }
        grown += live_delta_ > 0;
      }
      if (grown == 3) Bad("leak", "a failed call (" + first + ") leaves allocations behind each time it is made");
      what_ = first;
    }
    if (stop_) return o;
    r->Count("failed-calls");
    MSpline m;
    if (t >= 0) {
      std::string e = slots[t].obj->Extract(&m);
      if (e.empty()) e = SameExactly(slots[t].cur, m);
      if (!e.empty()) { Bad("atomicity", "a failed call (" + what_ + ") changed the spline: " + e); return o; }
      if (prop == "P14") QueryEval(slots[t], 77, "atomicity");
    }
    CheckOthers({t}, "atomicity");
    if (stop_) return o;
    if (o == kNoMem) {
      o = Call(f);
      if (o == kOther || o == kNoMem) Bad("atomicity", "repeating a call that ran out of memory fails: " + what_);
    }
    return o;
  }

  void QueryEval(const Slot &s, uint64_t seed, const char *cls) {
    Rng g(seed);
    std::vector<int> dims;
    int n = 1 + static_cast<int>(g.Below(s.cur.pd));
    for (int i = 0; i < n; ++i) dims.push_back(static_cast<int>(g.Below(s.cur.pd)));
    auto u = Sample(s.cur, &g, 1);
    auto got = s.obj->Eval(u, dims);
    auto want = EvalModel(s.cur, u);
    if (got.size() != dims.size()) return Bad(cls, "evaluation returns " + std::to_string(got.size()) + " values instead of " + std::to_string(dims.size()));
    for (size_t i = 0; i < dims.size(); ++i) {
      if (!(std::fabs(got[i] - static_cast<double>(want[dims[i]])) <= NumTol(s.cur))) return Bad(cls, "evaluating " + Describe(s.cur) + " at " + At(u) + " gives coordinate " + std::to_string(dims[i]) + " = " + Num(got[i]) + " instead of " + Num(static_cast<double>(want[dims[i]])));
    }
  }

  Slot *Pick(const char *key, int *index = nullptr) {
    std::vector<int> alive;
    for (size_t i = 0; i < slots.size(); ++i) if (slots[i].obj) alive.push_back(static_cast<int>(i));
    if (alive.empty()) return nullptr;
    int i = alive[static_cast<size_t>(op->Int(key)) % alive.size()];
    if (index) *index = i;
    return &slots[i];
  }
  void AddSlot(const Slot &s) {
    Slot t = s;
    if (slots.size() < 9) { slots.push_back(t); return; }
    size_t i = static_cast<size_t>(op->Int("s")) % slots.size();
    slots[i] = t;
  }
  double Where(const MSpline &s, int d, const char *key = "at") const {
    if (op->Has("ki")) {
      auto k = Distinct(s.knots[d]);
      return k[static_cast<size_t>(op->Int("ki")) % k.size()];
    }
    double f = static_cast<double>(op->Int(key, 500)) / 1000.0;
    double u = s.Lo(d) + (s.Hi(d) - s.Lo(d)) * f;
    return u;
  }
  static bool TooNear(const MSpline &s, int d, double u) {  // closer to a knot than any user would go, but not on it
    for (double k : s.knots[d]) if (k != u && std::fabs(k - u) < 1e-5 * (s.Hi(d) - s.Lo(d))) return true;
    return false;
  }
  double Tolerance(const MSpline &s) const {
    static const double t[] = {0, 1e-12, 1e-9, 1e-6, 1e-3, 0.02, 0.1, 0.5};
    int i = static_cast<int>(op->Int("tol")) % 8;
    if (s.rat) i = std::min(i, 6);
    return t[i];
  }

  // ------------------------------------------------------------ operations
  void NewSlot(const WPtr &o, const MSpline &want, const char *cls, int k, int g) {
    Slot s;
    s.obj = o;
    if (!Observe(&s, &s.cur)) return;
    std::string e = SameExactly(want, s.cur);
    if (!e.empty()) { Bad(cls, "the new spline differs from what it was made from: " + e); return; }
    s.truth = s.cur;
    s.knots = k;
    s.gen = g;
    CheckOthers({}, "isolation");
    if (!stop_) AddSlot(s);
  }

  void Insert(int t, int d, const std::vector<double> &us, bool refine, int m) {
    Slot &s = slots[t];
    MSpline before = s.cur;
    Out o = Modify(t, [&]() { if (refine) s.obj->Refine(us, d); else s.obj->Insert(us[0], d, m); });
    if (stop_) return;
    std::vector<double> want = before.knots[d];
    bool possible = true;
    for (double u : us) for (int i = 0; i < m; ++i) {
      want.push_back(u);
      if (u < before.Lo(d) || u > before.Hi(d) || Mult(want, u) > before.deg[d] + 1) possible = false;
    }
    std::sort(want.begin(), want.end());
    if (possible != (o == kOk)) return Bad("rejected", o == kOk ? "a knot that cannot be inserted was accepted" : "the insertion of a knot was rejected: " + what_);
    if (o != kOk) { r->Count("rejected"); return; }
    if (!Observe(&s, &s.cur)) return;
    std::string e = OtherDirections(before, s.cur, d);
    if (e.empty() && s.cur.deg[d] != before.deg[d]) e = "degree changed";
    if (e.empty() && s.cur.knots[d] != want) e = "the knot vector is not the old one plus the new knots";
    if (!e.empty()) return Bad("structure", e);
    StepGeometry(s, before, 0, "knot insertion");
    r->Count("nontrivial");
  }
  size_t Remove(int t, int d, double u, int m, double tol, bool must) {
    Slot &s = slots[t];
    MSpline before = s.cur;
    size_t n = 0;
    Out o = Modify(t, [&]() { n = s.obj->Remove(u, d, tol, m); });
    if (stop_) return 0;
    if (o != kOk) { Bad("rejected", "the removal of a knot failed: " + what_); return 0; }
    bool inner = u != before.Lo(d) && u != before.Hi(d);
    int have = inner ? Mult(before.knots[d], u) : 0;
    if (!Observe(&s, &s.cur)) return n;
    if (static_cast<int>(n) > std::min(have, m)) { Bad("structure", std::to_string(n) + " knots reported as removed, there are " + std::to_string(have) + ", asked for " + std::to_string(m)); return n; }
    std::vector<double> want = before.knots[d];
    for (size_t i = 0; i < n; ++i) want.erase(std::find(want.begin(), want.end(), u));
    std::string e = OtherDirections(before, s.cur, d);
    if (e.empty() && s.cur.deg[d] != before.deg[d]) e = "degree changed";
    if (e.empty() && s.cur.knots[d] != want) e = "the knot vector is not the old one without the " + std::to_string(n) + " removed knots";
    if (!e.empty()) { Bad("structure", e); return n; }
    if (n == 0 && !(e = SameExactly(before, s.cur)).empty()) { Bad("structure", "no knot was removed, but the spline changed: " + e); return n; }
    if (must && static_cast<int>(n) < m) { Bad("structure", "only " + std::to_string(n) + " of " + std::to_string(m) + " knots that had just been inserted at " + Num(u) + " in direction " + std::to_string(d) + " of " + Describe(before) + " can be removed (tolerance " + Num(tol) + ")"); return n; }
    double granted = 1.3 * static_cast<double>(n) * tol;
    s.slack += granted;
    StepGeometry(s, before, granted, "knot removal");
    if (n) r->Count("nontrivial");
    return n;
  }
  bool Elevate(int t, int d) {
    Slot &s = slots[t];
    MSpline before = s.cur;
    Out o = Modify(t, [&]() { s.obj->Elevate(d); });
    if (stop_) return false;
    bool possible = InnerMult(before, d) <= before.deg[d];
    if (possible != (o == kOk)) { Bad("rejected", o == kOk ? "the degree of a discontinuous spline was elevated" : "degree elevation was rejected: " + what_); return false; }
    if (o != kOk) { r->Count("rejected"); return false; }
    if (!Observe(&s, &s.cur)) return false;
    std::string e = OtherDirections(before, s.cur, d);
    int p = before.deg[d];
    if (e.empty() && s.cur.deg[d] != p + 1) e = "degree is " + std::to_string(s.cur.deg[d]) + " instead of " + std::to_string(p + 1);
    if (e.empty() && Distinct(before.knots[d]) != Distinct(s.cur.knots[d])) e = "other knots than before";
    if (e.empty()) for (double u : Distinct(before.knots[d])) {
      int m0 = Mult(before.knots[d], u), m1 = Mult(s.cur.knots[d], u);
      bool end = u == before.Lo(d) || u == before.Hi(d);
      if (end ? m1 != p + 2 : (m1 < m0 + 1 || m1 > p + 1)) e = "knot " + Num(u) + " has multiplicity " + std::to_string(m1) + " after " + std::to_string(m0);
    }
    if (!e.empty()) { Bad("structure", "degree elevation: " + e); return false; }
    StepGeometry(s, before, 0, "degree elevation");
    r->Count("nontrivial");
    return true;
  }
  bool Reduce(int t, int d, double tol, bool must) {
    Slot &s = slots[t];
    MSpline before = s.cur;
    bool done = false;
    Out o = Modify(t, [&]() { done = s.obj->Reduce(d, tol); });
    if (stop_) return false;
    int p = before.deg[d];
    bool possible = p < 2 || InnerMult(before, d) <= p;
    if (possible != (o == kOk)) { Bad("rejected", o == kOk ? "the degree of a discontinuous spline was reduced" : "degree reduction failed: " + what_); return false; }
    if (o != kOk) { r->Count("rejected"); return false; }
    if (!Observe(&s, &s.cur)) return false;
    std::string e;
    if (!done) {
      if (!(e = SameExactly(before, s.cur)).empty()) Bad("structure", "the degree was not reduced, but the spline changed: " + e);
      else if (must) Bad("structure", "the degree of " + Describe(before) + " in direction " + std::to_string(d) + " had just been elevated and cannot be reduced (tolerance " + Num(tol) + ")");
      return false;
    }
    if (p < 2) { Bad("structure", "a degree below 2 was reduced"); return false; }
    e = OtherDirections(before, s.cur, d);
    if (e.empty() && s.cur.deg[d] != p - 1) e = "degree is " + std::to_string(s.cur.deg[d]) + " instead of " + std::to_string(p - 1);
    if (e.empty()) {
      for (double u : Distinct(s.cur.knots[d])) if (!Mult(before.knots[d], u)) e = "there is a new knot " + Num(u);
      for (double u : Distinct(before.knots[d])) {
        int m0 = Mult(before.knots[d], u), m1 = Mult(s.cur.knots[d], u);
        bool end = u == before.Lo(d) || u == before.Hi(d);
        if (end ? m1 != p : (m1 < std::max(0, m0 - 1) || m1 > p - 1)) e = "knot " + Num(u) + " has multiplicity " + std::to_string(m1) + " after " + std::to_string(m0);
      }
    }
    if (!e.empty()) { Bad("structure", "degree reduction: " + e); return false; }
    double granted = 0;
    {
      double wmin = MinW(before);
      granted = before.rat ? 2 * tol * (1 + MaxNorm(before)) / std::max(wmin, 1e-3) : 1.1 * tol;
    }
    s.slack += granted;
    StepGeometry(s, before, granted, "degree reduction");
    r->Count("nontrivial");
    return true;
  }
  // A knot or a degree that can almost be taken away: a refined spline in which one component of one homogeneous point (or of
  // a row of them) is off by a little.
  void Almost(int t, int d, int m) {
    Slot &s = slots[t];
    bool degree = op->Int("kind") % 3 == 2;
    double u = Where(s.cur, d);
    if (s.cur.Total() > (s.cur.dim == 1 ? 30 : 80) || s.cur.deg[d] > 4) return;
    if (degree ? InnerMult(s.cur, d) > s.cur.deg[d] : (TooNear(s.cur, d, u) || u <= s.cur.Lo(d) || u >= s.cur.Hi(d))) return;
    m = std::min(m, s.cur.deg[d] + 1 - Mult(s.cur.knots[d], u));
    if (!degree && m < 1) return;
    WPtr c = s.obj->Copy();
    MSpline x;
    if (degree) c->Elevate(d); else c->Insert(u, d, m);
    if (!c->Extract(&x).empty() || !Finite(x)) return;
    int part = static_cast<int>(op->Int("c")) % (x.pd + (x.rat ? 1 : 0));
    int at = static_cast<int>(op->Int("i")) % x.N(d);
    double amp = std::pow(10.0, -static_cast<double>(op->Int("amp") % 7)) * (op->Int("sign") ? -1 : 1) * (part < x.pd ? 1 + MaxAbs(x) : MinW(x));
    if (part == x.pd) amp = std::max(amp, -0.5 * MinW(x));
    int stride = 1;
    for (int e = 0; e < d; ++e) stride *= x.N(e);
    for (int i = 0; i < x.Total(); ++i) {
      if (i / stride % x.N(d) != at) continue;
      double w = x.rat ? x.w[i] : 1;
      if (part < x.pd) {
        x.cp[i * x.pd + part] += amp / w;
      } else {  // the homogeneous coordinates stay
        for (int q = 0; q < x.pd; ++q) x.cp[i * x.pd + q] *= w / (w + amp);
        x.w[i] = w + amp;
      }
      if (op->Int("one")) break;
    }
    s.obj = MakeSplineObj(x, MakeKnots(x));
    s.knots = s.gen = -1;
    s.slack = 0;
    if (!Observe(&s, &s.cur)) return;
    s.truth = s.cur;
    r->Count("almost");
    if (degree) Reduce(t, d, Tolerance(s.cur) * (s.cur.rat ? std::min(1.0, 0.1 * MinW(s.cur)) : 1), false);
    else Remove(t, d, u, m, Tolerance(s.cur), false);
  }
  void Divide(int t, int d, double u) {
    MSpline before = slots[t].cur;
    WPtr a, b;
    Out o = Modify(t, [&]() { slots[t].obj->Subdivide(u, d, &a, &b); });
    if (stop_) return;
    bool possible = u > before.Lo(d) && u < before.Hi(d);
    if (possible != (o == kOk)) return Bad("rejected", o == kOk ? "a spline was divided outside of its inside" : "the division of a spline was rejected: " + what_);
    CheckOthers({}, o == kOk ? "isolation" : "atomicity");
    if (stop_) return;
    if (o != kOk) { r->Count("rejected"); return; }
    Slot src = slots[t];
    for (int h = 0; h < 2; ++h) {
      Slot s = src;
      s.obj = h ? b : a;
      if (!s.obj) return Bad("structure", "a half is missing");
      s.knots = s.gen = -1;
      if (!Observe(&s, &s.cur)) return;
      std::string e = OtherDirections(before, s.cur, d);
      std::vector<double> want;
      for (double k : before.knots[d]) if (h ? k > u : k < u) want.push_back(k);
      for (int i = 0; i <= before.deg[d]; ++i) want.push_back(u);
      std::sort(want.begin(), want.end());
      if (e.empty() && s.cur.deg[d] != before.deg[d]) e = "degree changed";
      if (e.empty() && s.cur.knots[d] != want) e = "knots are not those of the source on that side, ended by the dividing one";
      if (!e.empty()) return Bad("structure", std::string(h ? "second" : "first") + " half: " + e);
      // geometry: the source at the same parameters
      if (prop == "P11") {
        double tol = NumTol(before) + NumTol(s.cur);
        MSpline in = s.cur;
        e = SameGeometry(s.cur, before, tol, HashSpline(before) + h);
        if (!e.empty()) return Bad("geometry", std::string(h ? "second" : "first") + " half of " + Describe(before) + ": " + e);
        CheckLibGeometry(s, HashSpline(s.cur), "division");
        if (stop_) return;
      }
      AddSlot(s);
      r->Count("nontrivial");
    }
    CheckOthers({}, "isolation");
  }

  void Query(int t) {
    Slot &s = slots[t];
    const MSpline &c = s.cur;
    Rng g(static_cast<uint64_t>(op->Int("seed", 1)));
    long live = env::LiveObjects();
    auto fail = [&](const std::string &x) { Bad("query", x); };
    Out o = Modify(t, [&]() {
      env::Pause pause;
      for (int i = 0; i < 3 && !stop_; ++i) QueryEval(s, g.Next(), "query");
    });
    (void)o;
    if (stop_) return;
    std::vector<int> dims;
    for (int i = 0; i < c.pd; ++i) dims.push_back(i);
    // derivatives
    for (int i = 0; i < 2; ++i) {
      auto u = Sample(c, &g, i);
      std::vector<int> order(c.dim, 0);
      int total = 0, most = c.dim == 1 ? 6 : c.dim == 2 ? 4 : 3;
      for (int d = 0; d < c.dim; ++d) { order[d] = static_cast<int>(g.Below(std::min(c.deg[d] + 2, most - total + 1))); total += order[d]; }
      auto want = DerivModel(c, u, order);
      auto scale = DerivScale(c, u, order);
      bool far = false;
      for (int k = 0; k < c.pd; ++k) far |= !(scale[k] < 1e12L);
      if (far) continue;
      auto got = s.obj->Deriv(u, dims, order);
      if (got.size() != want.size()) return fail("derivative has the wrong number of values");
      for (int k = 0; k < c.pd; ++k) {
        if (!(std::fabs(got[k] - static_cast<double>(want[k])) <= 1e-10 * static_cast<double>(scale[k]) + 1e-13 * (1 + MaxAbs(c)))) return fail("derivative " + JoinInts(order) + " of " + Describe(c) + " at " + At(u) + " has coordinate " + std::to_string(k) + " = " + Num(got[k]) + " instead of " + Num(static_cast<double>(want[k])));
      }
      if (total > 3) r->Count("derivatives_above_third");
      r->Count("derivatives");
    }
    // basis functions
    {
      int d = static_cast<int>(g.Below(c.dim));
      auto u = Sample(c, &g, 1);
      int f = 0;
      auto got = s.obj->Basis(d, u[d]);
      auto want = BasisModel(c.knots[d], c.deg[d], u[d], &f);
      double sum = 0;
      if (got.size() != want.size()) return fail("wrong number of basis functions");
      for (size_t i = 0; i < got.size(); ++i) {
        sum += got[i];
        if (!(got[i] >= -1e-12 && std::fabs(got[i] - static_cast<double>(want[i])) <= 1e-9)) return fail("basis function " + std::to_string(i) + " at " + Num(u[d]) + " is " + Num(got[i]) + " instead of " + Num(static_cast<double>(want[i])));
      }
      if (!(std::fabs(sum - 1) < 1e-9)) return fail("basis functions add up to " + Num(sum));
      int order = 1 + static_cast<int>(g.Below(2));
      auto gd = s.obj->BasisDeriv(d, u[d], order);
      auto wd = BasisDerivModel(c.knots[d], c.deg[d], u[d], order, &f);
      if (gd.size() != wd.size()) return fail("wrong number of basis function derivatives");
      double m = 1;
      for (auto x : wd) m = std::max(m, std::fabs(static_cast<double>(x)));
      for (size_t i = 0; i < gd.size(); ++i) if (!(std::fabs(gd[i] - static_cast<double>(wd[i])) <= 1e-8 * m)) return fail("derivative " + std::to_string(order) + " of basis function " + std::to_string(i) + " at " + Num(u[d]) + " is " + Num(gd[i]) + " instead of " + Num(static_cast<double>(wd[i])));
    }
    // outside
    for (int i = 0; i < 2; ++i) {
      auto u = Sample(c, &g, 1);
      int d = static_cast<int>(g.Below(c.dim));
      double span = c.Hi(d) - c.Lo(d);
      double e = g.Chance(0.5) ? 1e-6 * span : span * g.Unit() + 0.01;
      u[d] = g.Chance(0.5) ? c.Lo(d) - e : c.Hi(d) + e;
      bool threw = false;
      try { if (i) s.obj->Deriv(u, dims, std::vector<int>(c.dim, 1)); else s.obj->Eval(u, dims); } catch (const std::exception &) { threw = true; }
      if (!threw) return fail(std::string(i ? "derivative" : "value") + " outside of the knot vector range at " + At(u) + " was computed");
    }
    // plain accessors
    for (int d = 0; d < c.dim; ++d) if (std::fabs(s.obj->Range(d) - (c.Hi(d) - c.Lo(d))) > 1e-12 * (1 + std::fabs(c.Hi(d)))) return fail("knot vector range is " + Num(s.obj->Range(d)));
    {
      std::vector<int> idx(c.dim);
      int lin = 0, stride = 1;
      for (int d = 0; d < c.dim; ++d) { idx[d] = static_cast<int>(g.Below(c.N(d))); lin += idx[d] * stride; stride *= c.N(d); }
      int k = static_cast<int>(g.Below(c.pd));
      double w = c.rat ? c.w[lin] : 1, hom = s.obj->Homogeneous(idx, k);
      if (s.obj->GetWeight(idx) != w) return fail("weight is " + Num(s.obj->GetWeight(idx)));
      if (!(std::fabs(hom - w * c.cp[lin * c.pd + k]) <= 1e-12 * (1 + std::fabs(hom)))) return fail("homogeneous coordinate is " + Num(hom));
    }
    auto el = s.obj->Elements();
    for (int d = 0; d < c.dim; ++d) {
      auto k = Distinct(c.knots[d]);
      std::vector<double> want;
      for (size_t i = 0; i + 1 < k.size(); ++i) { want.push_back(k[i]); want.push_back(k[i + 1]); }
      if (el[d] != want) return fail("the elements in direction " + std::to_string(d) + " are not the non-empty knot spans");
    }
    // comparison
    {
      double scale = 1 + MaxAbs(c);
      WPtr copy = s.obj->Copy();
      if (!s.obj->Equal(*copy, 1e-12)) return fail("a spline does not equal its copy");
      bool geo = g.Chance(0.3);
      if (geo && !s.obj->GeoEqual(*copy, 1e-9 * scale + NumTol(c))) return fail("a spline is not geometrically equal to its copy");
      int d = static_cast<int>(g.Below(c.dim));
      double lo = c.Lo(d), hi = c.Hi(d), u = lo + (hi - lo) * (0.1 + 0.8 * g.Unit());
      if (!TooNear(c, d, u)) {
        copy->Insert(u, d, 1);
        if (s.obj->Equal(*copy, 1e-6)) return fail("a spline equals its refinement");
        if (geo && !s.obj->GeoEqual(*copy, 1e3 * NumTol(c))) return fail("a spline is not geometrically equal to its refinement");
      }
      // one coordinate or weight or knot is different
      MSpline other = c;
      double delta = 0.25 * scale;
      int what = static_cast<int>(g.Below(c.rat ? 3 : 2));
      if (what == 0) other.cp[g.Below(other.cp.size())] += delta;
      else if (what == 1) for (double &v : other.cp) v += delta;
      else other.w[g.Below(other.w.size())] += 0.5;
      WPtr x = MakeSplineObj(other, MakeKnots(other));
      if (s.obj->Equal(*x, 1e-9)) return fail("a spline equals one with other control points or weights");
      if (x->Equal(*s.obj, 1e-9)) return fail("a spline with other control points or weights equals the spline");
      if (what != 2 && !s.obj->Equal(*x, delta * 1.01)) return fail("splines that differ by less than the tolerance are not equal");
      if (what == 1 && geo && s.obj->GeoEqual(*x, delta * 0.9)) return fail("a spline is geometrically equal to a moved one");
      // another point dimension with the same leading coordinates
      MSpline flat = c;
      flat.pd = c.pd + 1;
      flat.cp.clear();
      for (size_t i = 0; i < c.cp.size(); i += c.pd) { flat.cp.insert(flat.cp.end(), c.cp.begin() + i, c.cp.begin() + i + c.pd); flat.cp.push_back(delta); }
      WPtr f = MakeSplineObj(flat, MakeKnots(flat));
      if (s.obj->Equal(*f, 1e-9) || f->Equal(*s.obj, 1e-9)) return fail("splines of different point dimension are equal");
      if (geo && f->GeoEqual(*s.obj, 1e-9)) return fail("a spline is geometrically equal to one that lacks its last coordinate");
      MSpline kn = c;
      d = static_cast<int>(g.Below(c.dim));
      for (double &k : kn.knots[d]) if (k == c.Hi(d)) k += 0.5;
      if (s.obj->Equal(*MakeSplineObj(kn, MakeKnots(kn)), 1e-9)) return fail("a spline equals one with another knot vector");
    }
    (void)live;
    r->Count("queries");
    CheckOthers({}, "query");  // nor did any of this change anything
  }

  // One query with the faults of this line: it answers as it does without them, or runs out of memory and changes nothing.
  void Ask(int t) {
    Slot &s = slots[t];
    const MSpline c = s.cur;
    Rng g(static_cast<uint64_t>(op->Int("seed", 1)));
    static const char *kinds[] = {"eval", "deriv", "basis", "basisderiv", "elements", "equal", "geoequal", "project"};
    std::string kind = kinds[g.Below(8)];
    if (kind == "geoequal" && (c.Total() > 40 || c.dim > 2)) kind = "equal";
    if (kind == "project" && (c.dim > 2 || (c.dim == 2 && c.pd != 3))) kind = "deriv";
    auto u = Sample(c, &g, 1);
    int d = static_cast<int>(g.Below(c.dim));
    std::vector<int> dims, order(c.dim, 0);
    for (int i = 0; i < c.pd; ++i) dims.push_back(i);
    for (int i = 0; i < c.dim; ++i) order[i] = static_cast<int>(g.Below(3));
    std::vector<double> x(c.pd);
    for (double &v : x) v = 2 * g.Unit() - 1;
    WPtr other = kind == "equal" || kind == "geoequal" ? s.obj->Copy() : nullptr;
    if (other && g.Chance(0.5)) { double k = c.Lo(d) + (c.Hi(d) - c.Lo(d)) * 0.413; if (!TooNear(c, d, k) && !Mult(c.knots[d], k)) other->Insert(k, d, 1); }
    double tol = 1e3 * NumTol(c);
    auto ask = [&]() -> std::vector<double> {
      if (kind == "eval") return s.obj->Eval(u, dims);
      if (kind == "deriv") return s.obj->Deriv(u, dims, order);
      if (kind == "basis") return s.obj->Basis(d, u[d]);
      if (kind == "basisderiv") return s.obj->BasisDeriv(d, u[d], order[d]);
      if (kind == "elements") return s.obj->Elements()[d];
      if (kind == "project") return s.obj->Project(x);
      return {(kind == "equal" ? s.obj->Equal(*other, tol) : s.obj->GeoEqual(*other, tol)) ? 1.0 : 0.0};
    };
    auto differ = [&](const std::vector<double> &a, const std::vector<double> &b) {
      if (a.size() != b.size()) return true;
      for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i])) && !(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(a[i])))) return true;
      return false;
    };
    std::vector<double> want = ask(), got;
    Out o = Modify(t, [&]() { auto v = ask(); env::Pause pause; got = v; });
    if (stop_) return;
    const char *cls = prop == "P15" ? "query" : "atomicity";
    if (o != kOk) return Bad(cls, "the query " + kind + " fails: " + what_);
    r->Count("asked:" + kind);
    if (differ(want, got)) return Bad(cls, "the query " + kind + " has another answer than before");
    CheckOthers({}, cls);
  }

  void BadArguments(int t) {
    Slot &s = slots[t];
    MSpline c = s.cur;
    Rng g(static_cast<uint64_t>(op->Int("seed", 1)));
    int d = static_cast<int>(op->Int("d")) % c.dim;
    int k = static_cast<int>(op->Int("k")) % 9;
    double span = c.Hi(d) - c.Lo(d);
    double out = g.Chance(0.5) ? c.Lo(d) - span * (0.01 + g.Unit()) : c.Hi(d) + span * (0.01 + g.Unit());
    if (k == 0) return Insert(t, d, {out}, false, 1);
    if (k == 1) return Insert(t, d, {g.Chance(0.5) ? c.Lo(d) : c.Hi(d)}, g.Chance(0.5), 1);
    if (k == 2) { double u = c.Lo(d) + span * 0.37; if (!TooNear(c, d, u)) Insert(t, d, {u}, false, c.deg[d] + 2); return; }
    if (k == 3) {  // some of the knots are fine, a later one is not
      double u = c.Lo(d) + span * 0.37;
      if (!TooNear(c, d, u)) Insert(t, d, {u, g.Chance(0.5) ? out : c.Hi(d)}, true, 1);
      return;
    }
    if (k == 4) { Remove(t, d, g.Chance(0.5) ? out : c.Lo(d) + span * 0.123456, 1, 1e-6, false); return; }
    if (k == 5) { Remove(t, d, g.Chance(0.5) ? c.Lo(d) : c.Hi(d), 1 + static_cast<int>(g.Below(2)), 10, false); return; }
    if (k == 6) return Divide(t, d, g.Chance(0.5) ? out : (g.Chance(0.5) ? c.Lo(d) : c.Hi(d)));
    // constructing from inconsistent data
    MSpline b = c;
    if (k == 7) {
      if (g.Chance(0.5)) b.cp.resize(b.cp.size() - b.pd);
      else b.cp.insert(b.cp.end(), b.cp.begin(), b.cp.begin() + b.pd);
      if (b.cp.empty()) return;
    } else {
      auto &kn = b.knots[d];
      int m = static_cast<int>(g.Below(4));
      if (m == 0) kn[0] -= 1;                                     // not clamped
      else if (m == 1) kn.back() += 1;
      else if (m == 2) std::reverse(kn.begin(), kn.end());
      else if (b.rat) b.w.push_back(1);
      else kn.assign(kn.size(), kn[0]);
      if (b.deg[d] == 0 && m < 2) return;
    }
    bool gen = g.Chance(0.5);
    auto kv = MakeKnots(b);
    WPtr made;
    Out o = Modify(-1, [&]() { if (gen) { auto x = MakeGen(b, kv); made = x->Make(); } else { made = MakeSplineObj(b, kv); } });
    if (stop_) return;
    if (o == kOk) return Bad("rejected", "a spline was made from inconsistent data");
    r->Count("rejected");
  }

  void RunOp(const Line &l) {
    op = &l;
    line_allocs = 0;
    r->Count("op:" + l.kind);
    int t = -1;
    const std::string &k = l.kind;
    if (k == "new" || k == "gen") {
      if (recipes.empty()) return;
      MSpline m = recipes[static_cast<size_t>(l.Int("of")) % recipes.size()];
      UserKnots uk;
      uk.k = MakeKnots(m);
      uk.v = m.knots;
      uk.base = m;
      knots.push_back(uk);
      if (k == "new") {
        WPtr o;
        Modify(-1, [&]() { o = MakeSplineObj(m, uk.k); });
        if (stop_) return;
        if (!o) return Bad("rejected", "a valid spline was rejected: " + what_);
        NewSlot(o, m, "structure", static_cast<int>(knots.size()) - 1, -1);
      } else {
        UserGen ug;
        ug.m = m;
        Modify(-1, [&]() { ug.g = MakeGen(m, uk.k); });
        if (stop_) return;
        if (!ug.g) return Bad("rejected", "a valid spline was rejected: " + what_);
        gens.push_back(ug);
        CheckOthers({}, "isolation");
      }
    } else if (k == "same") {
      if (knots.empty()) return;
      int ki = static_cast<int>(static_cast<size_t>(l.Int("s")) % knots.size());
      MSpline m = knots[ki].base;
      Rng g(static_cast<uint64_t>(l.Int("seed", 1)));
      for (double &v : m.cp) v = std::round((g.Unit() - 0.5) * 1e4) / 1e3;
      if (g.Chance(0.3)) { m.rat = !m.rat; m.w.clear(); if (m.rat) m.w.assign(m.Total(), 1.0); }
      for (double &v : m.w) v = 0.25 + std::round(g.Unit() * 100) / 50;
      WPtr o;
      Modify(-1, [&]() { o = MakeSplineObj(m, knots[ki].k); });
      if (stop_) return;
      if (!o) return Bad("rejected", "a valid spline was rejected: " + what_);
      NewSlot(o, m, "isolation", ki, -1);
    } else if (k == "make") {
      if (gens.empty()) return;
      int gi = static_cast<int>(static_cast<size_t>(l.Int("s")) % gens.size());
      WPtr o;
      Modify(-1, [&]() { o = gens[gi].g->Make(); });
      if (stop_) return;
      if (!o) return Bad("rejected", "making a spline failed: " + what_);
      NewSlot(o, gens[gi].m, "isolation", -1, gi);
    } else if (k == "copy") {
      Slot *s = Pick("s", &t);
      if (!s) return;
      Slot n = *s;
      n.obj = nullptr;
      Modify(t, [&]() { n.obj = s->obj->Copy(); });
      if (stop_) return;
      if (!n.obj) return Bad("rejected", "copying failed: " + what_);
      MSpline m;
      if (!Observe(&n, &m)) return;
      std::string e = SameExactly(s->cur, m);
      if (!e.empty()) return Bad("isolation", "a copy differs: " + e);
      CheckOthers({}, "isolation");
      if (!stop_) AddSlot(n);
    } else if (k == "assign") {
      int f = -1;
      Slot *s = Pick("s", &t), *from = Pick("from", &f);
      if (!s || s->cur.dim != from->cur.dim || s->cur.rat != from->cur.rat) return;
      Out o = Modify(t, [&]() { s->obj->AssignFrom(*from->obj); });
      if (stop_) return;
      if (o != kOk) return Bad("rejected", "assigning failed: " + what_);
      MSpline m;
      if (!Observe(s, &m)) return;
      std::string e = SameExactly(from->cur, m);
      if (!e.empty()) return Bad("isolation", "an assigned spline differs from the source: " + e);
      CheckOthers({t}, "isolation");
      WPtr keep = s->obj;
      if (t != f) { *s = *from; s->obj = keep; s->knots = s->gen = -1; }
    } else if (k == "reuse") {
      Slot *s = Pick("s", &t);
      if (!s || !s->cur.rat) return;
      Rng g(static_cast<uint64_t>(l.Int("seed", 1)));
      MSpline m = s->cur;
      m.pd = 1 + static_cast<int>(g.Below(3));
      m.cp.assign(m.Total() * m.pd, 0);
      for (double &v : m.cp) v = std::round((g.Unit() - 0.5) * 1e4) / 1e3;
      WPtr o;
      Modify(t, [&]() { o = s->obj->Reuse(m.cp, m.pd); });
      if (stop_) return;
      if (!o) return Bad("rejected", "making a spline from another one failed: " + what_);
      NewSlot(o, m, "isolation", -1, -1);
    } else if (k == "drop") {
      Slot *s = Pick("s", &t);
      if (!s || slots.size() < 2) return;
      Modify(-1, [&]() { s->obj.reset(); });
      slots.erase(slots.begin() + t);
      CheckOthers({}, "isolation");
    } else if (k == "random") {
      int dim = 1 + static_cast<int>(l.Int("dim")) % 3, p = 1 + static_cast<int>(l.Int("p")) % (dim == 1 ? 6 : dim == 2 ? 3 : 2), pd = 1 + static_cast<int>(l.Int("pd")) % 4;
      bool rat = l.Int("rat") % 2 != 0;
      double lo = static_cast<double>(l.Int("lo")) / 4, hi = lo + static_cast<double>(1 + l.Int("len")) / 4;
      UserGen ug;
      Out o = Modify(-1, [&]() { ug.g = MakeRandomGen(dim, rat, lo, hi, p, pd); });
      if (stop_) return;
      if (o != kOk) return Bad("generator", "making a random spline failed: " + what_);
      WPtr w = ug.g->Make();
      std::string e = w->Extract(&ug.m);
      const MSpline &m = ug.m;
      if (e.empty()) for (int d = 0; d < dim; ++d) {
        if (m.deg[d] < 1 || m.deg[d] > p) e = "degree " + std::to_string(m.deg[d]) + " is not between 1 and " + std::to_string(p);
        else if (m.Lo(d) != lo || m.Hi(d) != hi) e = "knots from " + Num(m.Lo(d)) + " to " + Num(m.Hi(d)) + " instead of " + Num(lo) + " to " + Num(hi);
        else if (InnerMult(m, d) > m.deg[d]) e = "inner knots of too high multiplicity";
      }
      if (e.empty() && m.pd != pd) e = "points have " + std::to_string(m.pd) + " coordinates instead of " + std::to_string(pd);
      if (e.empty()) for (double v : m.cp) if (!(v >= -5.001 && v <= 5.001)) e = "coordinate " + Num(v) + " is not between -5 and 5";
      if (e.empty()) for (double v : m.w) if (!(v > 0 && v <= 2.001)) e = "weight " + Num(v);
      if (!e.empty()) return Bad("generator", "random spline: " + e);
      gens.push_back(ug);
      Slot s;
      s.obj = w;
      s.cur = s.truth = m;
      CheckOthers({}, "isolation");
      if (stop_) return;
      if (prop == "P16") { QueryEval(s, HashSpline(m), "generator"); r->Count("nontrivial"); }
      if (!stop_) AddSlot(s);
    } else if (k == "square") {
      int p = 1 + static_cast<int>(l.Int("p")) % 4, n = 2 * p + 2 + static_cast<int>(l.Int("n")) % 5;
      Slot s;
      Out o = Modify(-1, [&]() { s.obj = MakeSquare(p, n); });
      if (stop_) return;
      if (o != kOk) return Bad("generator", "making a square failed: " + what_);
      std::string e = s.obj->Extract(&s.cur);
      const MSpline &m = s.cur;
      if (e.empty() && (m.dim != 2 || m.rat || m.pd != 2)) e = "it is " + Describe(m);
      if (e.empty()) for (int d = 0; d < 2; ++d) {
        if (m.deg[d] != p) e = "degree " + std::to_string(m.deg[d]) + " instead of " + std::to_string(p);
        else if (static_cast<int>(m.knots[d].size()) != n) e = std::to_string(m.knots[d].size()) + " knots instead of " + std::to_string(n);
        else if (m.Lo(d) != 0 || m.Hi(d) != 1) e = "parameters do not run from 0 to 1";
      }
      if (e.empty()) {  // covers the square [-1,1]^2: corners, edges, inside, monotone
        Rng g(static_cast<uint64_t>(l.Int("seed", 1)));
        for (int i = 0; i < 6 && e.empty(); ++i) {
          std::vector<double> u = {g.Chance(0.3) ? 0.0 : g.Chance(0.4) ? 1.0 : g.Unit(), g.Chance(0.3) ? 0.0 : g.Chance(0.4) ? 1.0 : g.Unit()};
          auto v = s.obj->Eval(u, {0, 1});
          for (int c = 0; c < 2; ++c) {
            if (!(v[c] >= -1 - 1e-12 && v[c] <= 1 + 1e-12)) e = "point " + At(v) + " at " + At(u) + " is outside of the square";
            if ((u[c] == 0 && std::fabs(v[c] + 1) > 1e-12) || (u[c] == 1 && std::fabs(v[c] - 1) > 1e-12)) e = "point " + At(v) + " at " + At(u) + " is not on the edge";
            std::vector<double> x = u;
            x[1 - c] = g.Unit();
            if (std::fabs(s.obj->Eval(x, {c})[0] - v[c]) > 1e-12) e = "coordinate " + std::to_string(c) + " depends on the other parameter";
          }
        }
      }
      if (!e.empty()) return Bad("generator", "square: " + e);
      s.truth = s.cur;
      r->Count("nontrivial");
      CheckOthers({}, "isolation");
      if (!stop_) AddSlot(s);
    } else if (k == "sweep") {
      Slot *a = nullptr, *b = nullptr;
      std::vector<int> ok;
      for (size_t i = 0; i < slots.size(); ++i) if (slots[i].cur.dim == 1 && slots[i].cur.rat) ok.push_back(static_cast<int>(i));
      if (ok.empty()) return;
      a = &slots[ok[static_cast<size_t>(l.Int("s")) % ok.size()]];
      b = &slots[ok[static_cast<size_t>(l.Int("from")) % ok.size()]];
      if (a->cur.pd != b->cur.pd || a->cur.Total() * b->cur.Total() > 150) return;
      UserGen ug;
      Out o = Modify(-1, [&]() { ug.g = MakeSweep(*a->obj, *b->obj); });
      if (stop_) return;
      if (o != kOk) return Bad("generator", "sweeping failed: " + what_);
      Slot s;
      s.obj = ug.g->Make();
      std::string e = s.obj->Extract(&s.cur);
      ug.m = s.cur;
      if (e.empty() && (s.cur.knots[0] != a->cur.knots[0] || s.cur.knots[1] != b->cur.knots[0] || s.cur.deg[0] != a->cur.deg[0] || s.cur.deg[1] != b->cur.deg[0])) e = "knots or degrees are not those of the curves";
      Rng g(HashSpline(s.cur));
      std::vector<int> dims;
      for (int c = 0; c < s.cur.pd; ++c) dims.push_back(c);
      for (int i = 0; i < 5 && e.empty(); ++i) {
        auto u = Sample(s.cur, &g, 1);
        auto v = s.obj->Eval(u, dims);
        auto x = EvalModel(a->cur, {u[0]}), y = EvalModel(b->cur, {u[1]});
        for (int c = 0; c < s.cur.pd; ++c) if (!(std::fabs(v[c] - static_cast<double>(x[c] + y[c])) <= NumTol(s.cur) + NumTol(a->cur) + NumTol(b->cur))) e = "point at " + At(u) + " has coordinate " + std::to_string(c) + " = " + Num(v[c]) + " instead of " + Num(static_cast<double>(x[c] + y[c]));
      }
      if (!e.empty()) return Bad("generator", "swept surface: " + e);
      s.truth = s.cur;
      gens.push_back(ug);
      r->Count("nontrivial");
      CheckOthers({}, "isolation");
      if (!stop_) AddSlot(s);
    } else if (k == "burn") {
      BurnRandom(static_cast<int>(l.Int("n")) % 2000);
    } else {
      Slot *s = Pick("s", &t);
      if (!s) return;
      int d = static_cast<int>(l.Int("d")) % s->cur.dim;
      bool big = s->cur.Total() > (s->cur.dim == 1 ? 40 : 120);
      int m = 1 + static_cast<int>(l.Int("m")) % 4;
      if (k == "insert") {
        double u = Where(s->cur, d);
        if (big || TooNear(s->cur, d, u)) return;
        Insert(t, d, {u}, false, m);
      } else if (k == "refine") {
        std::vector<double> us;
        for (int f : l.Ints("ats")) {
          double u = s->cur.Lo(d) + (s->cur.Hi(d) - s->cur.Lo(d)) * (f % 1001) / 1000.0;
          bool near = TooNear(s->cur, d, u);
          for (double x : us) near |= x != u && std::fabs(x - u) < 1e-5 * (s->cur.Hi(d) - s->cur.Lo(d));
          if (!near) us.push_back(u);
        }
        if (big || us.empty()) return;
        Insert(t, d, us, true, 1);
      } else if (k == "remove") {
        Remove(t, d, Where(s->cur, d), m, Tolerance(s->cur), false);
      } else if (k == "insrem") {
        double u = Where(s->cur, d);
        if (big || TooNear(s->cur, d, u) || u <= s->cur.Lo(d) || u >= s->cur.Hi(d)) return;
        m = std::min(m, s->cur.deg[d] + 1 - Mult(s->cur.knots[d], u));
        if (m < 1) return;
        MSpline before = s->cur;
        double gap = 1;  // relative distance to the next knot decides how well removal is conditioned
        for (double x : s->cur.knots[d]) if (x != u) gap = std::min(gap, std::fabs(x - u) / (s->cur.Hi(d) - s->cur.Lo(d)));
        Insert(t, d, {u}, false, m);
        if (stop_) return;
        double tol = s->cur.rat ? 1e-4 * (1 + MaxNorm(s->cur)) / std::max(MinW(s->cur), 1e-9) * (1 + MaxNorm(s->cur)) : 1e-4 * (1 + MaxAbs(s->cur));
        double slack = s->slack;
        size_t n = Remove(t, d, u, m, tol, gap > 0.02 && before.deg[d] <= 4);
        if (stop_) return;
        if (static_cast<int>(n) == m && gap > 0.02 && before.deg[d] <= 4) {
          s->slack = slack;
          Tol c{0, 1e-3 * (1 + MaxAbs(before)), 1e-3 * MaxW(before), 0};
          std::string e = CompareSplines(before, s->cur, c);
          if (!e.empty()) return Bad("structure", "removing knots that had just been inserted does not restore the spline: " + e);
          // the removal was allowed to be this coarse, the geometry is not
          if (prop == "P11") {
            e = SameGeometry(s->cur, before, 1e-5 * (1 + MaxAbs(before)) * (before.rat ? MaxW(before) / MinW(before) : 1), 5);
            if (!e.empty()) return Bad("geometry", "removing knots that had just been inserted: " + e);
          }
          s->slack = slack + 1e-5 * (1 + MaxAbs(before)) * (before.rat ? MaxW(before) / MinW(before) : 1);
        }
      } else if (k == "almost") {
        Almost(t, d, m);
      } else if (k == "elevate") {
        if (big || s->cur.deg[d] > 6) return;
        Elevate(t, d);
      } else if (k == "reduce") {
        Reduce(t, d, Tolerance(s->cur) * (s->cur.rat ? std::min(1.0, 0.1 * MinW(s->cur)) : 1), false);
      } else if (k == "elred") {
        if (big || s->cur.deg[d] > 4) return;
        MSpline before = s->cur;
        if (!Elevate(t, d) || stop_) return;
        double tol = 1e-6 * (1 + MaxAbs(before)) * std::max(1.0, MaxW(before));
        double slack = s->slack;
        if (Reduce(t, d, tol, before.deg[d] >= 1) && !stop_) {
          s->slack = slack + 1e-6 * (1 + MaxAbs(before)) * std::max(1.0, MaxW(before) / MinW(before));
          if (prop == "P11") {
            std::string e = SameGeometry(s->cur, before, 1e-6 * (1 + MaxAbs(before)) * (before.rat ? MaxW(before) / MinW(before) : 1), 6);
            if (!e.empty()) return Bad("geometry", "elevating and reducing the degree: " + e);
          }
        }
      } else if (k == "divide") {
        double u = Where(s->cur, d);
        if (big || TooNear(s->cur, d, u)) return;
        return Divide(t, d, u);
      } else if (k == "query") {
        return Query(t);
      } else if (k == "ask") {
        return Ask(t);
      } else if (k == "bad") {
        if (big) return;
        return BadArguments(t);
      }
      if (!stop_) CheckOthers({t}, "isolation");
    }
  }

  void Run(const Plan &plan) {
    env::ResetWorld();
    for (auto &l : plan.lines) if (l.kind == "spline") {
      Line c = l;
      if (c.Int("dim") > 3) c.Set("dim", 3);
      recipes.push_back(MakeSpline(c));
    }
    for (auto &l : plan.lines) {
      if (!IsOp(l.kind)) continue;
      if (stop_) break;
      RunOp(l);
      allocs.push_back(line_allocs);
      op = nullptr;
      uint64_t h = HashStr(l.kind);
      for (auto &s : slots) if (s.obj) h = Mix(h, HashSpline(s.cur));
      r->states.insert(h);
      r->Log(l.kind + " -> " + what_ + " " + std::to_string(h));
    }
    // at the end everything still is what it has to be
    if (!stop_) {
      for (auto &s : slots) {
        if (!s.obj || stop_) continue;
        CheckLibGeometry(s, 99, "at the end");
        r->Count("final-splines");
      }
    }
    if (!stop_) {
      long live0 = env::LiveObjects();
      (void)live0;
      slots.clear();
      gens.clear();
      knots.clear();
    }
  }
};
struct Weights { std::vector<std::pair<const char *, int>> w; };
Weights Profile(const std::string &prop) {
  if (prop == "P11") return {{{"copy", 1}, {"insert", 5}, {"refine", 3}, {"remove", 5}, {"insrem", 3}, {"elevate", 5}, {"reduce", 4}, {"elred", 3}, {"almost", 6}, {"divide", 3}, {"make", 1}, {"random", 1}}};
  if (prop == "P12") return {{{"copy", 1}, {"insert", 4}, {"refine", 3}, {"remove", 5}, {"insrem", 5}, {"elevate", 4}, {"reduce", 4}, {"elred", 4}, {"almost", 4}, {"divide", 3}, {"bad", 1}}};
  if (prop == "P13") return {{{"new", 1}, {"same", 3}, {"gen", 1}, {"make", 3}, {"copy", 4}, {"assign", 4}, {"reuse", 2}, {"drop", 2}, {"insert", 3}, {"refine", 2}, {"remove", 3}, {"elevate", 3}, {"reduce", 3}, {"divide", 3}, {"sweep", 2}, {"random", 1}, {"square", 1}}};
  if (prop == "P14") return {{{"new", 2}, {"gen", 1}, {"make", 1}, {"copy", 2}, {"reuse", 1}, {"insert", 4}, {"refine", 3}, {"remove", 4}, {"elevate", 4}, {"reduce", 4}, {"almost", 2}, {"divide", 3}, {"bad", 5}, {"ask", 5}, {"random", 1}, {"square", 1}, {"sweep", 1}}};
  if (prop == "P15") return {{{"query", 9}, {"ask", 2}, {"copy", 1}, {"assign", 2}, {"make", 1}, {"insert", 2}, {"refine", 1}, {"remove", 2}, {"elevate", 2}, {"reduce", 2}, {"divide", 2}, {"same", 1}}};
  return {{{"random", 8}, {"square", 4}, {"sweep", 5}, {"burn", 3}, {"insert", 2}, {"elevate", 2}, {"remove", 1}, {"copy", 1}, {"make", 1}, {"drop", 1}}};
}
}  // namespace

Plan GenerateWork(const std::string &prop, uint64_t seed, const std::string &tier) {
  Rng g(seed);
  Plan p;
  int nrec = 1 + static_cast<int>(g.Below(3));
  for (int i = 0; i < nrec; ++i) {
    int dim = g.Chance(0.5) ? 1 : (g.Chance(0.65) ? 2 : 3);
    if (prop == "P16" && g.Chance(0.6)) dim = 1;
    Line l = RandomSplineLine(&g, i, dim, "work");
    if (prop == "P16" && dim == 1 && g.Chance(0.7)) l.Set("rat", 1);
    if (g.Chance(0.05)) { auto d = l.Ints("deg"); d[g.Below(d.size())] = 0; l.Set("deg", JoinInts(d)); }
    p.lines.push_back(l);
  }
  for (int i = 0; i < nrec; ++i) {
    if (prop != "P16" && g.Chance(0.3)) { p.Add("gen").Set("of", i); p.Add("make").Set("s", static_cast<long long>(g.Below(4))); }
    else p.Add("new").Set("of", i);
  }
  Weights w = Profile(prop);
  int total = 0;
  for (auto &x : w.w) total += x.second;
  int n = 3 + static_cast<int>(g.Below(tier == "thorough" ? 16 : 9));
  for (int i = 0; i < n; ++i) {
    int c = static_cast<int>(g.Below(total));
    size_t j = 0;
    while (c >= w.w[j].second) c -= w.w[j++].second;
    std::string k = w.w[j].first;
    Line &l = p.Add(k);
    l.Set("s", static_cast<long long>(g.Below(12)));
    if (k == "new" || k == "gen") l.Set("of", static_cast<long long>(g.Below(3)));
    if (k == "assign" || k == "sweep") l.Set("from", static_cast<long long>(g.Below(12)));
    if (k == "same" || k == "reuse" || k == "query" || k == "ask" || k == "bad" || k == "square") l.Set("seed", static_cast<long long>(g.Below(100000)));
    if (k == "bad") l.Set("k", static_cast<long long>(g.Below(9)));
    if (k == "random") { l.Set("dim", static_cast<long long>(g.Below(3))).Set("rat", static_cast<long long>(g.Below(2))).Set("p", static_cast<long long>(g.Below(6))).Set("pd", static_cast<long long>(g.Below(4))).Set("lo", g.Range(-8, 8)).Set("len", static_cast<long long>(g.Below(16))); }
    if (k == "square") { l.Set("p", static_cast<long long>(g.Below(4))).Set("n", static_cast<long long>(g.Below(5))); }
    if (k == "burn") l.Set("n", static_cast<long long>(g.Below(2000)));
    bool pos = k == "insert" || k == "remove" || k == "insrem" || k == "almost" || k == "divide";
    if (pos || k == "refine" || k == "elevate" || k == "reduce" || k == "elred" || k == "bad") l.Set("d", static_cast<long long>(g.Below(6)));
    if (pos) {
      if (g.Chance(k == "remove" ? 0.95 : 0.35)) l.Set("ki", static_cast<long long>(g.Below(12)));
      else l.Set("at", static_cast<long long>(1 + g.Below(999)));
      if (k != "divide") l.Set("m", g.Chance(0.5) ? 0 : static_cast<long long>(g.Below(4)));
    }
    if (k == "refine") {
      std::vector<int> a;
      int m = 1 + static_cast<int>(g.Below(4));
      for (int q = 0; q < m; ++q) a.push_back(!a.empty() && g.Chance(0.25) ? a[0] : 1 + static_cast<int>(g.Below(999)));
      l.Set("ats", JoinInts(a));
    }
    if (k == "almost") l.Set("kind", static_cast<long long>(g.Below(3))).Set("c", static_cast<long long>(g.Below(12))).Set("i", static_cast<long long>(g.Below(60))).Set("amp", static_cast<long long>(g.Below(7))).Set("sign", static_cast<long long>(g.Below(2))).Set("one", static_cast<long long>(g.Below(2)));
    if (k == "remove" || k == "reduce" || k == "almost") l.Set("tol", static_cast<long long>(g.Below(8)));
  }
  // failing allocations, placed by a run without faults
  double pf = prop == "P14" ? 0.75 : (prop == "P13" ? 0.25 : 0.12);
  if (g.Chance(prop == "P14" ? 0.95 : 0.4)) {
    PublishPlan(p);
    Result r;
    Work w0;
    w0.prop = prop;
    w0.r = &r;
    w0.Run(p);
    size_t o = 0;
    for (auto &l : p.lines) {
      if (!IsOp(l.kind)) continue;
      if (o >= w0.allocs.size()) break;
      long a = w0.allocs[o++];
      if (a <= 0 || !g.Chance(pf)) continue;
      l.Set("af", static_cast<long long>(g.Chance(0.25) ? g.Below(std::min(a, 12l)) : g.Below(a)));
      if (g.Chance(0.3)) l.Set("as", 1);
    }
  }
  return p;
}
void ExecuteWork(const std::string &prop, const Plan &plan, Result *result) {
  Work w;
  w.prop = prop;
  w.r = result;
  w.Run(plan);
}
}  // namespace sim
