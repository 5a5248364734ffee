// Thread world: several simulated threads use the library at once (P17 the same splines, P18 splines of their own that
// share data behind the scenes, P19 files of their own).  Nothing here is instrumented; the library and the glue are.
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <any>
#include "env.h"
#include "formats.h"
#include "glue.h"
#include "glue_work.h"
#include "threads.h"
#include "worlds.h"

namespace sim {
namespace {
const int kOps = 64;
struct OpInfo { long allocs = 0, opens = 0, reads = 0, writes = 0, closes = 0; };

std::string Num(double v) { char b[40]; snprintf(b, sizeof b, "%.12g", v); return b; }
std::string Sum(const std::vector<double> &v) {
  uint64_t h = v.size();
  for (double d : v) h = Mix(h, HashDouble(d));
  std::string r = std::to_string(v.size()) + " values";
  for (size_t i = 0; i < v.size() && i < 3; ++i) r += " " + Num(v[i]);
  return r + " #" + std::to_string(h);
}
std::string Sum(const MSpline &m) { return Describe(m) + " #" + std::to_string(HashSpline(m)); }

struct World {
  const Plan &plan;
  Result *res;
  std::string prop;
  std::map<int, MSpline> models;
  std::map<int, WPtr> common;
  std::map<int, std::any> anys;
  std::map<int, std::shared_ptr<WKnots>> kv;
  std::map<int, std::shared_ptr<WGen>> gens;
  struct Thr {
    std::vector<const Line *> ops;
    std::map<int, WPtr> own;
    std::vector<std::string> results;
    std::vector<OpInfo> info;
    std::vector<std::vector<env::Fault>> faults;
    std::vector<std::string> trouble;
    std::map<std::string, long> fired;
  };
  std::vector<Thr> thr;

  World(const Plan &p, Result *r, const std::string &pr) : plan(p), res(r), prop(pr) {}

  bool Setup() {
    env::ResetWorld();
    int n = 2;
    for (auto &l : plan.lines) if (l.kind == "threads") n = std::max(1, std::min(sched::kMax, static_cast<int>(l.Int("n", 2))));
    thr.resize(n);
    for (auto &l : plan.lines) {
      int id = static_cast<int>(l.Int("id")), of = static_cast<int>(l.Int("of"));
      if (l.kind == "clock") env::SetClock(l.Int("now"), 0, l.Str("tz", "UTC0"));
      if (l.kind == "spline") models[id] = MakeSpline(l);
      if (l.kind == "make" && models.count(of) && models[of].dim <= 3) {
        if (!kv.count(of)) kv[of] = MakeKnots(models[of]);
        common[id] = MakeSplineObj(models[of], kv[of]);
      }
      if (l.kind == "gen" && models.count(of) && models[of].dim <= 3) {
        if (!kv.count(of)) kv[of] = MakeKnots(models[of]);
        gens[id] = MakeGen(models[of], kv[of]);
      }
      if (l.kind == "frommgen" && gens.count(of)) common[id] = gens[of]->Make();
      if (l.kind == "copy" && common.count(of)) common[id] = common[of]->Copy();
      if (l.kind == "assign" && common.count(of) && common.count(id)) common[id]->AssignFrom(*common[of]);
      if (l.kind == "sub" && common.count(of)) {
        WPtr a, b;
        MSpline m;
        if (common[of]->Extract(&m).empty()) {
          common[of]->Subdivide(m.Lo(0) + 0.5 * (m.Hi(0) - m.Lo(0)), 0, &a, &b);
          common[id] = a;
          common[id + 1] = b;
        }
      }
      if (l.kind == "any" && models.count(of)) anys[id] = BuildAny(models[of]);
      if (l.kind == "file") {
        std::vector<MSpline> v;
        for (int s : l.Ints("splines")) if (models.count(s) && Supported(l.Str("fmt"), models[s])) v.push_back(models[s]);
        env::PutFile(l.Str("name"), Emit(l.Str("fmt"), v, static_cast<int>(l.Int("style"))));
      }
      int t = static_cast<int>(l.Int("t"));
      if (t < 0 || t >= n) continue;
      if (l.kind == "own" && common.count(id)) { thr[t].own[id] = std::move(common[id]); common.erase(id); }
      if (l.kind == "op" && thr[t].ops.size() < kOps) { thr[t].ops.push_back(&l); thr[t].faults.emplace_back(); }
      if (l.kind == "fault") {
        size_t k = static_cast<size_t>(l.Int("k"));
        env::Fault f;
        f.op = l.Str("op");
        f.n = l.Int("n");
        f.kind = l.Str("kind", "fail");
        f.arg = l.Int("arg");
        f.sticky = l.Int("sticky") != 0;
        if (k < thr[t].faults.size()) thr[t].faults[k].push_back(f);
      }
    }
    for (auto &t : thr) { t.results.resize(t.ops.size()); t.info.resize(t.ops.size()); t.trouble.resize(t.ops.size()); }
    return true;
  }

  WObj *At(Thr *t, int slot, bool modify) {
    auto o = t->own.find(slot);
    if (o != t->own.end()) return o->second.get();
    if (modify) return nullptr;
    auto c = common.find(slot);
    return c == common.end() ? nullptr : c->second.get();
  }

  // One operation, as library code.  The outcome and a summary of the result.
  Outcome Do(Thr *t, const Line &l, std::string *sum) {
    std::string kind = l.Str("kind");
    int slot = static_cast<int>(l.Int("slot")), to = static_cast<int>(l.Int("to")), other = static_cast<int>(l.Int("other"));
    Rng g(static_cast<uint64_t>(l.Int("seed", 1)));
    *sum = "nothing to do";
    Outcome none;
    none.ok = true;
    // --- files
    if (kind == "write") {
      std::vector<std::any> v;
      std::vector<std::vector<int>> scat;
      for (int i : l.Ints("slots")) if (anys.count(i)) {
        v.push_back(anys[i]);
        MSpline m;
        ExtractAny(anys[i], &m);
        scat.push_back(std::vector<int>(m.dim, static_cast<int>(l.Int("cells", 2))));
      }
      Outcome o = LibWrite(l.Str("fmt"), v, l.Str("file"), scat);
      std::string bytes;
      if (o.ok) *sum = env::GetFile(l.Str("file"), &bytes) ? std::to_string(bytes.size()) + " bytes #" + std::to_string(HashStr(bytes)) : "no file";
      return o;
    }
    if (kind == "read") {
      std::vector<std::any> v;
      Outcome o = LibRead(l.Str("fmt"), l.Str("file"), &v);
      if (o.ok) {
        *sum = std::to_string(v.size()) + " splines";
        for (auto &a : v) {
          MSpline m;
          std::string e = ExtractAny(a, &m);
          *sum += "; " + (e.empty() ? Sum(m) : e);
        }
      }
      return o;
    }
    if (kind == "convert") {
      std::vector<int> pos;
      std::vector<std::vector<int>> scat;
      Outcome o;
      std::unique_ptr<Converter> c;
      o = Guarded([&]() { c.reset(new Converter(l.Str("in"), l.Str("file"))); });
      if (!o.ok) return o;
      if (l.Has("cells")) for (int i = 0; i < static_cast<int>(l.Int("count", 1)); ++i) scat.push_back({static_cast<int>(l.Int("cells"))});
      o = c->Convert(l.Ints("pos"), scat, &pos);
      std::string bytes;
      env::GetFile(l.Str("file"), &bytes);
      if (o.ok) *sum = "positions " + JoinInts(pos) + " " + std::to_string(bytes.size()) + " bytes #" + std::to_string(HashStr(bytes));
      return o;
    }
    // --- splines
    if (kind == "random") {
      MSpline m;
      std::string e;
      Outcome o = Guarded([&]() {
        auto gen = MakeRandomGen(static_cast<int>(l.Int("dim", 1)), l.Int("rat") != 0, 0, 1, 3, 2);
        WPtr p = gen->Make();
        e = p->Extract(&m);
      });
      if (o.ok) *sum = e.empty() ? Sum(m) : e;
      return o;
    }
    if (kind == "new") {
      if (!models.count(slot) || models[slot].dim > 3) return none;
      const MSpline &m = models[slot];
      WPtr p;
      Outcome o = Guarded([&]() { p = MakeSplineObj(m, l.Int("shared") && kv.count(slot) ? kv[slot] : MakeKnots(m)); });
      if (o.ok) { t->own[to] = p; *sum = "made"; }
      return o;
    }
    if (kind == "make") {
      if (!gens.count(slot)) return none;
      const WGen *gen = gens[slot].get();
      WPtr p;
      Outcome o = Guarded([&]() { p = gen->Make(); });
      if (o.ok) { t->own[to] = p; *sum = "made"; }
      return o;
    }
    if (kind == "drop") {
      auto it = t->own.find(slot);
      if (it == t->own.end()) return none;
      WPtr p = std::move(it->second);
      t->own.erase(it);
      *sum = "dropped";
      return Guarded([&]() { p.reset(); });
    }
    bool modify = kind == "sub" || kind == "insert" || kind == "refine" || kind == "remove" || kind == "elevate" || kind == "reduce" || kind == "assign";
    WObj *s = At(t, slot, modify);
    if (!s) return none;
    // what is needed to choose arguments is taken from the object without being simulated
    MSpline m;
    std::string bad = s->Extract(&m);
    if (!bad.empty()) { *sum = "malformed: " + bad; return none; }
    int d = static_cast<int>(g.Below(m.dim));
    std::vector<double> u(m.dim);
    for (int i = 0; i < m.dim; ++i) {
      u[i] = m.Lo(i) + (m.Hi(i) - m.Lo(i)) * g.Unit();
      if (g.Chance(0.3)) u[i] = m.knots[i][g.Below(m.knots[i].size())];
    }
    std::vector<int> dims;
    for (int i = 0; i < m.pd; ++i) dims.push_back(i);
    std::vector<double> v;
    Outcome o;
    if (kind == "eval") {
      o = Guarded([&]() { v = s->Eval(u, dims); });
      *sum = Sum(v);
    } else if (kind == "deriv") {
      std::vector<int> order(m.dim);
      for (int i = 0; i < m.dim; ++i) order[i] = static_cast<int>(g.Below(i == 0 ? 3 : 2));
      o = Guarded([&]() { v = s->Deriv(u, dims, order); });
      *sum = Sum(v);
    } else if (kind == "basis") {
      o = Guarded([&]() { v = s->Basis(d, u[d]); });
      *sum = Sum(v);
    } else if (kind == "basisderiv") {
      o = Guarded([&]() { v = s->BasisDeriv(d, u[d], 1); });
      *sum = Sum(v);
    } else if (kind == "state") {
      MSpline x;
      std::string e;
      o = Guarded([&]() { e = s->Extract(&x); });
      if (o.ok) *sum = e.empty() ? Sum(x) : e;
    } else if (kind == "elements") {
      std::vector<std::vector<double>> e;
      o = Guarded([&]() { e = s->Elements(); });
      for (auto &x : e) v.insert(v.end(), x.begin(), x.end());
      *sum = Sum(v);
    } else if (kind == "measure") {
      o = Guarded([&]() { v = {s->Expansion(), s->Range(d), s->Homogeneous(std::vector<int>(m.dim, 0), 0), s->GetWeight(std::vector<int>(m.dim, 0))}; });
      *sum = Sum(v);
    } else if (kind == "project") {
      if (m.dim > 2 || (m.dim == 2 && m.pd != 3)) return none;  // the surface projection is for points in space
      std::vector<double> x(m.pd);
      for (double &c : x) c = 2 * g.Unit() - 1;
      o = Guarded([&]() { v = s->Project(x); });
      *sum = Sum(v);
    } else if (kind == "equal" || kind == "geoequal") {
      WObj *x = At(t, other, false);
      if (!x || x->Dim() != s->Dim() || x->Rat() != s->Rat()) return none;
      bool r = false;
      o = Guarded([&]() { r = kind == "equal" ? s->Equal(*x, 1e-6) : s->GeoEqual(*x, 1e-6); });
      *sum = r ? "yes" : "no";
    } else if (kind == "copy") {
      WPtr p;
      o = Guarded([&]() { p = s->Copy(); });
      if (o.ok) { t->own[to] = p; *sum = "copied"; }
    } else if (kind == "reuse") {
      if (!s->Rat()) return none;
      MSpline x;
      o = Guarded([&]() { WPtr p = s->Reuse(m.cp, m.pd); if (p) p->Extract(&x); });
      if (o.ok) *sum = Sum(x);
    } else if (kind == "sub") {
      WPtr a, b;
      MSpline x, y;
      double at = m.Lo(d) + (m.Hi(d) - m.Lo(d)) * (0.2 + 0.6 * g.Unit());
      o = Guarded([&]() { s->Subdivide(at, d, &a, &b); a->Extract(&x); b->Extract(&y); a.reset(); });
      if (o.ok) { t->own[to] = b; *sum = Sum(x) + " " + Sum(y); }
    } else if (kind == "sweep") {
      WObj *x = At(t, other, false);
      if (!x || m.dim != 1 || !m.rat || x->Dim() != 1 || !x->Rat()) return none;
      MSpline y, xm;
      x->Extract(&xm);
      if (xm.pd != m.pd) return none;
      o = Guarded([&]() { auto gen = MakeSweep(*s, *x); WPtr p = gen->Make(); p->Extract(&y); });
      if (o.ok) *sum = Sum(y);
    } else if (kind == "insert") {
      int mult = 1 + static_cast<int>(g.Below(2));
      o = Guarded([&]() { s->Insert(u[d], d, mult); });
    } else if (kind == "refine") {
      std::vector<double> k = {m.Lo(d) + (m.Hi(d) - m.Lo(d)) * g.Unit(), m.Lo(d) + (m.Hi(d) - m.Lo(d)) * g.Unit()};
      std::sort(k.begin(), k.end());
      o = Guarded([&]() { s->Refine(k, d); });
    } else if (kind == "remove") {
      size_t r = 0;
      o = Guarded([&]() { r = s->Remove(m.knots[d][m.knots[d].size() / 2], d, 1e-3, 1); });
      *sum = "removed " + std::to_string(r);
    } else if (kind == "elevate") {
      if (m.deg[d] > 4) return none;
      o = Guarded([&]() { s->Elevate(d); });
    } else if (kind == "reduce") {
      if (m.deg[d] < 2) return none;
      bool r = false;
      o = Guarded([&]() { r = s->Reduce(d, 1e-3); });
      *sum = r ? "yes" : "no";
    } else if (kind == "assign") {
      WObj *x = At(t, other, false);
      if (!x || x == s) return none;
      bool r = false;
      o = Guarded([&]() { r = s->AssignFrom(*x); });
      *sum = r ? "assigned" : "other type";
    } else {
      return none;
    }
    if (modify && o.ok) {
      MSpline x;
      std::string e = s->Extract(&x);
      *sum += " " + (e.empty() ? Sum(x) : e);
    }
    return o;
  }

  void RunThread(int i, bool with_faults) {
    Thr &t = thr[i];
    for (size_t k = 0; k < t.ops.size(); ++k) {
      std::string sum;
      bool faults = with_faults && !t.faults[k].empty() && t.ops[k]->Str("kind") != "random";
      if (faults) {
        env::Arm(t.faults[k], -1);
        Outcome o = Do(&t, *t.ops[k], &sum);
        bool fired = false;
        for (auto &f : env::Armed()) if (f.fired) { fired = true; t.fired[f.op + "-" + f.kind] += 1; }
        env::Arm({}, -1);
        if (o.unknown) t.trouble[k] = "an exception that is no std::exception was thrown";
        if (o.ok || !fired) { t.results[k] = (o.ok ? "ok " : "exception " + o.what + " ") + sum; continue; }
      } else {
        env::Arm({}, -1);
      }
      Outcome o = Do(&t, *t.ops[k], &sum);
      t.results[k] = (o.ok ? "ok " : "exception " + o.what + " ") + sum;
      auto &c = env::LastCounts();
      t.info[k].allocs = c.allocs;
      auto ev = [&](const char *n) { auto it = c.ev.find(n); return it == c.ev.end() ? 0l : it->second; };
      t.info[k].opens = ev("open");
      t.info[k].reads = ev("read");
      t.info[k].writes = ev("write");
      t.info[k].closes = ev("close");
    }
  }

  // The results of every thread on its own, in a process of its own: nothing it sets up stays.
  bool Reference(std::vector<std::vector<std::string>> *out) {
    const size_t n = 4u << 20;
    char *shm = static_cast<char *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    pid_t p = fork();
    if (p == 0) {
      alarm(100);
      for (size_t i = 0; i < thr.size(); ++i) {
        struct A { World *w; int i; } a = {this, static_cast<int>(i)};
        pthread_t h;
        auto f = [](void *x) -> void * { auto *y = static_cast<A *>(x); y->w->RunThread(y->i, false); return nullptr; };
        if (pthread_create(&h, nullptr, f, &a) != 0) _exit(88);
        pthread_join(h, nullptr);
      }
      std::string all;
      for (auto &t : thr) for (auto &r : t.results) { std::string s = r; for (char &c : s) if (c == '\n') c = ' '; all += s + "\n"; }
      memcpy(shm + 8, all.data(), std::min(all.size(), n - 16));
      uint64_t len = std::min(all.size(), n - 16);
      memcpy(shm, &len, 8);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) != p) {}
    uint64_t len;
    memcpy(&len, shm, 8);
    std::istringstream in(std::string(shm + 8, len));
    munmap(shm, n);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return false;
    for (auto &t : thr) {
      out->emplace_back();
      for (size_t k = 0; k < t.ops.size(); ++k) { std::string l; std::getline(in, l); out->back().push_back(l); }
    }
    return true;
  }

  sched::Report Threads(bool with_faults, const std::vector<sched::Switch> &sw) {
    std::vector<std::function<void()>> f;
    for (size_t i = 0; i < thr.size(); ++i) f.push_back([this, i, with_faults]() { RunThread(static_cast<int>(i), with_faults); });
    return sched::Run(f, sw);
  }
};
}  // namespace

void ExecuteThread(const std::string &prop, const Plan &plan, Result *r) {
  World w(plan, r, prop);
  w.Setup();
  std::vector<std::vector<std::string>> want;
  if (!w.Reference(&want)) { r->Violate("alone", "the operations of the threads, one after the other, end the process"); return; }
  std::map<int, std::string> before;
  for (auto &c : w.common) { MSpline m; c.second->Extract(&m); before[c.first] = Sum(m); }
  std::vector<sched::Switch> sw;
  for (auto &l : plan.lines) if (l.kind == "sched") sw.push_back({static_cast<long>(l.Int("step")), static_cast<int>(l.Int("to"))});
  sched::Report rep = w.Threads(true, sw);
  r->Count("steps", rep.steps);
  r->Count("threads", static_cast<long>(w.thr.size()));
  r->Count("points", static_cast<long>(rep.points.size()));
  if (rep.switches) { r->Count("fault:preemption", rep.switches); r->Count("nontrivial"); }
  r->states.insert(rep.order);
  r->Log("steps " + std::to_string(rep.steps) + " switches " + std::to_string(rep.switches) + " order " + std::to_string(rep.order));
  for (size_t i = 0; i < w.thr.size(); ++i) {
    for (auto &f : w.thr[i].fired) r->Count("fault:" + f.first, f.second);
    for (size_t k = 0; k < w.thr[i].ops.size(); ++k) {
      r->Count("operations");
      r->Log("thread " + std::to_string(i) + " " + w.thr[i].ops[k]->Str("kind") + ": " + w.thr[i].results[k]);
      r->states.insert(Mix(HashStr(w.thr[i].results[k]), rep.order));
    }
  }
  if (!rep.races.empty()) r->Violate("race", rep.races[0]);
  if (rep.stuck) { r->Violate("stuck", rep.stuck_text); return; }
  for (size_t i = 0; i < w.thr.size(); ++i) {
    for (size_t k = 0; k < w.thr[i].ops.size(); ++k) {
      std::string got = w.thr[i].results[k];
      for (char &c : got) if (c == '\n') c = ' ';
      std::string where = "thread " + std::to_string(i) + " operation " + std::to_string(k) + " (" + w.thr[i].ops[k]->Str("kind") + "): ";
      if (!w.thr[i].trouble[k].empty()) r->Violate("exception", where + w.thr[i].trouble[k]);
      if (got != want[i][k]) r->Violate("differs", where + "result is '" + got + "' but '" + want[i][k] + "' if the thread runs alone");
    }
  }
  for (auto &c : w.common) {
    MSpline m;
    std::string e = c.second->Extract(&m);
    if (!e.empty() || Sum(m) != before[c.first]) r->Violate("changed", "spline " + std::to_string(c.first) + " that the threads only read is not as before: " + e);
  }
}

Plan GenerateThread(const std::string &prop, uint64_t seed, const std::string &tier) {
  Rng r(Mix(HashStr(prop), seed));
  Plan plan;
  int n = r.Chance(0.5) ? 2 : r.Range(2, 4);
  plan.Add("threads").Set("n", n);
  bool io = prop == "P19";
  int nspl = r.Range(1, 3);
  if (io) {
    static const std::vector<std::string> tz = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30"};
    plan.Add("clock").Set("now", static_cast<long long>(r.Below(4000000000ull))).Set("tz", r.Pick(tz));
  }
  std::vector<int> dim(nspl);
  for (int i = 0; i < nspl; ++i) {
    dim[i] = r.Chance(0.55) ? 1 : r.Chance(0.8) ? 2 : 3;
    Line l = RandomSplineLine(&r, i, dim[i], io ? "io" : "work");
    if (dim[i] == 3) l.Set("deg", "1,2,1").Set("nk", "0,0,1");
    if (r.Chance(0.3) && i > 0) { l = plan.lines.back(); l.Set("id", i); dim[i] = dim[i - 1]; }
    plan.lines.push_back(l);
  }
  int len = tier == "thorough" ? 8 : 5;
  static const std::vector<std::string> queries = {"eval", "eval", "deriv", "basis", "basisderiv", "state", "elements", "measure", "equal", "geoequal", "copy", "reuse", "sweep", "project"};
  static const std::vector<std::string> mods = {"insert", "refine", "remove", "elevate", "reduce", "assign", "sub"};
  if (!io) {
    int slots = 0, ngen = 0;
    bool bare = prop == "P18" && r.Chance(0.2);  // the threads make everything themselves
    if (!bare) {
      for (int i = 0; i < nspl; ++i) {
        if (r.Chance(0.4)) {
          plan.Add("gen").Set("id", ngen).Set("of", i);
          int c = r.Range(1, 3);
          for (int k = 0; k < c; ++k) plan.Add("frommgen").Set("id", slots++).Set("of", ngen);
          ++ngen;
        } else {
          int c = r.Range(1, 2);
          for (int k = 0; k < c; ++k) plan.Add("make").Set("id", slots++).Set("of", i);
        }
      }
      int extra = static_cast<int>(r.Below(prop == "P18" ? 5 : 3));
      for (int k = 0; k < extra; ++k) {
        if (r.Chance(0.7)) plan.Add("copy").Set("id", slots++).Set("of", static_cast<long long>(r.Below(slots)));
        else if (r.Chance(0.5)) plan.Add("assign").Set("id", static_cast<long long>(r.Below(slots))).Set("of", static_cast<long long>(r.Below(slots)));
        else { plan.Add("sub").Set("id", slots).Set("of", static_cast<long long>(r.Below(slots))); slots += 2; }
      }
    }
    std::vector<std::vector<int>> own(n);
    if (prop == "P18") {
      for (int s = 0; s < slots; ++s) if (r.Chance(0.75)) { int t = static_cast<int>(r.Below(n)); own[t].push_back(s); plan.Add("own").Set("id", s).Set("t", t); }
    }
    for (int t = 0; t < n; ++t) {
      int fresh = 100 + 20 * t, c = r.Range(1, len);
      for (int k = 0; k < c; ++k) {
        auto any_slot = [&]() { return own[t].empty() || r.Chance(0.3) ? static_cast<int>(r.Below(std::max(1, slots))) : r.Pick(own[t]); };
        Line l("op");
        l.Set("t", t);
        if (prop == "P18" && (own[t].empty() || r.Chance(0.15))) {
          std::string what = r.Chance(0.25) ? "random" : r.Chance(0.4) && ngen ? "make" : "new";
          l.Set("kind", what);
          if (what == "random") l.Set("dim", r.Range(1, 2)).Set("rat", static_cast<long long>(r.Below(2)));
          else { l.Set("slot", static_cast<long long>(r.Below(what == "make" ? ngen : nspl))).Set("to", fresh).Set("shared", static_cast<long long>(r.Below(2))); own[t].push_back(fresh++); }
        } else if (prop == "P18" && r.Chance(0.6)) {
          std::string q = r.Pick(mods);
          l.Set("kind", q).Set("slot", r.Pick(own[t])).Set("other", any_slot());
          if (q == "sub") { l.Set("to", fresh); own[t].push_back(fresh++); }
        } else if (prop == "P18" && r.Chance(0.12)) {
          l.Set("kind", "drop").Set("slot", r.Pick(own[t]));
        } else {
          std::string q = r.Pick(queries);
          if ((q == "geoequal" || q == "project") && r.Chance(q == "project" ? 0.75 : 0.6)) q = "eval";
          if (prop == "P17" && ngen && r.Chance(0.1)) q = "make";
          l.Set("kind", q).Set("slot", q == "make" ? static_cast<int>(r.Below(ngen)) : any_slot()).Set("other", any_slot());
          if (q == "copy" || q == "make") { l.Set("to", fresh); if (prop == "P18") own[t].push_back(fresh); ++fresh; }
        }
        l.Set("seed", static_cast<long long>(r.Below(100000)));
        plan.lines.push_back(l);
      }
    }
  } else {
    static const std::vector<std::string> fmts = {"iges", "itd", "xml"};
    for (int i = 0; i < nspl; ++i) plan.Add("any").Set("id", i).Set("of", i);
    int shared = static_cast<int>(r.Below(3));
    std::vector<std::pair<std::string, std::string>> in;
    for (int i = 0; i < shared; ++i) {
      std::string f = r.Pick(fmts);
      std::vector<int> ids;
      for (int s = 0; s < nspl; ++s) ids.push_back(s);
      std::string name = "/d/in" + std::to_string(i) + "." + f;
      in.emplace_back(f, name);
      plan.Add("file").Set("name", name).Set("fmt", f).Set("splines", JoinInts(ids)).Set("style", static_cast<long long>(r.Below(256)));
    }
    for (int t = 0; t < n; ++t) {
      int c = r.Range(1, std::max(2, len - 2));
      std::vector<std::pair<std::string, std::string>> mine = in;
      for (int k = 0; k < c; ++k) {
        Line l("op");
        l.Set("t", t);
        std::string out = "/d/t" + std::to_string(t) + "_" + std::to_string(r.Below(2));
        if (!mine.empty() && r.Chance(0.35)) {
          auto f = r.Pick(mine);
          l.Set("kind", "read").Set("fmt", f.first).Set("file", f.second);
        } else if (!mine.empty() && r.Chance(0.3)) {
          auto f = r.Pick(mine);
          std::string fmt = r.Pick(fmts);
          l.Set("kind", "convert").Set("in", f.second).Set("file", out + "c." + fmt).Set("pos", "");
        } else {
          std::string fmt = r.Chance(0.25) ? "vtk" : r.Pick(fmts);
          std::vector<int> ids;
          for (int s = 0; s < nspl; ++s) if (r.Chance(0.7) && (fmt == "vtk" || fmt != "iges" || dim[s] <= 2)) ids.push_back(s);
          l.Set("kind", "write").Set("fmt", fmt).Set("file", out + "." + fmt).Set("slots", JoinInts(ids)).Set("cells", r.Range(1, 3));
          if (fmt != "vtk") mine.emplace_back(fmt, out + "." + fmt);
        }
        plan.lines.push_back(l);
      }
    }
  }
  PublishPlan(plan);
  // a run without switches and faults shows how many steps, allocations and I/O events there are
  World w(plan, nullptr, prop);
  w.Setup();
  sched::Report rep = w.Threads(false, {});
  if (rep.stuck) return plan;
  for (int t = 0; t < n; ++t) {
    if (!r.Chance(0.4)) continue;
    for (size_t k = 0; k < w.thr[t].ops.size(); ++k) {
      auto &f = w.thr[t].info[k];
      if (f.allocs > 0 && r.Chance(0.3)) {
        Line l("fault");
        l.Set("t", t).Set("k", static_cast<long long>(k)).Set("op", "alloc").Set("n", static_cast<long long>(r.Below(f.allocs))).Set("kind", "fail");
        if (r.Chance(0.2)) l.Set("sticky", 1);
        plan.lines.push_back(l);
      }
      auto io_fault = [&](const char *op, long count, const std::vector<std::string> &kinds) {
        if (count > 0 && r.Chance(0.15)) plan.Add("fault").Set("t", t).Set("k", static_cast<long long>(k)).Set("op", op).Set("n", static_cast<long long>(r.Below(count))).Set("kind", r.Pick(kinds)).Set("arg", static_cast<long long>(r.Below(1000)));
      };
      io_fault("open", f.opens, {"eacces", "emfile", "eio"});
      io_fault("read", f.reads, {"short", "eio", "eof"});
      io_fault("write", f.writes, {"short", "enospc", "eio", "torn"});
      io_fault("close", f.closes, {"eio"});
    }
  }
  // where to switch: at places of the program that touch what others use, each place with the same weight whatever
  // often it is passed; some anywhere
  std::map<uint64_t, std::vector<long>> places;
  for (auto &p : rep.points) places[p.where].push_back(p.step);
  std::vector<uint64_t> keys;
  for (auto &p : places) keys.push_back(p.first);
  int k = r.Chance(0.05) ? 0 : r.Chance(0.4) ? r.Range(1, 3) : r.Chance(0.6) ? r.Range(4, 12) : r.Range(13, 60);
  for (int i = 0; i < k; ++i) {
    long step = 1 + static_cast<long>(r.Below(std::max(1l, rep.steps)));
    if (!keys.empty() && r.Chance(0.7)) step = r.Pick(places[r.Pick(keys)]) + static_cast<long>(r.Below(3)) - 1;
    plan.Add("sched").Set("step", std::max(1l, step)).Set("to", static_cast<long long>(r.Below(n)));
    if (r.Chance(0.5)) plan.Add("sched").Set("step", std::max(1l, step) + static_cast<long>(r.Below(r.Chance(0.5) ? 30 : 3000))).Set("to", static_cast<long long>(r.Below(n)));
  }
  return plan;
}
}  // namespace sim
