#include "glue.h"
#include "env.h"
#include "b_spline.h"
#include "nurbs.h"
namespace sim {
namespace {
template<int DIM> std::any Build(const MSpline &s) {
  KnotVectors<DIM> kv;
  std::array<Degree, DIM> deg;
  for (int d = 0; d < DIM; ++d) {
    std::vector<ParamCoord> k;
    for (double v : s.knots[d]) k.push_back(ParamCoord{v});
    kv[d] = std::make_shared<baf::KnotVector>(k);
    deg[d] = Degree{s.deg[d]};
  }
  std::vector<baf::ControlPoint> cp;
  for (int i = 0; i < s.Total(); ++i)
    cp.emplace_back(std::vector<double>(s.cp.begin() + i * s.pd, s.cp.begin() + (i + 1) * s.pd));
  if (s.rat) return std::make_any<std::shared_ptr<spl::NURBS<DIM>>>(std::make_shared<spl::NURBS<DIM>>(kv, deg, cp, s.w));
  return std::make_any<std::shared_ptr<spl::BSpline<DIM>>>(std::make_shared<spl::BSpline<DIM>>(kv, deg, cp));
}
template<int DIM> const spl::Spline<DIM> *Cast(const std::any &a, bool *rat) {
  if (auto p = std::any_cast<std::shared_ptr<spl::BSpline<DIM>>>(&a)) { *rat = false; return p->get(); }
  if (auto p = std::any_cast<std::shared_ptr<spl::NURBS<DIM>>>(&a)) { *rat = true; return p->get(); }
  return nullptr;
}
template<int DIM> bool Extract(const std::any &a, MSpline *m, std::string *err) {
  bool rat;
  const spl::Spline<DIM> *s = Cast<DIM>(a, &rat);
  if (!s) return false;
  *m = MSpline();
  m->dim = DIM;
  m->rat = rat;
  m->pd = s->GetPointDim();
  for (int d = 0; d < DIM; ++d) {
    m->deg.push_back(s->GetDegree(d).get());
    m->knots.emplace_back();
    auto kv = s->GetKnotVector(d);
    for (size_t i = 0; i < kv->GetNumberOfKnots(); ++i) m->knots[d].push_back(kv->GetKnot(i).get());
  }
  auto n = s->GetPointsPerDirection();
  long total = 1;
  for (int d = 0; d < DIM; ++d) {
    if (n[d] != m->N(d)) { *err = "points per direction do not match the knot vector"; return true; }
    total *= n[d];
  }
  if (total != s->GetNumberOfControlPoints()) { *err = "number of control points does not match the points per direction"; return true; }
  std::array<int, DIM> idx{};
  for (long i = 0; i < total; ++i) {
    for (int c = 0; c < m->pd; ++c) m->cp.push_back(s->GetControlPoint(idx, c));
    if (rat) m->w.push_back(s->GetWeight(idx));
    for (int d = 0; d < DIM; ++d) { if (++idx[d] < n[d]) break; idx[d] = 0; }
  }
  return true;
}
template<int DIM> bool Probe(const std::any &a, std::vector<double> *v) {
  bool rat;
  const spl::Spline<DIM> *s = Cast<DIM>(a, &rat);
  if (!s) return false;
  std::vector<int> dims;
  for (int c = 0; c < std::min(3, s->GetPointDim()); ++c) dims.push_back(c);
  for (int k = 0; k < 4; ++k) {
    std::array<ParamCoord, DIM> u;
    for (int d = 0; d < DIM; ++d) {
      double lo = s->GetKnotVector(d)->GetKnot(0).get(), hi = s->GetKnotVector(d)->GetLastKnot().get();
      static const double f[4] = {0.0, 1.0, 0.5, 0.3125};
      u[d] = ParamCoord{k == 1 ? hi : lo + f[k] * (hi - lo)};
    }
    for (double x : s->Evaluate(u, dims)) v->push_back(x);
  }
  return true;
}
}  // namespace

std::any BuildAny(const MSpline &s) {
  switch (s.dim) {
    case 1: return Build<1>(s);
    case 2: return Build<2>(s);
    case 3: return Build<3>(s);
    default: return Build<4>(s);
  }
}
std::string ExtractAny(const std::any &a, MSpline *s) {
  std::string err;
  if (Extract<1>(a, s, &err) || Extract<2>(a, s, &err) || Extract<3>(a, s, &err) || Extract<4>(a, s, &err)) return err;
  return "no spline";
}
std::string ProbeAny(const std::any &a, std::vector<double> *v) {
  if (Probe<1>(a, v) || Probe<2>(a, v) || Probe<3>(a, v) || Probe<4>(a, v)) return "";
  return "no spline";
}
Outcome Guarded(const std::function<void()> &f) {
  Outcome o;
  try {
    env::Scope scope;
    f();
    o.ok = true;
  } catch (const std::bad_alloc &e) {
    o.what = "bad_alloc";
    o.bad_alloc = true;
  } catch (const std::exception &e) {
    o.what = e.what();
  } catch (...) {
    o.what = "unknown exception";
    o.unknown = true;
  }
  return o;
}
}  // namespace sim
