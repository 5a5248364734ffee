#include "glue_work.h"
#include "b_spline.h"
#include "b_spline_generator.h"
#include "element_generator.h"
#include "nurbs.h"
#include "nurbs_generator.h"
#include "projection.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.h"
#include "surface_generator.h"
namespace sim {
namespace {
template<int DIM, bool RAT> struct Type { typedef spl::BSpline<DIM> S; typedef spl::BSplineGenerator<DIM> G; typedef spl::RandomBSplineGenerator<DIM> R; };
template<int DIM> struct Type<DIM, true> { typedef spl::NURBS<DIM> S; typedef spl::NURBSGenerator<DIM> G; typedef spl::RandomNURBSGenerator<DIM> R; };

template<int DIM> std::array<ParamCoord, DIM> U(const std::vector<double> &u) {
  std::array<ParamCoord, DIM> r;
  for (int d = 0; d < DIM; ++d) r[d] = ParamCoord{u[d]};
  return r;
}
template<int DIM> std::array<int, DIM> I(const std::vector<int> &v) {
  std::array<int, DIM> r;
  for (int d = 0; d < DIM; ++d) r[d] = v[d];
  return r;
}
std::vector<baf::ControlPoint> Points(const std::vector<double> &cp, int pd) {
  std::vector<baf::ControlPoint> r;
  for (size_t i = 0; i + pd <= cp.size(); i += pd) r.emplace_back(std::vector<double>(cp.begin() + i, cp.begin() + i + pd));
  return r;
}

template<int DIM, bool RAT> struct Impl : WObj {
  typedef typename Type<DIM, RAT>::S S;
  std::shared_ptr<S> s;
  explicit Impl(std::shared_ptr<S> p) : s(std::move(p)) {}
  int Dim() const override { return DIM; }
  bool Rat() const override { return RAT; }
  std::string Extract(MSpline *m) const override {
    *m = MSpline();
    m->dim = DIM;
    m->rat = RAT;
    m->pd = s->GetPointDim();
    for (int d = 0; d < DIM; ++d) {
      m->deg.push_back(s->GetDegree(d).get());
      m->knots.emplace_back();
      auto kv = s->GetKnotVector(d);
      for (size_t i = 0; i < kv->GetNumberOfKnots(); ++i) m->knots[d].push_back(kv->GetKnot(i).get());
    }
    auto n = s->GetPointsPerDirection();
    long total = 1;
    for (int d = 0; d < DIM; ++d) {
      if (n[d] != m->N(d)) return std::to_string(n[d]) + " control points in direction " + std::to_string(d) + " for " + std::to_string(m->knots[d].size()) + " knots and degree " + std::to_string(m->deg[d]);
      total *= n[d];
    }
    if (total != s->GetNumberOfControlPoints()) return std::to_string(s->GetNumberOfControlPoints()) + " control points instead of " + std::to_string(total);
    std::array<int, DIM> idx{};
    for (long i = 0; i < total; ++i) {
      for (int c = 0; c < m->pd; ++c) m->cp.push_back(s->GetControlPoint(idx, c));
      if (RAT) m->w.push_back(s->GetWeight(idx));
      for (int d = 0; d < DIM; ++d) { if (++idx[d] < n[d]) break; idx[d] = 0; }
    }
    return CheckWellFormed(*m);
  }
  std::vector<double> Eval(const std::vector<double> &u, const std::vector<int> &dims) const override { return s->Evaluate(U<DIM>(u), dims); }
  std::vector<double> Deriv(const std::vector<double> &u, const std::vector<int> &dims, const std::vector<int> &o) const override { return s->EvaluateDerivative(U<DIM>(u), dims, I<DIM>(o)); }
  std::vector<double> Basis(int d, double u) const override { return s->EvaluateAllNonZeroBasisFunctions(d, ParamCoord{u}); }
  std::vector<double> BasisDeriv(int d, double u, int o) const override { return s->EvaluateAllNonZeroBasisFunctionDerivatives(d, ParamCoord{u}, o); }
  void Insert(double u, int d, int m) override { s->InsertKnot(ParamCoord{u}, d, static_cast<size_t>(m)); }
  void Refine(const std::vector<double> &u, int d) override {
    std::vector<ParamCoord> k;
    for (double x : u) k.push_back(ParamCoord{x});
    s->RefineKnots(k, d);
  }
  size_t Remove(double u, int d, double tol, int m) override { return s->RemoveKnot(ParamCoord{u}, d, tol, static_cast<size_t>(m)); }
  void Elevate(int d) override { s->ElevateDegreeForDimension(d); }
  bool Reduce(int d, double tol) override { return s->ReduceDegreeForDimension(d, tol); }
  void Subdivide(double u, int d, WPtr *a, WPtr *b) override {
    auto r = s->SudivideSpline(ParamCoord{u}, d);
    WPtr x = std::make_shared<Impl>(r[0]), y = std::make_shared<Impl>(r[1]);
    *a = x;
    *b = y;
  }
  WPtr Copy() const override { return std::make_shared<Impl>(std::make_shared<S>(*s)); }
  bool AssignFrom(const WObj &o) override {
    auto p = dynamic_cast<const Impl *>(&o);
    if (!p) return false;
    *s = *p->s;
    return true;
  }
  WPtr Reuse(const std::vector<double> &cp, int pd) const override {
    if constexpr (RAT) return std::make_shared<Impl>(std::make_shared<S>(*s, Points(cp, pd)));
    else return nullptr;
  }
  bool Equal(const WObj &o, double tol) const override { return s->AreEqual(*dynamic_cast<const Impl &>(o).s, tol); }
  bool GeoEqual(const WObj &o, double tol) const override {
    if (auto p = dynamic_cast<const Impl<DIM, false> *>(&o)) return s->AreGeometricallyEqual(*p->s, tol);
    return s->AreGeometricallyEqual(*dynamic_cast<const Impl<DIM, true> &>(o).s, tol);
  }
  double Expansion() const override { return s->GetExpansion(); }
  std::vector<std::vector<double>> Elements() const override {
    util::ElementGenerator<DIM> g(s);
    std::vector<std::vector<double>> r(DIM);
    for (int d = 0; d < DIM; ++d) for (auto &e : g.GetElementList(d)) { r[d].push_back(e.GetLowerBound().get()); r[d].push_back(e.GetUpperBound().get()); }
    return r;
  }
  double Range(int d) const override { return s->GetKnotVectorRange(d); }
  double Homogeneous(const std::vector<int> &idx, int c) const override {
    if constexpr (RAT) return s->GetHomogeneousControlPoint(I<DIM>(idx), c);
    else return s->GetControlPoint(I<DIM>(idx), c);
  }
  double GetWeight(const std::vector<int> &idx) const override { return s->GetWeight(I<DIM>(idx)); }
  std::vector<double> Project(const std::vector<double> &point) const override {
    std::vector<double> r;
    const double step = 1e9;  // the search for a start and one step: iterating to convergence costs too many simulated steps
    if constexpr (DIM == 1) for (auto &u : spl::Projection<1>::ProjectionOnCurve(point, s, step)) r.push_back(u.get());
    if constexpr (DIM == 2) for (auto &u : spl::Projection<2>::ProjectionOnSurface(point, s, {3, 2}, step)) r.push_back(u.get());
    return r;
  }
};

template<int DIM> struct KnotsImpl : WKnots {
  KnotVectors<DIM> kv;
  explicit KnotsImpl(const MSpline &s) {
    for (int d = 0; d < DIM; ++d) {
      std::vector<ParamCoord> k;
      for (double v : s.knots[d]) k.push_back(ParamCoord{v});
      kv[d] = std::make_shared<baf::KnotVector>(k);
    }
  }
  std::vector<std::vector<double>> Values() const override {
    std::vector<std::vector<double>> r(DIM);
    for (int d = 0; d < DIM; ++d) for (size_t i = 0; i < kv[d]->GetNumberOfKnots(); ++i) r[d].push_back(kv[d]->GetKnot(i).get());
    return r;
  }
};
template<int DIM> std::array<Degree, DIM> Deg(const MSpline &s) {
  std::array<Degree, DIM> r;
  for (int d = 0; d < DIM; ++d) r[d] = Degree{s.deg[d]};
  return r;
}
template<int DIM> WPtr Build(const MSpline &s, const WKnots &k) {
  auto &kv = dynamic_cast<const KnotsImpl<DIM> &>(k).kv;
  if (s.rat) return std::make_shared<Impl<DIM, true>>(std::make_shared<spl::NURBS<DIM>>(kv, Deg<DIM>(s), Points(s.cp, s.pd), s.w));
  return std::make_shared<Impl<DIM, false>>(std::make_shared<spl::BSpline<DIM>>(kv, Deg<DIM>(s), Points(s.cp, s.pd)));
}
template<int DIM, bool RAT> struct GenImpl : WGen {
  typename Type<DIM, RAT>::G g;
  explicit GenImpl(const typename Type<DIM, RAT>::G &x) : g(x) {}
  WPtr Make() const override { return std::make_shared<Impl<DIM, RAT>>(std::make_shared<typename Type<DIM, RAT>::S>(g)); }
};
template<int DIM> std::shared_ptr<WGen> Gen(const MSpline &s, const WKnots &k) {
  auto &kv = dynamic_cast<const KnotsImpl<DIM> &>(k).kv;
  if (s.rat) return std::make_shared<GenImpl<DIM, true>>(spl::NURBSGenerator<DIM>(kv, Deg<DIM>(s), Points(s.cp, s.pd), s.w));
  return std::make_shared<GenImpl<DIM, false>>(spl::BSplineGenerator<DIM>(kv, Deg<DIM>(s), Points(s.cp, s.pd)));
}
template<int DIM> std::shared_ptr<WGen> RandomG(bool rat, double lo, double hi, int p, int pd) {
  std::array<ParamCoord, 2> lim = {ParamCoord{lo}, ParamCoord{hi}};
  if (rat) return std::make_shared<GenImpl<DIM, true>>(spl::RandomNURBSGenerator<DIM>(lim, p, pd));
  return std::make_shared<GenImpl<DIM, false>>(spl::RandomBSplineGenerator<DIM>(lim, p, pd));
}
}  // namespace

std::shared_ptr<WKnots> MakeKnots(const MSpline &s) {
  switch (s.dim) {
    case 1: return std::make_shared<KnotsImpl<1>>(s);
    case 2: return std::make_shared<KnotsImpl<2>>(s);
    default: return std::make_shared<KnotsImpl<3>>(s);
  }
}
WPtr MakeSplineObj(const MSpline &s, const std::shared_ptr<WKnots> &k) {
  switch (s.dim) {
    case 1: return Build<1>(s, *k);
    case 2: return Build<2>(s, *k);
    default: return Build<3>(s, *k);
  }
}
std::shared_ptr<WGen> MakeGen(const MSpline &s, const std::shared_ptr<WKnots> &k) {
  switch (s.dim) {
    case 1: return Gen<1>(s, *k);
    case 2: return Gen<2>(s, *k);
    default: return Gen<3>(s, *k);
  }
}
std::shared_ptr<WGen> MakeRandomGen(int dim, bool rat, double lo, double hi, int p, int pd) {
  switch (dim) {
    case 1: return RandomG<1>(rat, lo, hi, p, pd);
    case 2: return RandomG<2>(rat, lo, hi, p, pd);
    default: return RandomG<3>(rat, lo, hi, p, pd);
  }
}
WPtr MakeSquare(int degree, int knots) {
  std::shared_ptr<spl::BSpline<2>> s = spl::SquareGenerator(Degree{degree}, static_cast<u_int64_t>(knots)).CreateSquare();
  return std::make_shared<Impl<2, false>>(s);
}
std::shared_ptr<WGen> MakeSweep(const WObj &t, const WObj &c) {
  auto &a = dynamic_cast<const Impl<1, true> &>(t);
  auto &b = dynamic_cast<const Impl<1, true> &>(c);
  return std::make_shared<GenImpl<2, true>>(spl::SurfaceGenerator(a.s, b.s));
}
void BurnRandom(int n) {
  for (int i = 0; i < n; ++i) { util::Random::GetBinomialRandom<double>(0, 1, 0.5); util::Random::GetUniformRandom<double>(0, 1); }
}
}  // namespace sim
