// Independent model of a tensor product B-spline / NURBS: data, random generation, evaluation in long double.
#ifndef SIM_MODEL_H_
#define SIM_MODEL_H_
#include "common.h"
namespace sim {
struct MSpline {
  int dim = 1;
  bool rat = false;
  int pd = 1;
  std::vector<int> deg;
  std::vector<std::vector<double>> knots;
  std::vector<double> cp;  // point-major, pd values per point, first direction fastest
  std::vector<double> w;   // empty unless rational
  int N(int d) const { return static_cast<int>(knots[d].size()) - deg[d] - 1; }
  int Total() const {
    int t = 1;
    for (int d = 0; d < dim; ++d) t *= N(d);
    return t;
  }
  double Lo(int d) const { return knots[d].front(); }
  double Hi(int d) const { return knots[d].back(); }
};
typedef long double LD;

// Parameters of a generated spline; every one of them may be shrunk by the minimiser.
MSpline MakeSpline(const Line &l);
Line RandomSplineLine(Rng *rng, int id, int dim, const std::string &profile);
std::vector<LD> EvalModel(const MSpline &s, const std::vector<double> &u);
std::vector<LD> BasisModel(const std::vector<double> &knots, int p, double u, int *first);
std::vector<LD> BasisDerivModel(const std::vector<double> &knots, int p, double u, int order, int *first);
std::vector<LD> DerivModel(const MSpline &s, const std::vector<double> &u, const std::vector<int> &order);
std::vector<LD> DerivScale(const MSpline &s, const std::vector<double> &u, const std::vector<int> &order);
LD WeightModel(const MSpline &s, const std::vector<double> &u);
std::string Describe(const MSpline &s);
// "" if well formed
std::string CheckWellFormed(const MSpline &s);
struct Tol { double knot_abs, cp_abs, w_abs, rel; bool irit = false; };
// Compares `got` with `want` (file precision given by tol).  "" if equal.
std::string CompareSplines(const MSpline &want, const MSpline &got, const Tol &tol);
std::string SameExactly(const MSpline &a, const MSpline &b);
uint64_t HashSpline(const MSpline &s);
// A model that has been squeezed to 3 coordinates (IGES)
MSpline To3D(const MSpline &s);
}  // namespace sim
#endif
