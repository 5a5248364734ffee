// Splines, generators and shared knot vectors of SplineLib behind one interface (workspace and thread worlds).
#ifndef SIM_GLUE_WORK_H_
#define SIM_GLUE_WORK_H_
#include <functional>
#include <memory>
#include "glue.h"
#include "model.h"
namespace sim {
struct WObj {
  virtual ~WObj() = default;
  virtual int Dim() const = 0;
  virtual bool Rat() const = 0;
  virtual std::string Extract(MSpline *m) const = 0;  // complete observable state; "" on success
  virtual std::vector<double> Eval(const std::vector<double> &u, const std::vector<int> &dims) const = 0;
  virtual std::vector<double> Deriv(const std::vector<double> &u, const std::vector<int> &dims, const std::vector<int> &order) const = 0;
  virtual std::vector<double> Basis(int d, double u) const = 0;
  virtual std::vector<double> BasisDeriv(int d, double u, int order) const = 0;
  virtual void Insert(double u, int d, int m) = 0;
  virtual void Refine(const std::vector<double> &u, int d) = 0;
  virtual size_t Remove(double u, int d, double tol, int m) = 0;
  virtual void Elevate(int d) = 0;
  virtual bool Reduce(int d, double tol) = 0;
  virtual void Subdivide(double u, int d, std::shared_ptr<WObj> *a, std::shared_ptr<WObj> *b) = 0;
  virtual std::shared_ptr<WObj> Copy() const = 0;                 // copy constructor
  virtual bool AssignFrom(const WObj &o) = 0;                     // copy assignment; false if of another type
  virtual std::shared_ptr<WObj> Reuse(const std::vector<double> &cp, int pd) const = 0;  // NURBS with the same knots and weights
  virtual bool Equal(const WObj &o, double tol) const = 0;
  virtual bool GeoEqual(const WObj &o, double tol) const = 0;
  virtual double Expansion() const = 0;
  virtual double Range(int d) const = 0;
  virtual std::vector<std::vector<double>> Elements() const = 0;  // bounds of the elements, per direction: lo,hi,lo,hi,...
  virtual double Homogeneous(const std::vector<int> &idx, int c) const = 0;
  virtual double GetWeight(const std::vector<int> &idx) const = 0;
  virtual std::vector<double> Project(const std::vector<double> &point) const = 0;  // curves and surfaces
};
typedef std::shared_ptr<WObj> WPtr;
struct WKnots {  // knot vectors held by the user
  virtual ~WKnots() = default;
  virtual std::vector<std::vector<double>> Values() const = 0;
};
struct WGen {  // a generator held by the user
  virtual ~WGen() = default;
  virtual WPtr Make() const = 0;
};
std::shared_ptr<WKnots> MakeKnots(const MSpline &s);
WPtr MakeSplineObj(const MSpline &s, const std::shared_ptr<WKnots> &knots);   // uses the given knot vectors
std::shared_ptr<WGen> MakeGen(const MSpline &s, const std::shared_ptr<WKnots> &knots);
std::shared_ptr<WGen> MakeRandomGen(int dim, bool rat, double lo, double hi, int max_degree, int pd);
WPtr MakeSquare(int degree, int knots);
std::shared_ptr<WGen> MakeSweep(const WObj &t, const WObj &c);
void BurnRandom(int n);
}  // namespace sim
#endif
