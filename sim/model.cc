#include "model.h"
namespace sim {

static double Quant(double v, int q) {  // q digits after the decimal point; q<0: unquantised
  if (q < 0) return v;
  double f = 1;
  for (int i = 0; i < q; ++i) f *= 10;
  return std::round(v * f) / f;
}

static double Step(double v, int q) {  // never zero
  double s = Quant(v, q);
  return s > 0 ? s : v;
}

MSpline MakeSpline(const Line &l) {
  MSpline s;
  s.dim = std::max(1, std::min(4, static_cast<int>(l.Int("dim", 1))));
  s.rat = l.Int("rat") != 0;
  s.pd = std::max(1, std::min(6, static_cast<int>(l.Int("pd", 2))));
  int q = static_cast<int>(l.Int("q", 3));
  double scale = pow(10.0, static_cast<double>(l.Int("sc", 0)));
  double off = static_cast<double>(l.Int("off", 0));
  double kscale = pow(10.0, static_cast<double>(l.Int("ks", 0)));
  auto deg = l.Ints("deg"), nk = l.Ints("nk");
  deg.resize(4, 1);
  nk.resize(4, 0);
  Rng r(static_cast<uint64_t>(l.Int("seed", 1)));
  int mulmode = static_cast<int>(l.Int("mm", 1));  // 0: simple knots; 1: random multiplicities up to p; 2: always p
  for (int d = 0; d < s.dim; ++d) {
    int p = std::max(0, std::min(9, deg[d]));
    s.deg.push_back(p);
    std::vector<double> k;
    double t0 = off * kscale, step = kscale;
    for (int i = 0; i <= p; ++i) k.push_back(t0);
    double t = t0;
    int n = std::max(0, std::min(2000, nk[d]));
    for (int i = 0; i < n; ++i) {
      t += Step((0.05 + r.Unit()) * step, q);
      int m = mulmode == 0 ? 1 : (mulmode == 2 ? std::max(1, p) : (r.Chance(0.7) ? 1 : 1 + static_cast<int>(r.Below(std::max(1, p)))));
      for (int j = 0; j < m; ++j) k.push_back(t);
    }
    t += Step((0.05 + r.Unit()) * step, q);
    if (q >= 0 && Quant(t, q + 3) > k.back()) t = Quant(t, q + 3);
    for (int i = 0; i <= p; ++i) k.push_back(t);
    s.knots.push_back(k);
  }
  int total = s.Total();
  int vm = static_cast<int>(l.Int("vm", 0));
  for (int i = 0; i < total * s.pd; ++i) {
    double v = Quant((r.Unit() * 2 - 1) * 5 * scale, q);
    if (vm == 1) v = static_cast<double>(static_cast<int>(r.Below(7)) - 3);          // small integers
    if (vm == 2 && r.Chance(0.3)) v = r.Chance(0.5) ? 0.0 : (r.Chance(0.5) ? 1e20 : -1e19);  // special magnitudes
    if (vm == 3 && r.Chance(0.3)) v = (r.Unit() - 0.5) * 1e-5;
    if (vm == 5 && r.Chance(0.4)) v *= pow(10.0, static_cast<double>(r.Range(-130, 130)));
    if (vm == 4) v = Quant(3.25 + static_cast<double>(i / s.pd) * (1 + i % s.pd), q);
    s.cp.push_back(v);
  }
  if (s.rat) {
    int wm = static_cast<int>(l.Int("wm", 0));
    for (int i = 0; i < total; ++i) {
      double v = Quant(0.1 + r.Unit() * 1.9, q < 0 ? 6 : std::max(q, 1));
      if (wm == 1) v = 1.0;
      if (wm == 2) v = r.Chance(0.5) ? 0.05 + Quant(r.Unit(), 3) : 10 + Quant(r.Unit() * 90, 2);
      if (v <= 0) v = 0.5;
      s.w.push_back(v);
    }
  }
  return s;
}

Line RandomSplineLine(Rng *rng, int id, int dim, const std::string &profile) {
  Line l("spline");
  l.Set("id", id).Set("dim", dim).Set("rat", static_cast<long long>(rng->Below(2)));
  bool io = profile == "io";
  int pd = io ? (rng->Chance(0.85) ? rng->Range(1, 3) : rng->Range(1, 5)) : (rng->Chance(0.9) ? rng->Range(1, 3) : 4);
  l.Set("pd", pd);
  std::vector<int> deg, nk;
  for (int d = 0; d < dim; ++d) {
    int pmax = dim == 1 ? (rng->Chance(0.15) ? 6 : 4) : dim == 2 ? 3 : dim == 3 ? 2 : (rng->Chance(0.2) ? 2 : 1);
    int p = rng->Range(io && rng->Chance(0.1) ? 0 : 1, pmax);
    int nmax = dim == 1 ? 4 : dim == 2 ? 3 : dim == 3 ? 2 : 1;
    deg.push_back(p);
    nk.push_back(static_cast<int>(rng->Below(nmax + 1)));
  }
  l.Set("deg", JoinInts(deg)).Set("nk", JoinInts(nk));
  l.Set("mm", static_cast<long long>(rng->Below(3)));
  l.Set("q", rng->Chance(0.6) ? 3 : (rng->Chance(0.5) ? -1 : rng->Range(0, 6)));
  if (l.Int("q") == 0) l.Set("q", 1);
  l.Set("sc", rng->Chance(0.75) ? 0 : rng->Range(-3, io ? 6 : 2));
  l.Set("off", rng->Chance(0.65) ? 0 : rng->Range(-3, 3));
  l.Set("ks", rng->Chance(0.8) ? 0 : rng->Range(-1, 2));
  l.Set("vm", rng->Chance(0.6) ? 0 : static_cast<long long>(rng->Below(io ? 6 : 2)));
  if (!io && l.Int("vm") == 0 && rng->Chance(0.1)) l.Set("vm", 4);
  l.Set("wm", rng->Chance(0.7) ? 0 : rng->Range(1, 2));
  l.Set("seed", static_cast<long long>(rng->Below(1000000)));
  return l;
}

std::vector<LD> BasisModel(const std::vector<double> &k, int p, double u, int *first) {
  int n = static_cast<int>(k.size()) - p - 1;
  int span = p;
  // last non-empty span that starts at or before u
  for (int i = p; i < n; ++i) if (k[i] <= u && k[i] < k[i + 1]) span = i;
  std::vector<LD> N(p + 1, 0.0L), left(p + 1), right(p + 1);
  N[0] = 1;
  for (int j = 1; j <= p; ++j) {
    left[j] = static_cast<LD>(u) - k[span + 1 - j];
    right[j] = static_cast<LD>(k[span + j]) - u;
    LD saved = 0;
    for (int r = 0; r < j; ++r) {
      LD den = right[r + 1] + left[j - r];
      LD temp = den == 0 ? 0 : N[r] / den;
      N[r] = saved + right[r + 1] * temp;
      saved = left[j - r] * temp;
    }
    N[j] = saved;
  }
  *first = span - p;
  return N;
}

// Derivatives of order o of the p+1 basis functions of the span of u.
static std::vector<LD> BasisDerivSum(const std::vector<double> &k, int p, double u, int o, int *first, bool abs) {
  if (o == 0) return BasisModel(k, p, u, first);
  int f = 0;
  BasisModel(k, p, u, &f);
  *first = f;
  std::vector<LD> r(p + 1, 0.0L);
  if (o > p) return r;
  int span = f + p;
  // N'_{i,p} = p/(k_{i+p}-k_i) N_{i,p-1} - p/(k_{i+p+1}-k_{i+1}) N_{i+1,p-1}; lower degree on the knots without the outer ones
  std::vector<double> inner(k.begin() + 1, k.end() - 1);
  int f2 = 0;
  std::vector<LD> low;
  {
    // same span: index span-1 in the shortened knot vector
    low = BasisDerivSum(inner, p - 1, u, o - 1, &f2, abs);
  }
  (void)span;
  // low[j] belongs to N_{f+1+j, p-1} of k
  for (int i = 0; i <= p; ++i) {
    int g = f + i;
    LD a = i >= 1 ? low[i - 1] : 0, b = i <= p - 1 ? low[i] : 0;
    LD da = static_cast<LD>(k[g + p]) - k[g], db = static_cast<LD>(k[g + p + 1]) - k[g + 1];
    if (da != 0) r[i] += p * a / da;
    if (db != 0) r[i] -= (abs ? -1 : 1) * p * b / db;
  }
  return r;
}
std::vector<LD> BasisDerivModel(const std::vector<double> &k, int p, double u, int o, int *first) { return BasisDerivSum(k, p, u, o, first, false); }

static LD Binom(int n, int k) {
  LD r = 1;
  for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1);
  return r;
}
// Homogeneous derivative: pd values and the weight.
static std::vector<LD> HomDeriv(const MSpline &s, const std::vector<double> &u, const std::vector<int> &o, bool abs) {
  std::vector<std::vector<LD>> b(s.dim);
  std::vector<int> first(s.dim), idx(s.dim, 0);
  for (int d = 0; d < s.dim; ++d) b[d] = BasisDerivSum(s.knots[d], s.deg[d], u[d], o[d], &first[d], abs);
  std::vector<LD> r(s.pd + 1, 0.0L);
  while (true) {
    LD v = 1;
    int lin = 0, stride = 1;
    for (int d = 0; d < s.dim; ++d) { v *= b[d][idx[d]]; lin += (first[d] + idx[d]) * stride; stride *= s.N(d); }
    LD w = s.rat ? static_cast<LD>(s.w[lin]) : 1.0L;
    if (abs) { v = fabsl(v); w = fabsl(w); }
    r[s.pd] += v * w;
    for (int c = 0; c < s.pd; ++c) r[c] += v * w * (abs ? std::fabs(s.cp[lin * s.pd + c]) : s.cp[lin * s.pd + c]);
    int d = 0;
    for (; d < s.dim; ++d) { if (++idx[d] <= s.deg[d]) break; idx[d] = 0; }
    if (d == s.dim) break;
  }
  return r;
}
static std::vector<LD> DerivSum(const MSpline &s, const std::vector<double> &u, const std::vector<int> &o, bool abs) {
  if (!s.rat) { auto r = HomDeriv(s, u, o, abs); r.pop_back(); return r; }
  // Leibniz: A^(o) = sum binom w^(i) S^(o-i)
  std::map<std::vector<int>, std::vector<LD>> S;
  std::vector<int> k(s.dim, 0);
  std::vector<LD> w0 = HomDeriv(s, u, std::vector<int>(s.dim, 0), false);
  while (true) {
    std::vector<LD> a = HomDeriv(s, u, k, abs);
    std::vector<int> i(s.dim, 0);
    while (true) {
      bool zero = true;
      for (int x : i) zero &= x == 0;
      if (!zero) {
        LD c = 1;
        std::vector<int> rest(s.dim);
        for (int d = 0; d < s.dim; ++d) { c *= Binom(k[d], i[d]); rest[d] = k[d] - i[d]; }
        LD w = HomDeriv(s, u, i, abs)[s.pd];
        for (int j = 0; j < s.pd; ++j) a[j] -= (abs ? -1 : 1) * c * w * S[rest][j];
      }
      int d = 0;
      for (; d < s.dim; ++d) { if (++i[d] <= k[d]) break; i[d] = 0; }
      if (d == s.dim) break;
    }
    for (int j = 0; j < s.pd; ++j) a[j] /= (abs ? fabsl(w0[s.pd]) : w0[s.pd]);
    a.resize(s.pd);
    S[k] = a;
    int d = 0;
    for (; d < s.dim; ++d) { if (++k[d] <= o[d]) break; k[d] = 0; }
    if (d == s.dim) break;
  }
  return S[o];
}
std::vector<LD> DerivModel(const MSpline &s, const std::vector<double> &u, const std::vector<int> &o) { return DerivSum(s, u, o, false); }
// The same sums with all terms positive: what rounding errors are relative to.
std::vector<LD> DerivScale(const MSpline &s, const std::vector<double> &u, const std::vector<int> &o) { return DerivSum(s, u, o, true); }
LD WeightModel(const MSpline &s, const std::vector<double> &u) { return HomDeriv(s, u, std::vector<int>(s.dim, 0), false)[s.pd]; }

std::vector<LD> EvalModel(const MSpline &s, const std::vector<double> &u) {
  std::vector<std::vector<LD>> b(s.dim);
  std::vector<int> first(s.dim), idx(s.dim, 0);
  for (int d = 0; d < s.dim; ++d) b[d] = BasisModel(s.knots[d], s.deg[d], u[d], &first[d]);
  std::vector<LD> r(s.pd, 0.0L);
  LD wsum = 0;
  while (true) {
    LD v = 1;
    int lin = 0, stride = 1;
    for (int d = 0; d < s.dim; ++d) {
      v *= b[d][idx[d]];
      lin += (first[d] + idx[d]) * stride;
      stride *= s.N(d);
    }
    LD w = s.rat ? static_cast<LD>(s.w[lin]) : 1.0L;
    wsum += v * w;
    for (int c = 0; c < s.pd; ++c) r[c] += v * w * s.cp[lin * s.pd + c];
    int d = 0;
    for (; d < s.dim; ++d) {
      if (++idx[d] <= s.deg[d]) break;
      idx[d] = 0;
    }
    if (d == s.dim) break;
  }
  if (s.rat) for (auto &x : r) x /= wsum;
  return r;
}

std::string Describe(const MSpline &s) {
  std::stringstream o;
  o << (s.rat ? "NURBS" : "B-spline") << " dim=" << s.dim << " pointdim=" << s.pd << " deg=" << JoinInts(s.deg) << " points=";
  for (int d = 0; d < s.dim; ++d) o << (d ? "x" : "") << s.N(d);
  return o.str();
}

std::string CheckWellFormed(const MSpline &s) {
  if (s.dim < 1 || s.dim > 4) return "bad dimension";
  if (static_cast<int>(s.deg.size()) != s.dim || static_cast<int>(s.knots.size()) != s.dim) return "bad arity";
  for (int d = 0; d < s.dim; ++d) {
    if (s.deg[d] < 0) return "negative degree";
    if (static_cast<int>(s.knots[d].size()) < 2 * s.deg[d] + 2) return "too few knots";
    for (size_t i = 1; i < s.knots[d].size(); ++i) if (!(s.knots[d][i] >= s.knots[d][i - 1])) return "knots decrease or are no numbers";
    for (int i = 1; i <= s.deg[d]; ++i) {
      if (s.knots[d][i] != s.knots[d][0]) return "first knot not clamped";
      if (s.knots[d][s.knots[d].size() - 1 - i] != s.knots[d].back()) return "last knot not clamped";
    }
  }
  if (s.pd < 1) return "no coordinates";
  if (static_cast<int>(s.cp.size()) != s.Total() * s.pd) return "number of coordinates does not match the knot vectors";
  if (s.rat && static_cast<int>(s.w.size()) != s.Total()) return "number of weights does not match the knot vectors";
  return "";
}

static std::string Num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

std::string CompareSplines(const MSpline &want, const MSpline &got, const Tol &t) {
  std::string wf = CheckWellFormed(got);
  if (!wf.empty()) return "malformed: " + wf;
  if (want.dim != got.dim) return "parametric dimension " + std::to_string(got.dim) + " instead of " + std::to_string(want.dim);
  if (want.rat != got.rat) return std::string("is ") + (got.rat ? "rational" : "polynomial") + " instead of " + (want.rat ? "rational" : "polynomial");
  if (want.pd != got.pd) return "point dimension " + std::to_string(got.pd) + " instead of " + std::to_string(want.pd);
  for (int d = 0; d < want.dim; ++d) {
    if (want.deg[d] != got.deg[d]) return "degree " + std::to_string(got.deg[d]) + " instead of " + std::to_string(want.deg[d]) + " in direction " + std::to_string(d);
    if (want.knots[d].size() != got.knots[d].size()) return "number of knots " + std::to_string(got.knots[d].size()) + " instead of " + std::to_string(want.knots[d].size());
    for (size_t i = 0; i < want.knots[d].size(); ++i) {
      double a = want.knots[d][i], b = got.knots[d][i];
      if (!(std::fabs(a - b) <= t.knot_abs + t.rel * std::fabs(a))) return "knot " + std::to_string(i) + " of direction " + std::to_string(d) + " is " + Num(b) + " instead of " + Num(a);
    }
  }
  for (size_t i = 0; i < want.w.size(); ++i) {
    if (!(std::fabs(want.w[i] - got.w[i]) <= t.w_abs + t.rel * std::fabs(want.w[i]))) return "weight " + std::to_string(i) + " is " + Num(got.w[i]) + " instead of " + Num(want.w[i]);
  }
  for (size_t i = 0; i < want.cp.size(); ++i) {
    double a = want.cp[i], b = got.cp[i], abs = t.cp_abs;
    if (t.irit && want.rat) {
      double w = want.w[i / want.pd];
      abs = 1.2 * t.cp_abs * (1 + std::fabs(a)) / std::max(w - t.w_abs, 1e-9);
    }
    if (!(std::fabs(a - b) <= abs + t.rel * std::fabs(a))) return "coordinate " + std::to_string(i % want.pd) + " of control point " + std::to_string(i / want.pd) + " is " + Num(b) + " instead of " + Num(a);
  }
  return "";
}

std::string SameExactly(const MSpline &a, const MSpline &b) {
  Tol t{0, 0, 0, 0};
  return CompareSplines(a, b, t);
}

uint64_t HashSpline(const MSpline &s) {
  uint64_t h = Mix(s.dim * 8 + s.rat, s.pd);
  for (int d = 0; d < s.dim; ++d) {
    h = Mix(h, s.deg[d]);
    for (double k : s.knots[d]) h = Mix(h, HashDouble(k));
  }
  for (double v : s.cp) h = Mix(h, HashDouble(v));
  for (double v : s.w) h = Mix(h, HashDouble(v));
  return h;
}

MSpline To3D(const MSpline &s) {
  MSpline r = s;
  r.pd = 3;
  r.cp.clear();
  for (int i = 0; i < s.Total(); ++i)
    for (int c = 0; c < 3; ++c) r.cp.push_back(c < s.pd ? s.cp[i * s.pd + c] : 0.0);
  return r;
}
}  // namespace sim
