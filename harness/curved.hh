// curved maps and finite elements of the harness
#pragma once
#include "geocommon.hh"
#include <memory>

namespace {

// ---------------------------------------------------------------- polynomial maps
// f_i(z) = b_i + sum_j B_ij z_j + sum_k q_ik prod_j z_j^{e_kj}
struct PolyData { int in, out; Vec b; Mat B; std::vector<std::vector<int>> ex; Mat q; };

inline Vec evalPoly(const PolyData& d, const Vec& z)
{
  Vec y = d.b;
  for (int i = 0; i < d.out; ++i) {
    for (int j = 0; j < d.in; ++j) y[i] += d.B[i][j]*z[j];
    for (size_t k = 0; k < d.ex.size(); ++k) y[i] += d.q[i][k]*oracle::monomial(d.ex[k], z);
  }
  return y;
}
inline Mat derivPoly(const PolyData& d, const Vec& z)
{
  Mat J = d.B;
  for (int i = 0; i < d.out; ++i)
    for (size_t k = 0; k < d.ex.size(); ++k)
      for (int j = 0; j < d.in; ++j) if (d.ex[k][j] > 0) {
        auto e = d.ex[k]; LD f = e[j]; --e[j];
        J[i][j] += d.q[i][k]*f*oracle::monomial(e, z);
      }
  return J;
}
// the function object given to the library; not assignable, as lambdas are not
template<class F, int in, int out> struct PolyMap
{
  const std::shared_ptr<const PolyData> d;
  Dune::FieldVector<F,out> operator()(const Dune::FieldVector<F,in>& z) const { return toFV<F,out>(evalPoly(*d, toVec(z))); }
  struct Derivative
  {
    const std::shared_ptr<const PolyData> d;
    Dune::FieldMatrix<F,out,in> operator()(const Dune::FieldVector<F,in>& z) const
    { Mat J = derivPoly(*d, toVec(z)); Dune::FieldMatrix<F,out,in> r; for (int i = 0; i < out; ++i) for (int j = 0; j < in; ++j) r[i][j] = F(J[i][j]); return r; }
  };
  friend Derivative derivative(const PolyMap& f) { return {f.d}; }
};

// well conditioned linear part, higher order part of relative size amount on a
// domain of size about radius
inline PolyData genPoly(Source& s, int in, int out, LD radius, LD amount, int maxDeg)
{
  PolyData d; d.in = in; d.out = out;
  d.B = genMatrix(s, out, in);
  d.b.assign(out, 0); for (auto& v : d.b) v = s.sreal(1);
  LD sig = minSingular(d.B, in);
  d.q.assign(out, Vec());
  if (s.choice(4) == 0) return d;          // affine map
  int n = s.range(1, 3); LD left = amount*sig;
  for (int k = 0; k < n; ++k) {
    std::vector<int> e(in, 0); int deg = s.range(2, maxDeg);
    for (int t = 0; t < deg; ++t) ++e[s.choice(in)];
    d.ex.push_back(e);
    // derivative of the term on the domain is at most deg*radius^(deg-1)*coefficient
    LD bound = left/(n*std::sqrt(LD(out))*deg*std::pow(radius, deg-1)*std::sqrt(LD(in)));
    for (int i = 0; i < out; ++i) d.q[i].push_back(bound*LD(s.sreal(1)));
  }
  return d;
}
// steep monotone maps: turned(b_i z_i + q_i z_i^p + shear z_{i-1}^2), flat near the
// origin and steep away from it, so that a full Newton step from there overshoots
inline PolyData genSteep(Source& s, int n, int p)
{
  PolyData d; d.in = d.out = n; d.b.assign(n, 0); d.B.assign(n, Vec(n, 0)); d.q.assign(n, Vec());
  bool shear = n > 1 && s.flag();
  Mat D(n, Vec(n, 0)), Q(n);
  for (int i = 0; i < n; ++i) {
    D[i][i] = std::exp(LD(s.real(shear ? -1.6 : -3.0, 0)));
    std::vector<int> e(n, 0); e[i] = p; d.ex.push_back(e);
    for (int k = 0; k < n; ++k) Q[k].push_back(k == i ? LD(s.real(0, p == 3 ? 4 : 16)) : LD(0));
    if (shear && i > 0) { std::vector<int> f(n, 0); f[i-1] = 2; d.ex.push_back(f); for (int k = 0; k < n; ++k) Q[k].push_back(k == i ? LD(s.sreal(0.5)) : LD(0)); }
  }
  // turn the image
  Mat R(n, Vec(n, 0)); for (int i = 0; i < n; ++i) R[i][i] = 1;
  for (int a = 0; a+1 < n; ++a) {
    LD phi = LD(s.sreal(3)), co = std::cos(phi), si = std::sin(phi);
    for (auto& r : R) { LD u = r[a], v = r[a+1]; r[a] = co*u - si*v; r[a+1] = si*u + co*v; }
  }
  if (s.flag()) for (auto& v : R[0]) v = -v;
  d.B = oracle::mul(R, D); d.q = oracle::mul(R, Q);
  return d;
}
inline std::string text(const PolyData& d)
{
  std::string r = "B " + str(d.B) + " b " + str(d.b);
  for (size_t k = 0; k < d.ex.size(); ++k) { Vec q; for (int i = 0; i < d.out; ++i) q.push_back(d.q[i][k]); r += " + " + str(q) + "z^" + str(d.ex[k]); }
  return r;
}

// ---------------------------------------------------------------- Lagrange elements
// nodal basis of order k on simplices (full polynomials), cubes (tensor products)
// and prisms over a simplex, as a coefficient matrix over monomials
struct FEData
{
  int dim = 0; unsigned topo = 0; int order = 0;
  std::vector<std::vector<int>> mono; std::vector<Vec> nodes; Mat coef;      // phi_i = sum_k coef[k][i] x^mono[k]
  std::vector<int> cornerNode;
  Vec values(const Vec& x) const
  {
    Vec v(nodes.size(), 0);
    for (size_t k = 0; k < mono.size(); ++k) { LD m = oracle::monomial(mono[k], x); for (size_t i = 0; i < v.size(); ++i) v[i] += coef[k][i]*m; }
    return v;
  }
  Mat gradients(const Vec& x) const
  {
    Mat g(nodes.size(), Vec(dim, 0));
    for (size_t k = 0; k < mono.size(); ++k) for (int j = 0; j < dim; ++j) if (mono[k][j] > 0) {
      auto e = mono[k]; LD f = e[j]; --e[j]; f *= oracle::monomial(e, x);
      for (size_t i = 0; i < g.size(); ++i) g[i][j] += coef[k][i]*f;
    }
    return g;
  }
};
inline std::shared_ptr<const FEData> makeFE(int dim, unsigned topo, int k)
{
  static std::map<std::tuple<int,unsigned,int>, std::shared_ptr<const FEData>> cache;
  auto& p = cache[{dim, topo, k}];
  if (p) return p;
  auto d = std::make_shared<FEData>(); d->dim = dim; d->topo = topo; d->order = k;
  // multi-indices i with i_j <= k, the sum over the leading cone directions bounded by k
  std::vector<int> i(dim, 0);
  for (;;) {
    bool ok = true; int sum = 0;
    bool anyCone = false; for (int j = 1; j < dim; ++j) anyCone |= !oracle::prismStep(topo, j+1);
    if (anyCone || (dim > 1 && (topo >> 1) == 0)) {
      // simplex block: directions 0.. up to the last cone step
      int last = 0; for (int j = 1; j < dim; ++j) if (!oracle::prismStep(topo, j+1)) last = j;
      for (int j = 0; j <= last; ++j) sum += i[j];
      ok = sum <= k;
    }
    if (ok) { d->mono.push_back(i); Vec x(dim); for (int j = 0; j < dim; ++j) x[j] = k ? LD(i[j])/k : LD(0); d->nodes.push_back(x); }
    int j = 0; while (j < dim && ++i[j] > k) i[j++] = 0;
    if (j == dim) break;
  }
  int n = d->nodes.size(); Mat V(n, Vec(n));
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) V[a][b] = oracle::monomial(d->mono[b], d->nodes[a]);
  d->coef = oracle::inverse(V);
  for (auto& c : oracle::shape(dim, topo).corners) { int f = -1; for (int a = 0; a < n; ++a) if (d->nodes[a] == c) f = a; d->cornerNode.push_back(f); }
  p = d; return p;
}

template<class F, int dim> class LFE
{
public:
  class Basis
  {
  public:
    struct Traits {
      using DomainFieldType = F; static constexpr int dimDomain = dim; using DomainType = Dune::FieldVector<F,dim>;
      using RangeFieldType = F; static constexpr int dimRange = 1; using RangeType = Dune::FieldVector<F,1>;
      using JacobianType = Dune::FieldMatrix<F,1,dim>;
    };
    std::shared_ptr<const FEData> d;
    unsigned int size() const { return d->nodes.size(); }
    unsigned int order() const { return d->order; }
    void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
    { Vec v = d->values(toVec(x)); out.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) out[i] = F(v[i]); }
    void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
    { Mat g = d->gradients(toVec(x)); out.resize(g.size()); for (size_t i = 0; i < g.size(); ++i) for (int j = 0; j < dim; ++j) out[i][0][j] = F(g[i][j]); }
  };
  class Interpolation
  {
  public:
    std::shared_ptr<const FEData> d;
    template<class Fn, class C> void interpolate(const Fn& f, std::vector<C>& out) const
    { out.resize(d->nodes.size()); for (size_t i = 0; i < out.size(); ++i) out[i] = f(toFV<F,dim>(d->nodes[i])); }
  };
  struct Coefficients {};
  struct Traits { using LocalBasisType = Basis; using LocalInterpolationType = Interpolation; using LocalCoefficientsType = Coefficients; };
  LFE() = default;
  explicit LFE(std::shared_ptr<const FEData> d) { b_.d = d; i_.d = d; }
  const Basis& localBasis() const { return b_; }
  const Interpolation& localInterpolation() const { return i_; }
  unsigned int size() const { return b_.size(); }
  GeometryType type() const { return GeometryType(b_.d->topo, dim); }
private:
  Basis b_; Interpolation i_;
};

// ---------------------------------------------------------------- own quadrature
// Gauss-Legendre with n points on [0,1], by Newton's method in long double
inline const std::vector<std::pair<LD,LD>>& gauss(int n)
{
  static std::map<int, std::vector<std::pair<LD,LD>>> cache;
  auto& r = cache[n];
  if (r.empty())
    for (int i = 0; i < n; ++i) {
      LD x = std::cos(3.14159265358979323846264338327950288L*(i+0.75L)/(n+0.5L)), dp = 0;
      for (int it = 0; it < 60; ++it) {
        LD p0 = 1, p1 = x; for (int k = 2; k <= n; ++k) { LD p2 = ((2*k-1)*x*p1 - (k-1)*p0)/k; p0 = p1; p1 = p2; }
        if (n == 1) { p0 = 1; p1 = x; }
        dp = n*(x*p1 - p0)/(x*x-1); LD dx = p1/dp; x -= dx; if (std::abs(dx) < 1e-19L) break;
      }
      r.push_back({(1-x)/2, 1/((1-x*x)*dp*dp)});
    }
  return r;
}
// integral over the shape by the collapsed tensor rule with n points per direction
template<class Fn> LD integrate(int dim, unsigned topo, int n, Fn&& f)
{
  LD sum = 0; Vec u(dim); const auto& g = gauss(n);
  std::vector<int> i(dim, 0);
  for (;;) {
    LD w = 1; for (int j = 0; j < dim; ++j) { u[j] = g[i[j]].first; w *= g[i[j]].second; }
    Vec x = u;
    for (int d = 1; d <= dim; ++d)          // build up: a cone step shrinks the lower coordinates
      if (!oracle::prismStep(topo, d)) { LD q = 1 - x[d-1]; for (int j = 0; j < d-1; ++j) { x[j] *= q; w *= q; } }
    sum += w*f(x);
    int j = 0; while (j < dim && ++i[j] >= n) i[j++] = 0;
    if (j == dim) break;
  }
  return sum;
}
} // namespace
