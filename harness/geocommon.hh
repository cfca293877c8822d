// helpers of the geometry properties: generator of element placements, model of
// the map they define, and one record of everything a geometry answers
#pragma once
#include "config.h"
#include "bridge.hh"
#include "ctype.hh"
#include <optional>
#include <dune/common/dynvector.hh>
#include <dune/geometry/referenceelements.hh>
using namespace vt;
using Dune::GeometryType;

namespace {

// ------------------------------------------------------------------ model

struct Model
{
  int dim = 0, cdim = 0; unsigned topo = 0;
  std::vector<Vec> corners;           // values representable in the number type
  bool affine = false;                // generated as an affine image of the reference element
  LD scale = 0;                       // largest coordinate
  int kind = 0;

  const oracle::Shape& shape() const { return oracle::shape(dim, topo); }
  // affine map through the corners origin, e_1, ..., e_dim
  Mat simplexJacobian() const
  {
    const auto& sh = shape(); Mat J(cdim, Vec(dim, 0));
    for (int j = 0; j < dim; ++j)
      for (size_t v = 0; v < sh.corners.size(); ++v) {
        bool unit = true; for (int z = 0; z < dim; ++z) unit &= sh.corners[v][z] == (z == j ? 1 : 0);
        if (unit) for (int y = 0; y < cdim; ++y) J[y][j] = corners[v][y] - corners[0][y];
      }
    return J;
  }
  LD nonAffinity() const
  {
    Mat J = simplexJacobian(); const auto& sh = shape(); LD m = 0;
    for (size_t v = 0; v < corners.size(); ++v) {
      LD d = 0;
      for (int y = 0; y < cdim; ++y) {
        LD w = corners[0][y] - corners[v][y]; for (int j = 0; j < dim; ++j) w += J[y][j]*sh.corners[v][j];
        d += w*w;
      }
      m = std::max(m, std::sqrt(d));
    }
    return m;
  }
  Vec global(const Vec& x) const
  {
    if (affine) { Mat J = simplexJacobian(); Vec y = corners[0]; for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) y[i] += J[i][j]*x[j]; return y; }
    return oracle::mapPoint(dim, topo, corners, x);
  }
  Mat jacobian(const Vec& x) const
  {
    if (affine) return simplexJacobian();
    return oracle::mapJacobian(dim, topo, corners, x);
  }
  // smallest distance to a cone tip over all cone steps (1 if there is none)
  LD tipDistance(const Vec& x) const
  {
    LD scale = 1, m = 1;
    for (int d = dim; d >= 1; --d)
      if (!oracle::prismStep(topo, d)) {
        LD t = scale == 0 ? 0 : x[d-1]/scale;
        m = std::min(m, std::abs(1-t)); scale *= (1-t);
        if (scale == 0) return 0;
      }
    return m;
  }
  Vec centre() const
  {
    const auto& sh = shape(); Vec b(dim, 0);
    for (auto& c : sh.corners) for (int i = 0; i < dim; ++i) b[i] += c[i]/sh.corners.size();
    return b;
  }
  template<class ct, int n> std::vector<Dune::FieldVector<ct,n>> fv() const
  { std::vector<Dune::FieldVector<ct,n>> r; for (auto& c : corners) r.push_back(toFV<ct,n>(c)); return r; }
  std::string text() const { std::string s; for (auto& c : corners) s += str(c); return s; }
  void finish(LD roundTo)
  {
    (void)roundTo;
    scale = 0; for (auto& c : corners) for (LD v : c) scale = std::max(scale, std::abs(v));
  }
};

// whether the interpolant is a polynomial, so that it has values everywhere: every
// cone stands over a simplex, or the corners are placed affinely
inline bool polynomialMap(const Model& m)
{
  for (int d = 2; d <= m.dim; ++d) if (!oracle::prismStep(m.topo, d) && ((m.topo & ((1u << (d-1))-1)) >> 1)) return m.affine;
  return true;
}
// value and derivative of such an interpolant, without dividing by distances to tips
inline std::pair<Vec,Mat> polynomialAt(int dim, unsigned topo, const Vec* corner, bool affine, const Vec& x)
{
  const auto& sh = oracle::shape(dim, topo & ((1u << dim)-1)); int cdim = corner[0].size();
  Vec y(corner[0]); Mat J(cdim, Vec(dim, 0));
  if (dim > 0 && !affine && oracle::prismStep(topo, dim) && (topo & ~1u & ((1u << dim)-1)) != 0) {
    int n = sh.corners.size()/2;
    auto [a, A] = polynomialAt(dim-1, topo, corner, false, x); auto [b, B] = polynomialAt(dim-1, topo, corner+n, false, x);
    LD z = x[dim-1];
    for (int i = 0; i < cdim; ++i) { y[i] = (1-z)*a[i] + z*b[i]; for (int j = 0; j < dim-1; ++j) J[i][j] = (1-z)*A[i][j] + z*B[i][j]; J[i][dim-1] = b[i]-a[i]; }
    return {y, J};
  }
  for (int j = 0; j < dim; ++j)
    for (size_t k = 0; k < sh.corners.size(); ++k) {
      bool unit = true; for (int i = 0; i < dim; ++i) unit &= sh.corners[k][i] == (i == j);
      if (unit) for (int i = 0; i < cdim; ++i) { J[i][j] = corner[k][i]-corner[0][i]; y[i] += J[i][j]*x[j]; }
    }
  return {y, J};
}

// cdim x dim matrix with condition number below about 100
inline Mat genMatrix(Source& s, int cdim, int dim)
{
  Mat A(cdim, Vec(dim, 0));
  for (int j = 0; j < dim; ++j) A[j][j] = 1;
  int kind = s.choice(4);
  if (kind >= 1) for (int j = 0; j < dim; ++j) A[j][j] = std::ldexp(LD(1), s.range(0, 4)-2) * LD(s.real(1, 2));
  if (kind >= 2)    // shear
    for (int i = 0; i < dim; ++i) for (int j = i+1; j < dim; ++j) { LD f = s.sreal(1); for (int y = 0; y < cdim; ++y) A[y][j] += f*A[y][i]; }
  if (kind >= 3)    // rotate in all coordinate planes
    for (int i = 0; i < cdim; ++i) for (int k = i+1; k < cdim; ++k) {
      LD a = s.sreal(3.2); LD co = std::cos(a), si = std::sin(a);
      for (int j = 0; j < dim; ++j) { LD p = A[i][j], q = A[k][j]; A[i][j] = co*p - si*q; A[k][j] = si*p + co*q; }
    }
  if (s.flag() && cdim > 0) {   // permute axes / reflect
    int i = s.choice(cdim), k = s.choice(cdim);
    std::swap(A[i], A[k]); if (s.flag()) for (auto& v : A[i]) v = -v;
  }
  return A;
}
inline LD minSingular(const Mat& A, int dim) { if (dim == 0) return 1; Mat I = oracle::leftInverse(A); return 1/oracle::frob(I); }

// Non-degenerate placements of size O(1). kind 0,1: affine; 2: all corners
// perturbed; 3: one corner perturbed
template<class ct>
Model genModel(Source& s, int dim, unsigned topo, int cdim, bool allowPerturbed = true)
{
  Model m; m.dim = dim; m.cdim = cdim; m.topo = topo;
  const auto& sh = m.shape();
  Mat A = genMatrix(s, cdim, dim);
  Vec b(cdim); for (auto& v : b) v = s.sreal(4);
  for (auto& c : sh.corners) {
    Vec y = b; for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) y[i] += A[i][j]*c[j];
    m.corners.push_back(y);
  }
  m.kind = allowPerturbed ? int(s.choice(4)) : int(s.choice(2));
  bool simplex = (topo >> 1) == 0;
  LD sig = minSingular(A, dim);
  if (m.kind >= 2 && dim > 0) {
    LD amp = sig * LD(s.real(0.1, 0.2)) / std::sqrt(LD(cdim));
    if (m.kind == 2) for (auto& c : m.corners) for (auto& v : c) v += amp*LD(s.sreal(1));
    else { size_t k = s.choice(m.corners.size()); for (auto& v : m.corners[k]) v += amp*(s.flag() ? 1 : -1); }
  }
  // The library takes a map for affine if it deviates by less than the root of
  // its tolerance, in single precision 0.0014: either exactly affine or clearly not
  if (m.kind >= 2 && !simplex) {
    Mat S(cdim, Vec(dim)); LD dev = 0; size_t last = 0;
    auto unit = [&](size_t v) { int n = 0, j = -1; for (int i = 0; i < dim; ++i) if (sh.corners[v][i] != 0) { ++n; j = i; } return n == 0 ? dim : n == 1 ? j : -1; };
    for (size_t v = 0; v < m.corners.size(); ++v) if (int j = unit(v); j >= 0 && j < dim) for (int i = 0; i < cdim; ++i) S[i][j] = m.corners[v][i] - m.corners[0][i];
    for (size_t v = 0; v < m.corners.size(); ++v) if (unit(v) < 0) {
      last = v;
      for (int i = 0; i < cdim; ++i) { LD d = m.corners[v][i] - m.corners[0][i]; for (int j = 0; j < dim; ++j) d -= S[i][j]*sh.corners[v][j]; dev = std::max(dev, std::abs(d)); }
    }
    if (dev < 0.005L) m.corners[last][0] += LD(0.012);
  }
  // on a grid of 2^-12: affine placements stay exactly affine in every number type
  for (auto& c : m.corners) for (auto& v : c) v = m.kind >= 2 ? LD(ct(v)) : v;
  if (m.kind < 2) {
    m.affine = true;
    Vec o(cdim); Mat J(cdim, Vec(dim));
    LD g = 1 << 12;
    for (int i = 0; i < cdim; ++i) { o[i] = std::round(b[i]*g)/g; for (int j = 0; j < dim; ++j) J[i][j] = std::round(A[i][j]*g)/g; }
    for (size_t v = 0; v < m.corners.size(); ++v) for (int i = 0; i < cdim; ++i) {
      m.corners[v][i] = o[i]; for (int j = 0; j < dim; ++j) m.corners[v][i] += J[i][j]*sh.corners[v][j];
    }
  }
  if (simplex) m.affine = true;
  m.finish(0);
  return m;
}

// The same placement in another size and far from the origin, one time in four.
// Powers of two keep affine placements exact, the distance keeps the rounding
// noise of local coordinates well below what an inversion can resolve.
template<class ct>
void relocate(Source& s, Model& m)
{
  if (m.dim == 0 || !s.oneIn(4)) return;
  bool narrow = eps<ct>() > 1e-10L;
  LD size = std::ldexp(LD(1), narrow ? s.range(0, 6) : s.range(0, 16) - 6);
  for (auto& c : m.corners) for (auto& v : c) v *= size;
  Vec shift(m.cdim, 0);
  for (auto& v : shift) if (s.flag()) v = (s.flag() ? 1 : -1)*size*std::ldexp(LD(1), s.range(0, narrow ? 2 : 14));
  for (auto& c : m.corners) for (int i = 0; i < m.cdim; ++i) c[i] = LD(ct(c[i] + shift[i]));
  m.finish(0);
}

// a point of the reference element, representable in the number type; close to
// cone tips the offsets are powers of two so that rounding does not leave the cone
template<class ct>
Vec genLocal(Source& s, const oracle::Shape& sh, LD margin = 0)
{
  Vec x = insidePoint(s, sh, margin);
  // very close to a facet, not close to its corners
  if (margin == 0 && sh.dim > 0 && s.oneIn(6)) {
    const auto& f = sh.faces[1][s.choice(sh.faces[1].size())];
    Vec q(sh.dim, 0); LD sum = 0;
    for (int v : f.verts) { LD w = 1 + s.choice(4); sum += w; for (int i = 0; i < sh.dim; ++i) q[i] += w*sh.corners[v][i]; }
    LD h = std::ldexp(LD(1), -s.range(4, 50));
    for (int i = 0; i < sh.dim; ++i) x[i] = (1-h)*q[i]/sum + h*x[i];
  }
  for (auto& v : x) v = LD(ct(v));
  return x;
}

// ------------------------------------------------------------------ answers

struct Answers
{
  Vec global, centre, local; Mat J, JT, JI, JIT; LD ie = 0, vol = 0; std::vector<Vec> corners; GeometryType type; bool affine = false;
};

template<class M> Mat dense(const M& A, int rows, int cols)
{
  Mat r(rows, Vec(cols, 0));
  if (rows == 0 || cols == 0) return r;
  using F = ct;
  for (int j = 0; j < cols; ++j) {
    Dune::DynamicVector<F> e(cols, F(0)), y(rows, F(0)); e[j] = 1;
    A.mv(e, y);
    for (int i = 0; i < rows; ++i) r[i][j] = y[i];
  }
  return r;
}

template<class G>
Answers probe(const G& g, const typename G::LocalCoordinate& x)
{
  constexpr int dim = G::mydimension, cdim = G::coorddimension;
  Answers a;
  a.global = toVec(g.global(x)); a.centre = toVec(g.center());
  a.J = dense(g.jacobian(x), cdim, dim); a.JT = dense(g.jacobianTransposed(x), dim, cdim);
  a.JI = dense(g.jacobianInverse(x), dim, cdim); a.JIT = dense(g.jacobianInverseTransposed(x), cdim, dim);
  a.ie = g.integrationElement(x); a.vol = g.volume();
  for (int i = 0; i < int(g.corners()); ++i) a.corners.push_back(toVec(g.corner(i)));
  a.type = g.type(); a.affine = g.affine();
  return a;
}

inline void nearVec(Ctx& c, const Vec& a, const Vec& b, LD tol, const char* what)
{
  c.check(a.size() == b.size(), what, " has size ", a.size());
  for (size_t i = 0; i < a.size(); ++i) c.near(a[i], b[i], tol, what, "[", i, "] of ", str(a), " against ", str(b));
}
inline void nearMat(Ctx& c, const Mat& a, const Mat& b, LD tol, const char* what)
{
  c.check(a.size() == b.size(), what, " has rows ", a.size());
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j)
    c.near(a[i][j], b[i][j], tol, what, "[", i, "][", j, "] of ", str(a), " against ", str(b));
}

// error bounds for answers of a map with Jacobian J and coordinates of size scale
struct Bounds { LD value, jac, inv, ie, local; LD kappa; };
inline Bounds bounds(const Mat& J, int dim, LD scale, LD e)
{
  Bounds b{};
  LD S = scale + 1e-30L;
  b.value = 64*e*S*(dim+1); b.jac = 64*e*S*(dim+1);
  if (dim == 0) { b.kappa = 1; b.ie = 16*e; return b; }
  Mat I = oracle::leftInverse(J);
  LD nj = oracle::frob(J), ni = oracle::frob(I);
  b.kappa = nj*ni;
  LD rel = 32*e*(dim+1)*(1 + S/nj);
  b.inv = ni*b.kappa*b.kappa*rel;
  LD mu = oracle::gramDet(J, dim);
  b.ie = mu*b.kappa*b.kappa*rel;
  b.local = (ni*S*8*e + b.kappa*b.kappa*e*32*(1 + ni*S));
  return b;
}

// compare answers with a model value of the map and its derivative
inline void compareMap(Ctx& c, const Answers& a, const Vec& y, const Mat& J, int dim, int cdim, LD scale, LD e)
{
  Bounds b = bounds(J, dim, scale, e);
  nearVec(c, a.global, y, b.value, "global");
  nearMat(c, a.J, J, b.jac, "jacobian");
  nearMat(c, a.JT, oracle::transpose(J).size() ? oracle::transpose(J) : Mat(dim, Vec(cdim)), b.jac, "jacobianTransposed");
  if (dim > 0) {
    Mat I = oracle::leftInverse(J);
    nearMat(c, a.JI, I, b.inv, "jacobianInverse");
    nearMat(c, a.JIT, oracle::transpose(I), b.inv, "jacobianInverseTransposed");
  }
  c.near(a.ie, oracle::gramDet(J, dim), b.ie, "integrationElement");
}

// all answers of two geometries that describe the same map
inline void compareAnswers(Ctx& c, const Answers& a, const Answers& b, const Bounds& t, LD volTol, const char* who)
{
  std::string w(who);
  c.check(a.type == b.type, w, ": types ", a.type, " and ", b.type);
  c.equal(a.corners.size(), b.corners.size(), w, ": number of corners");
  for (size_t i = 0; i < a.corners.size(); ++i) nearVec(c, a.corners[i], b.corners[i], t.value, (w + " corner").c_str());
  nearVec(c, a.centre, b.centre, t.value, (w + " centre").c_str());
  nearVec(c, a.global, b.global, t.value, (w + " global").c_str());
  nearMat(c, a.J, b.J, t.jac, (w + " jacobian").c_str());
  nearMat(c, a.JT, b.JT, t.jac, (w + " jacobianTransposed").c_str());
  nearMat(c, a.JI, b.JI, t.inv, (w + " jacobianInverse").c_str());
  nearMat(c, a.JIT, b.JIT, t.inv, (w + " jacobianInverseTransposed").c_str());
  c.near(a.ie, b.ie, t.ie, w, " integrationElement");
  c.near(a.vol, b.vol, volTol, w, " volume");
}

// (mydim, cdim) pairs, fastest first
template<int maxd, class F> void withDims(int dim, int cdim, F&& f)
{
  withDim<0,maxd>(dim, [&](auto d) {
    withDim<decltype(d)::value == 0 ? 1 : decltype(d)::value, maxd>(cdim, [&](auto cd) { f(d, cd); });
  });
}
struct Placement { int dim; unsigned topo; int cdim; };
inline std::vector<Placement> placements(int maxd, int mind = 0)
{
  std::vector<Placement> r;
  for (auto [d,t] : shapes(mind, maxd)) for (int cd = std::max(d, 1); cd <= maxd; ++cd) r.push_back({d, t, cd});
  return r;
}
} // namespace
