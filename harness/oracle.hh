// Independent model of the reference elements: built from the documented
// recursion (prism and cone over a base), sharing no code with the library.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <vector>

namespace oracle {

using LD = long double;
using Vec = std::vector<LD>;
using Mat = std::vector<Vec>;                        // row major

struct Face { int dim; unsigned topo; std::vector<int> verts; };   // verts in the face's own numbering
struct Plane { Vec n; LD b; };                       // n.x <= b, n not normalised

struct Shape
{
  int dim; unsigned topo;
  std::vector<Vec> corners;
  std::vector<std::vector<Face>> faces;              // by codim
  std::vector<Plane> planes;                         // one per facet, same numbering
  LD volume;
  int baseTopo() const { return topo & ((1u << (dim-1)) - 1); }
};

// line: either code; treat the first step as a prism
inline bool prismStep(unsigned topo, int d) { return d == 1 || ((topo >> (d-1)) & 1u); }

inline Shape makeShape(int dim, unsigned topo);

inline const Shape& shape(int dim, unsigned topo)
{
  thread_local std::map<std::pair<int,unsigned>, std::unique_ptr<Shape>> cache;
  auto& p = cache[{dim, topo >> 1}];
  if (!p) p = std::make_unique<Shape>(makeShape(dim, (topo >> 1) << 1));
  return *p;
}

inline Shape makeShape(int dim, unsigned topo)
{
  Shape s; s.dim = dim; s.topo = topo;
  if (dim == 0) {
    s.corners = {Vec{}}; s.faces = {{Face{0, 0, {0}}}}; s.volume = 1; return s;
  }
  const Shape& b = shape(dim-1, topo & ((1u << (dim-1)) - 1));
  const int n = b.corners.size();
  s.faces.resize(dim+1);
  if (prismStep(topo, dim)) {
    for (int k = 0; k < 2; ++k)
      for (auto v : b.corners) { v.push_back(k); s.corners.push_back(v); }
    for (int c = 0; c <= dim; ++c) {
      if (c < dim)
        for (auto& f : b.faces[c]) {
          Face g{f.dim+1, f.topo | (f.dim == 0 ? 0u : (1u << f.dim)), f.verts};
          for (int v : f.verts) g.verts.push_back(v+n);
          s.faces[c].push_back(g);
        }
      if (c > 0)
        for (int k = 0; k < 2; ++k)
          for (auto f : b.faces[c-1]) { for (int& v : f.verts) v += k*n; s.faces[c].push_back(f); }
    }
    for (auto p : b.planes) { p.n.push_back(0); s.planes.push_back(p); }
    Vec z(dim, 0); z[dim-1] = -1; s.planes.push_back({z, 0}); z[dim-1] = 1; s.planes.push_back({z, 1});
    s.volume = b.volume;
  } else {
    for (auto v : b.corners) { v.push_back(0); s.corners.push_back(v); }
    Vec tip(dim, 0); tip[dim-1] = 1; s.corners.push_back(tip);
    for (int c = 0; c <= dim; ++c) {
      if (c > 0) for (auto& f : b.faces[c-1]) s.faces[c].push_back(f);
      if (c < dim)
        for (auto f : b.faces[c]) { ++f.dim; f.verts.push_back(n); s.faces[c].push_back(f); }
      if (c == dim) s.faces[c].push_back(Face{0, 0, {n}});
    }
    Vec z(dim, 0); z[dim-1] = -1; s.planes.push_back({z, 0});
    for (auto p : b.planes) { p.n.push_back(p.b); s.planes.push_back(p); }
    s.volume = b.volume / dim;
  }
  return s;
}

// forward mode differentiation, up to 6 directions
template<int N> struct DualT
{
  LD v = 0; std::array<LD,N> g{};
  DualT() = default;
  DualT(LD x) : v(x) {}
  friend DualT operator+(DualT a, const DualT& b) { a.v += b.v; for (int i=0;i<N;++i) a.g[i] += b.g[i]; return a; }
  friend DualT operator-(DualT a, const DualT& b) { a.v -= b.v; for (int i=0;i<N;++i) a.g[i] -= b.g[i]; return a; }
  friend DualT operator*(const DualT& a, const DualT& b) { DualT r(a.v*b.v); for (int i=0;i<N;++i) r.g[i] = a.g[i]*b.v + a.v*b.g[i]; return r; }
  friend DualT operator/(const DualT& a, const DualT& b) { DualT r(a.v/b.v); for (int i=0;i<N;++i) r.g[i] = (a.g[i] - r.v*b.g[i])/b.v; return r; }
};
using Dual = DualT<6>;
inline LD val(LD x) { return x; }
template<int N> LD val(const DualT<N>& x) { return x.v; }

// values of the (multi)linear shape functions of all corners
template<class T> std::vector<T> weights(int dim, unsigned topo, const std::vector<T>& x)
{
  if (dim == 0) return {T(1)};
  std::vector<T> xb(x.begin(), x.begin()+dim-1);
  const T& t = x[dim-1];
  unsigned bt = topo & ((1u << (dim-1)) - 1);
  if (prismStep(topo, dim)) {
    auto w = weights(dim-1, bt, xb);
    std::vector<T> r;
    for (auto& a : w) r.push_back(a * (T(1)-t));
    for (auto& a : w) r.push_back(a * t);
    return r;
  }
  T q = T(1) - t;
  std::vector<T> r;
  if (val(q) == 0) {
    r.assign(shape(dim-1, bt).corners.size(), T(0));
  } else {
    for (auto& c : xb) c = c / q;
    auto w = weights(dim-1, bt, xb);
    for (auto& a : w) r.push_back(a * q);
  }
  r.push_back(t);
  return r;
}

inline Vec mapPoint(int dim, unsigned topo, const std::vector<Vec>& corners, const Vec& x)
{
  auto w = weights<LD>(dim, topo, x);
  Vec y(corners[0].size(), 0);
  for (size_t k = 0; k < w.size(); ++k) for (size_t i = 0; i < y.size(); ++i) y[i] += w[k]*corners[k][i];
  return y;
}
// jacobian[i][j] = d y_i / d x_j
inline Mat mapJacobian(int dim, unsigned topo, const std::vector<Vec>& corners, const Vec& x)
{
  std::vector<Dual> xd(dim);
  for (int i = 0; i < dim; ++i) { xd[i].v = x[i]; xd[i].g[i] = 1; }
  auto w = weights<Dual>(dim, topo, xd);
  Mat J(corners[0].size(), Vec(dim, 0));
  for (size_t k = 0; k < w.size(); ++k)
    for (size_t i = 0; i < J.size(); ++i)
      for (int j = 0; j < dim; ++j) J[i][j] += w[k].g[j]*corners[k][i];
  return J;
}

// integral of x^alpha over the shape
inline LD monomialIntegral(int dim, unsigned topo, const std::vector<int>& al)
{
  LD r = 1; int deg = 0;
  for (int d = 1; d <= dim; ++d) {
    int a = al[d-1];
    if (prismStep(topo, d)) r /= (a+1);
    else {
      int m = deg + d - 1;                           // int t^a (1-t)^m
      for (int i = 1; i <= a; ++i) r *= LD(i)/LD(m+i);
      r /= (m+a+1);
    }
    deg += a;
  }
  return r;
}
inline LD monomial(const std::vector<int>& al, const Vec& x)
{
  LD r = 1; for (size_t i = 0; i < al.size(); ++i) for (int k = 0; k < al[i]; ++k) r *= x[i];
  return r;
}

// largest signed distance to the facet planes: <0 inside, >0 outside
inline LD hullDistance(const Shape& s, const Vec& x)
{
  LD m = -1e4000L;
  for (auto& p : s.planes) {
    LD v = -p.b, n = 0;
    for (int i = 0; i < s.dim; ++i) { v += p.n[i]*x[i]; n += p.n[i]*p.n[i]; }
    m = std::max(m, v / std::sqrt(n));
  }
  return m;
}

// --- small dense linear algebra in long double ---
inline Mat transpose(const Mat& A) { Mat T(A.empty() ? 0 : A[0].size(), Vec(A.size())); for (size_t i=0;i<A.size();++i) for (size_t j=0;j<A[i].size();++j) T[j][i] = A[i][j]; return T; }
inline Mat mul(const Mat& A, const Mat& B) { Mat C(A.size(), Vec(B.empty() ? 0 : B[0].size(), 0)); for (size_t i=0;i<A.size();++i) for (size_t k=0;k<B.size();++k) for (size_t j=0;j<C[i].size();++j) C[i][j] += A[i][k]*B[k][j]; return C; }
inline LD det(Mat A)
{
  LD d = 1; int n = A.size();
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k+1; i < n; ++i) if (std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
    if (A[p][k] == 0) return 0;
    if (p != k) { std::swap(A[p], A[k]); d = -d; }
    d *= A[k][k];
    for (int i = k+1; i < n; ++i) { LD f = A[i][k]/A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= f*A[k][j]; }
  }
  return d;
}
inline Mat inverse(Mat A)
{
  int n = A.size(); Mat R(n, Vec(n, 0)); for (int i = 0; i < n; ++i) R[i][i] = 1;
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k+1; i < n; ++i) if (std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
    std::swap(A[p], A[k]); std::swap(R[p], R[k]);
    LD f = A[k][k];
    for (int j = 0; j < n; ++j) { A[k][j] /= f; R[k][j] /= f; }
    for (int i = 0; i < n; ++i) if (i != k) { LD g = A[i][k]; for (int j = 0; j < n; ++j) { A[i][j] -= g*A[k][j]; R[i][j] -= g*R[k][j]; } }
  }
  return R;
}
// J is m x n with m >= n and full column rank: left inverse (J^T J)^-1 J^T
inline Mat leftInverse(const Mat& J) { if (J.size() && J[0].size() == J.size()) return inverse(J); Mat T = transpose(J); return mul(inverse(mul(T, J)), T); }
// sqrt(det(J^T J)) for m x n, m >= n
inline LD gramDet(const Mat& J, int n) { if (n == 0) return 1; if ((int)J.size() == n) return std::abs(det(J)); return std::sqrt(std::abs(det(mul(transpose(J), J)))); }
inline LD norm(const Vec& v) { LD s = 0; for (LD x : v) s += x*x; return std::sqrt(s); }
inline LD frob(const Mat& A) { LD s = 0; for (auto& r : A) for (LD x : r) s += x*x; return std::sqrt(s); }

} // namespace oracle
