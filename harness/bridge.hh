// Glue between the model and the library's types.
#pragma once
#include "engine.hh"
#include "oracle.hh"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/common/rangeutilities.hh>
#include <dune/geometry/type.hh>

namespace vt {
using oracle::LD; using oracle::Vec; using oracle::Mat;

template<class ct> const char* ctName();
template<> inline const char* ctName<float>() { return "float"; }
template<> inline const char* ctName<double>() { return "double"; }
template<> inline const char* ctName<long double>() { return "long double"; }
template<class ct> LD eps() { return LD(std::numeric_limits<ct>::epsilon()); }

template<class ct, int n> Dune::FieldVector<ct,n> toFV(const Vec& v) { Dune::FieldVector<ct,n> r; for (int i = 0; i < n; ++i) r[i] = ct(v[i]); return r; }
template<class ct, int n> Vec toVec(const Dune::FieldVector<ct,n>& v) { Vec r(n); for (int i = 0; i < n; ++i) r[i] = v[i]; return r; }
template<class M> Mat toMat(const M& A, int rows, int cols) { Mat r(rows, Vec(cols, 0)); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) r[i][j] = A[i][j]; return r; }

inline std::string str(const Vec& v) { std::ostringstream s; s.precision(21); s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i]; s << ")"; return s.str(); }
inline std::string str(const std::vector<int>& v) { std::ostringstream s; s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i]; s << ")"; return s.str(); }
inline std::string str(const Mat& m) { std::string s; for (auto& r : m) s += str(r); return s; }

// call f(std::integral_constant<int,d>) for the run-time d in [lo,hi]
template<int lo, int hi, class F> void withDim(int d, F&& f)
{
  if constexpr (lo <= hi) {
    if (d == lo) f(std::integral_constant<int,lo>{});
    else withDim<lo+1,hi>(d, std::forward<F>(f));
  }
}
template<class T> struct Tag { using type = T; };
template<class F> void withCtype(int k, F&& f)
{
  if (k == 0) f(Tag<double>{}); else if (k == 1) f(Tag<float>{}); else f(Tag<long double>{});
}
// number of distinct shapes of a dimension
inline unsigned numShapes(int dim) { return dim <= 1 ? 1u : (1u << (dim-1)); }
// list of all (dim, topo) with lo <= dim <= hi; topo with lowest bit clear
inline const std::vector<std::pair<int,unsigned>>& shapes(int lo, int hi)
{
  static std::map<std::pair<int,int>, std::vector<std::pair<int,unsigned>>> cache;
  auto& v = cache[{lo,hi}];
  if (v.empty())
    for (int d = lo; d <= hi; ++d) for (unsigned k = 0; k < numShapes(d); ++k) v.emplace_back(d, 2*k);
  return v;
}
inline std::string shapeName(int dim, unsigned topo)
{
  std::string s = "pt"; for (int d = 1; d <= dim; ++d) s += oracle::prismStep(topo, d) ? "|" : "o"; return s;
}
// a label for the shape; the meaningless lowest bit is a free choice
inline Dune::GeometryType label(Source& s, int dim, unsigned topo)
{
  unsigned bit = dim == 0 ? 0 : s.choice(2);
  return Dune::GeometryType((topo & ~1u) | bit, dim);
}
// point of the reference element: generated convex weights on the corners; kinds:
// interior, corner, on a face, barycentre
inline Vec insidePoint(Source& s, const oracle::Shape& sh, LD margin = 0)
{
  size_t n = sh.corners.size();
  Vec w(n, 0); LD sum = 0;
  int kind = s.choice(5);
  if (kind == 0) { for (auto& x : w) x = 1; sum = n; }
  else if (kind == 1 && margin == 0) { w[s.choice(n)] = 1; sum = 1; }
  else if (kind == 2 && margin == 0) {   // a face
    int c = s.choice(sh.dim+1); auto& f = sh.faces[c][s.choice(sh.faces[c].size())];
    for (int v : f.verts) { w[v] = LD(1 + s.choice(1000)); sum += w[v]; }
  }
  else { for (auto& x : w) { x = LD(1 + s.choice(1u << 20)); sum += x; } if (s.flag()) { size_t k = s.choice(n); sum += 9*w[k]; w[k] *= 10; } }
  Vec p(sh.dim, 0);
  for (size_t k = 0; k < n; ++k) for (int i = 0; i < sh.dim; ++i) p[i] += w[k]/sum*sh.corners[k][i];
  if (margin > 0) {                       // pull towards the barycentre
    Vec b(sh.dim, 0); for (auto& cc : sh.corners) for (int i = 0; i < sh.dim; ++i) b[i] += cc[i]/n;
    for (int i = 0; i < sh.dim; ++i) p[i] = (1-margin)*p[i] + margin*b[i];
  }
  return p;
}
} // namespace vt
