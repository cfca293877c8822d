// Shared by the refinement properties.
#pragma once
#include "bridge.hh"
#include "ctype.hh"
#include <dune/geometry/refinement.hh>
#include <dune/geometry/virtualrefinement.hh>
using namespace vt;
using Dune::GeometryType;

template<int d, unsigned t, unsigned s> struct Combo { static constexpr int dim = d; static constexpr unsigned topo = t, sub = s; };

// every supported (element shape, sub-element shape); the lowest bit of the
// codes does not matter, so both values occur
template<class F> static void withCombo(int k, F&& f)
{
  switch (k) {
    case 0 : f(Combo<1,0,0>{}); break;
    case 1 : f(Combo<1,1,1>{}); break;
    case 2 : f(Combo<2,0,0>{}); break;
    case 3 : f(Combo<2,3,3>{}); break;
    case 4 : f(Combo<2,3,0>{}); break;
    case 5 : f(Combo<3,0,0>{}); break;
    case 6 : f(Combo<3,7,7>{}); break;
    case 7 : f(Combo<3,7,0>{}); break;
    case 8 : f(Combo<3,5,0>{}); break;
    case 9 : f(Combo<3,3,0>{}); break;
    case 10 : f(Combo<2,1,1>{}); break;
    case 11 : f(Combo<3,6,1>{}); break;
    case 12 : f(Combo<3,4,1>{}); break;
    case 13 : f(Combo<3,2,1>{}); break;
#if VT_CT == 0
    case 14 : f(Combo<4,0,0>{}); break;
    case 15 : f(Combo<4,15,15>{}); break;
    case 16 : f(Combo<4,15,0>{}); break;
#endif
  }
}
static constexpr int numCombos = CT_MAX(17,14);

// number of elements of the refinement with n intervals
inline long modelElements(int dim, unsigned topo, unsigned sub, int n)
{
  long r = 1, f = 1; for (int i = 1; i <= dim; ++i) { r *= n; f *= i; }
  if (dim == 1 || (topo >> 1) == (sub >> 1)) return r;
  if (dim == 3 && (topo >> 1) == 2) return 3*r;    // prism
  if (dim == 3 && (topo >> 1) == 1) return 2*r;    // pyramid
  return f*r;
}
inline int maxIntervals(int dim, bool thorough) { static const int q[] = {0, 40, 12, 6, 3}, t[] = {0, 200, 30, 12, 5}; return thorough ? t[dim] : q[dim]; }

struct Tag2 { int n; bool byLevel; Dune::RefinementIntervals iv; };
inline Tag2 genIntervals(Source& s, int dim)
{
  int mx = maxIntervals(dim, s.thorough);
  if (s.oneIn(3)) { int l = 0; while ((2 << l) <= mx) ++l; int k = s.range(0, l); return {1 << k, true, Dune::refinementLevels(k)}; }
  int n = s.range(1, mx);
  return {n, false, Dune::refinementIntervals(n)};
}

inline bool sameSet(std::vector<Vec> a, std::vector<Vec> b, LD tol)
{
  if (a.size() != b.size()) return false;
  for (auto& x : a) {
    bool found = false;
    for (size_t j = 0; j < b.size() && !found; ++j) {
      bool eq = true; for (size_t i = 0; i < x.size(); ++i) if (!(std::abs(x[i]-b[j][i]) <= tol)) eq = false;
      if (eq) { b.erase(b.begin()+j); found = true; }
    }
    if (!found) return false;
  }
  return true;
}
