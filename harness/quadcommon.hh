// Shared by the quadrature properties.
#pragma once
#include "bridge.hh"
#include "ctype.hh"
#include <dune/geometry/quadraturerules.hh>
using namespace vt;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;

inline const char* famName(int q)
{
  static const char* n[] = {"GaussLegendre", "GaussJacobi_1_0", "GaussJacobi_2_0", "GaussJacobi_n_0", "GaussLobatto", "GaussRadauLeft", "GaussRadauRight"};
  return n[q];
}
inline int famAlpha(int q) { return q == 1 ? 1 : q == 2 ? 2 : 0; }
inline QT::Enum fam(int q)
{
  static const QT::Enum e[] = {QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};
  return e[q];
}
inline LD ipow(LD x, int k) { LD r = 1; while (k) { if (k & 1) r *= x; x *= x; k >>= 1; } return r; }

// relative accuracy the tables and the eigenvalue solver are held to: the
// tables carry about 16 digits, the computed rules are double precision
static inline LD quadEps() { LD e = eps<ct>(); return e > 1e-10L ? 16*e : 256*std::max(e, LD(2.220446e-16L)); }

// the weight function of family q in one coordinate is (2(1-x))^alpha
inline LD weightedMonomial(int alpha, int a)
{
  LD r = 1;                               // int_0^1 x^a (1-x)^alpha = a! alpha! / (a+alpha+1)!
  for (int k = 1; k <= alpha; ++k) r *= 2*LD(k)/LD(a+k);
  return r/(a+alpha+1);
}
// integral of the monomial against the family's weight (cubes for weighted families)
inline LD exactIntegral(int dim, unsigned topo, int q, const std::vector<int>& a)
{
  if (famAlpha(q) == 0) return oracle::monomialIntegral(dim, topo, a);
  LD r = 1; for (int e : a) r *= weightedMonomial(famAlpha(q), e);
  return r;
}
inline bool isCubeShape(int dim, unsigned topo) { for (int d = 2; d <= dim; ++d) if (!oracle::prismStep(topo, d)) return false; return true; }
inline bool isSimplexShape(int dim, unsigned topo) { for (int d = 2; d <= dim; ++d) if (oracle::prismStep(topo, d)) return false; return true; }

// what the families advertise, for choosing orders
template<int dim> static int advertised(GeometryType gt, int q) { return Dune::QuadratureRules<ct,dim>::maxOrder(gt, fam(q)); }
