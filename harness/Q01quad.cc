// Q01 in quadruple precision: the tables behind the one-dimensional rules and
// the products built from them hold all their digits. The triangle,
// tetrahedron and prism tables are stored with double precision only and the
// rules computed by the eigenvalue solver do not exist for this number type;
// neither is visited here.
#define HAVE_QUADMATH 1
#include <config.h>
#include <dune/common/quadmath.hh>
#include "bridge.hh"
#include <dune/geometry/quadraturerules.hh>
using namespace vt;
namespace {
using F = Dune::Float128;
namespace QT = Dune::QuadratureType;
const char* const famNames[] = {"GaussLegendre", "GaussJacobi_1_0", "GaussJacobi_2_0", "GaussLobatto", "GaussRadauLeft", "GaussRadauRight"};
const QT::Enum fams[] = {QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};

// int_0^1 x^a (1-x)^b
F euler(int a, int b) { F r = 1; for (int k = 1; k <= b; ++k) r *= F(k)/F(a+k); return r/F(a+b+1); }
F exactF(int dim, unsigned topo, int alpha, const std::vector<int>& a)
{
  F r = 1; int total = 0;
  for (int d = 1; d <= dim; ++d) {
    int e = a[d-1];
    if (d == 1 || oracle::prismStep(topo, d)) { r *= euler(e, alpha); for (int k = 0; k < alpha; ++k) r *= F(2); }
    else r *= euler(e, total);                                        // a cone: the section shrinks like (1-x)
    total += e+1;
  }
  return r;
}
struct Item { int dim; unsigned topo; int q, order; };
const std::vector<Item>& items()
{
  static std::vector<Item> v;
  if (v.empty())
    for (auto [d, t] : shapes(1, 3)) {
      bool cube = true; for (int k = 2; k <= d; ++k) cube &= oracle::prismStep(t, k);
      for (int q = 0; q < 6; ++q) {
        if ((q == 1 || q == 2) && !cube) continue;
        // only rules that are products of one-dimensional tables
        bool overTriangle = d == 3 && !oracle::prismStep(t, 2);
        int lo = q == 0 && ((d == 2 && !cube) || overTriangle) ? 13 : 0;
        int dd = d; unsigned tt = t; int mo = 0;
        withDim<1,3>(dd, [&](auto dc) { mo = Dune::QuadratureRules<F,decltype(dc)::value>::maxOrder(Dune::GeometryType(tt, dd), fams[q]); });
        for (int o = lo; o <= std::min(mo, d == 1 ? 1000 : d == 2 ? 40 : 20); ++o) v.push_back({d, t, q, o});
      }
    }
  return v;
}
}

PROPERTY_PART(Q01, quad, "at least one integrated monomial has degree >= 1 equal to the rule's order")
{
  const auto& all = items();
  const Item it = all[s.stratum(all.size())];
  withDim<1,3>(it.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    const auto& rule = Dune::QuadratureRules<F,dim>::rule(Dune::GeometryType(it.topo, dim), it.order, fams[it.q]);
    c.desc << shapeName(dim, it.topo) << " " << famNames[it.q] << " order " << it.order << " quadruple precision, reported " << rule.order();
    const int ord = rule.order(), alpha = it.q == 1 ? 1 : it.q == 2 ? 2 : 0;
    c.check(ord >= it.order, "rule of order ", ord, " returned for requested order ", it.order);
    for (int r = 0; r < (dim == 3 ? 3 : 6); ++r) {
      std::vector<int> a(dim, 0);
      int left = r == 0 ? ord : ord - int(s.choice(std::min(ord, 3)+1)), first = s.choice(dim);
      if (left == ord && ord >= 1) c.nontrivial = true;
      for (int i = 0; i < dim; ++i) { int& x = a[(first+i)%dim]; x = i+1 == dim ? left : int(s.choice(left+1)); left -= x; }
      F sum = 0;
      for (auto& qp : rule) {
        F v = qp.weight();
        for (int i = 0; i < dim; ++i) for (int k = 0; k < a[i]; ++k) v *= qp.position()[i];
        sum += v;
      }
      F ex = exactF(dim, it.topo, alpha, a);
      // both sides agree to about 2e-33; a digit of the tables is worth more
      LD rel = static_cast<LD>((sum - ex)/ex);
      c.near(rel, 0, 1e-30L, "relative error of the integral of x^", str(a), " by the ", famNames[it.q], " rule of order ", it.order, " on ", shapeName(dim, it.topo));
      for (int x : a) c.mixKey(x);
    }
    c.mixKey(std::string(shapeName(dim, it.topo)) + famNames[it.q] + std::to_string(it.order));
    c.cls(std::string(famNames[it.q]) + " dim " + std::to_string(dim));
  });
}
