// G09
#include "curved.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/quadraturerules.hh>

namespace {
// converts to the options type of volume(), whatever its name is
struct Limits
{
  int maxIt; LD absTol;
  template<class T> requires requires (T t) { t.maxIt; t.absTol; } operator T() const { T t; t.maxIt = maxIt; t.absTol = ct(absTol); return t; }
};

LD volTol() { return std::max(LD(1e-6), 40*std::sqrt(eps<ct>())); }

template<class G> void explicitRules(Source& s, Ctx& c, const G& g, GeometryType gt)
{
  constexpr int dim = G::mydimension;
  int maxOrder = std::min(24, int(Dune::QuadratureRules<ct,dim>::maxOrder(gt)));
  int o = s.range(0, maxOrder);
  const auto& rule = Dune::QuadratureRules<ct,dim>::rule(gt, o);
  LD sum = 0, mag = 0; for (auto& qp : rule) { LD t = LD(g.integrationElement(qp.position()))*LD(qp.weight()); sum += t; mag += std::abs(t); }
  c.near(g.volume(rule), sum, 16*eps<ct>()*mag*std::sqrt(LD(rule.size())), "volume with an explicit rule of order ", o);
  // a rule assembled by hand
  struct Own : Dune::QuadratureRule<ct,dim> { Own(GeometryType t) : Dune::QuadratureRule<ct,dim>(t, 1) {} };
  Own own(gt); int k = s.range(0, 4); sum = 0; mag = 0;
  for (int i = 0; i < k; ++i) {
    Vec x = insidePoint(s, oracle::shape(dim, gt.id()), LD(0.1)); ct w = ct(s.sreal(2));
    own.emplace_back(toFV<ct,dim>(x), w); LD t = LD(g.integrationElement(toFV<ct,dim>(x)))*LD(w); sum += t; mag += std::abs(t);
  }
  c.near(g.volume(own), sum, 16*eps<ct>()*mag*(k+1), "volume with a rule of ", k, " points");
}
}

namespace {
// stricter and looser tolerances, more and fewer iterations
template<class G> void limits(Source& s, Ctx& c, const G& g, LD exact)
{
  static const int its[] = {100, 1000, 30, 0, 1, 2};
  static const LD tols[] = {0, 1e-12L, 1e-3L};
  if (G::mydimension == 3 ? s.choice(60) != 0 : !s.flag()) return;      // all orders in 3d take long
  Limits l{its[s.choice(6)], tols[s.choice(3)]};
  c.desc << " limit " << l.maxIt << " tolerance " << double(l.absTol);
  LD got = g.volume(l);
  c.check(std::isfinite(got) && got >= 0, "volume ", got);
  if (l.maxIt >= 30) c.near(got, exact, std::max(volTol(), 40*l.absTol)*(1+exact), "volume with chosen limits");
  c.cls("chosen limits");
}
}

// maps whose coefficients are positive in corner coordinates, so the integration
// element is a polynomial with positive coefficients
CT_PART(G09, volume, "integration element of degree at least two")
{
  struct K { int dim; unsigned topo; };
  static const std::vector<K> all = {{1,0},{2,0},{2,2},{3,0},{3,6},{3,4}};
  auto k = all[s.stratum(all.size())];
  withDim<1,3>(k.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    GeometryType gt = label(s, dim, k.topo);
    const LD e = eps<ct>();
    bool mapped = s.flag();
    // triangular map: y_i = a_i x_i + sum q x^e with exponents in x_0..x_i only and positive q:
    // its determinant is a product of diagonal derivatives, all positive
    PolyData d; d.in = d.out = dim; d.b.assign(dim, 0); d.B.assign(dim, Vec(dim, 0)); d.q.assign(dim, Vec());
    int maxDeg = mapped ? (dim == 3 ? 3 : 5) : (dim == 3 ? 2 : 3);
    for (int i = 0; i < dim; ++i) d.B[i][i] = LD(s.real(0.5, 2));
    int terms = s.range(0, 3);
    for (int t = 0; t < terms; ++t) {
      int i = s.choice(dim); std::vector<int> ex(dim, 0); int deg = s.range(2, maxDeg);
      for (int z = 0; z < deg; ++z) ++ex[s.choice(i+1)];
      d.ex.push_back(ex); for (int a = 0; a < dim; ++a) d.q[a].push_back(a == i ? LD(s.real(0.05, 0.5)) : LD(0));
    }
    // lengths of very different size: the convergence test is absolute
    static const int ex2[] = {0, 0, 0, 0, -6, 6, 20};
    int ex = dim == 3 && s.choice(60) ? 0 : ex2[s.choice(7)]; LD stretch = std::ldexp(LD(1), ex);
    for (auto& r : d.B) for (auto& v : r) v *= stretch;
    for (auto& r : d.q) for (auto& v : r) v *= stretch;
    c.desc << shapeName(dim, k.topo) << " " << text(d);
    int degree = 0; for (auto& ex : d.ex) { int z = 0; for (int v : ex) z += v; degree += z-1; }
    if (mapped) {
      std::vector<Dune::FieldVector<ct,dim>> fv; for (auto& v : oracle::shape(dim, k.topo).corners) fv.push_back(toFV<ct,dim>(v));
      Dune::MultiLinearGeometry<ct,dim,dim> base(gt, fv);
      PolyMap<ct,dim,dim> map{std::make_shared<const PolyData>(d)};
      Dune::MappedGeometry<PolyMap<ct,dim,dim>,decltype(base)> g(map, base);
      LD exact = integrate(dim, k.topo, 24, [&](const Vec& x) { return std::abs(oracle::det(derivPoly(d, x))); });
      c.near(g.volume(), exact, volTol()*(1+exact), "mapped volume");
      limits(s, c, g, exact);
      explicitRules(s, c, g, gt);
      if (d.ex.empty()) {
        Dune::MappedGeometry<PolyMap<ct,dim,dim>,decltype(base)> ga(map, base, true);
        LD mu = std::abs(oracle::det(d.B)); c.near(ga.volume(), mu*oracle::shape(dim, k.topo).volume, (256*e + 1e-15L)*mu, "volume of an affine map");
      }
      c.cls("mapped " + shapeName(dim, k.topo) + " degree " + std::to_string(degree));
    } else {
      int order = d.ex.empty() ? 1 : maxDeg;
      auto fe = makeFE(dim, k.topo, order);
      // total degree terms are in the full polynomial space; on cubes as well
      std::vector<Dune::FieldVector<ct,dim>> co; for (auto& x : fe->nodes) co.push_back(toFV<ct,dim>(evalPoly(d, x)));
      Dune::LocalFiniteElementGeometry<LFE<ct,dim>,dim> g(gt, LFE<ct,dim>(fe), co);
      LD exact = 0;
      bool representable = true;
      if (k.topo == 4) for (auto& ex : d.ex) representable &= ex[0]+ex[1] <= order;
      if (representable)
        exact = integrate(dim, k.topo, 16, [&](const Vec& x) { return std::abs(oracle::det(derivPoly(d, x))); });
      if (representable) c.near(g.volume(), exact, volTol()*(1+exact), "finite element volume");
      if (representable) limits(s, c, g, exact);
      explicitRules(s, c, g, gt);
      c.cls("finite element " + shapeName(dim, k.topo) + " degree " + std::to_string(degree));
    }
    c.nontrivial = degree >= 2;
  });
}

// integration elements that are not polynomials: the computation must end with a
// value near the integral, whatever rules it runs through
CT_PART(G09, rough, "map with a square-root integration element or high degree")
{
  struct K { int dim; unsigned topo; };
  static const std::vector<K> all = {{1,0},{2,0},{2,2}};
  auto k = all[s.stratum(all.size())];
  withDim<1,2>(k.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value, w = dim+1;
    GeometryType gt = label(s, dim, k.topo);
    PolyData d; d.in = dim; d.out = w; d.b.assign(w, 0); d.B.assign(w, Vec(dim, 0)); d.q.assign(w, Vec());
    for (int i = 0; i < dim; ++i) d.B[i][i] = LD(s.real(0.02, 1));
    int deg = s.range(2, 24); std::vector<int> ex(dim, 0); for (int z = 0; z < deg; ++z) ++ex[s.choice(dim)];
    d.ex.push_back(ex); LD amp = s.real(0.5, 4); for (int i = 0; i < w; ++i) d.q[i].push_back(i == dim ? amp : LD(0));
    c.desc << shapeName(dim, k.topo) << " graph " << text(d);
    std::vector<Dune::FieldVector<ct,dim>> fv; for (auto& v : oracle::shape(dim, k.topo).corners) fv.push_back(toFV<ct,dim>(v));
    Dune::MultiLinearGeometry<ct,dim,dim> base(gt, fv);
    PolyMap<ct,dim,w> map{std::make_shared<const PolyData>(d)};
    Dune::MappedGeometry<PolyMap<ct,dim,w>,decltype(base)> g(map, base);
    LD exact = integrate(dim, k.topo, 64, [&](const Vec& x) { return oracle::gramDet(derivPoly(d, x), dim); });
    LD got = g.volume();
    c.near(got, exact, 0.05L*exact + volTol(), "volume of a graph");
    c.cls("graph over " + shapeName(dim, k.topo));
    c.nontrivial = true;
  });
}
