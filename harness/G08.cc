// G08
#include "curved.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>

namespace {
struct Kind { int dim; unsigned topo; int order; int cdim; };
std::vector<Kind> kinds()
{
  std::vector<Kind> r;
  for (int cd = 1; cd <= 3; ++cd) for (int k = 1; k <= 4; ++k) r.push_back({1, 0, k, cd});
  for (int cd = 2; cd <= 3; ++cd) for (unsigned t : {0u, 2u}) for (int k = 1; k <= 3; ++k) r.push_back({2, t, k, cd});
  for (unsigned t : {0u, 6u, 4u}) for (int k = 1; k <= 2; ++k) r.push_back({3, t, k, 3});
  return r;
}
}

CT_PART(G08, finiteelement, "order of at least two, or a map that is not affine")
{
  static const auto all = kinds();
  auto K = all[s.stratum(all.size())];
  withDim<1,3>(K.dim, [&](auto dc) { withDim<decltype(dc)::value,3>(K.cdim, [&](auto cc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cc)::value;
    using FE = LFE<ct,dim>; using G = Dune::LocalFiniteElementGeometry<FE,cdim>;
    using Gl = Dune::FieldVector<ct,cdim>; using Lo = Dune::FieldVector<ct,dim>;
    const LD e = eps<ct>();
    auto fe = makeFE(dim, K.topo, K.order);
    GeometryType gt = label(s, dim, K.topo);
    auto re = Dune::referenceElement<ct,dim>(gt);
    Model m = genModel<ct>(s, dim, K.topo, cdim);
    // coefficients: (multi)linear placement at the nodes, plus a bump
    int n = fe->nodes.size();
    std::vector<Vec> co(n);
    LD sig = minSingular(m.simplexJacobian(), dim);
    LD amp = K.order >= 2 && s.choice(4) ? sig*LD(0.02)/(K.order*K.order) : LD(0);
    for (int i = 0; i < n; ++i) { co[i] = m.global(fe->nodes[i]); for (auto& v : co[i]) { v += amp*LD(s.sreal(1)); v = LD(ct(v)); } }
    c.desc << shapeName(dim, K.topo) << " order " << K.order << " in " << cdim << "d, coefficients " << [&] { std::string t; for (auto& v : co) t += str(v); return t; }();
    LD sc = 0; for (auto& v : co) for (LD z : v) sc = std::max(sc, std::abs(z));
    LD basis = 4*K.order*K.order;                           // sum of |phi|, |grad phi| growth
    std::vector<Gl> fv; for (auto& v : co) fv.push_back(toFV<ct,cdim>(v));
    auto value = [&](const Vec& x) { Vec p = fe->values(x), y(cdim, 0); for (int i = 0; i < n; ++i) for (int k = 0; k < cdim; ++k) y[k] += p[i]*co[i][k]; return y; };
    auto deriv = [&](const Vec& x) { Mat g = fe->gradients(x), J(cdim, Vec(dim, 0)); for (int i = 0; i < n; ++i) for (int k = 0; k < cdim; ++k) for (int j = 0; j < dim; ++j) J[k][j] += g[i][j]*co[i][k]; return J; };
    std::vector<Vec> xs; int np = s.range(1, 3); for (int t = 0; t < np; ++t) xs.push_back(genLocal<ct>(s, m.shape())); 
    if (s.flag()) { xs[0] = m.centre(); for (auto& v : xs[0]) v = LD(ct(v)); }
    for (auto& x : xs) c.desc << " local " << str(x);

    // how far from affine the map is
    LD na = 0; { Mat J0(cdim, Vec(dim)); Vec o = value(Vec(dim, 0));
      for (int j = 0; j < dim; ++j) { Vec u(dim, 0); u[j] = 1; Vec y = value(u); for (int k = 0; k < cdim; ++k) J0[k][j] = y[k]-o[k]; }
      for (auto& x : fe->nodes) { Vec y = value(x); for (int k = 0; k < cdim; ++k) { LD d = o[k]-y[k]; for (int j = 0; j < dim; ++j) d += J0[k][j]*x[j]; na = std::max(na, std::abs(d)); } } }

    auto examine = [&](const G& g, const char* who) {
      c.equal(int(g.order()), K.order, who, " order"); c.check(g.type() == gt, who, " type ", g.type());
      c.check(referenceElement(g) == re, who, " reference element");
      c.equal(int(g.corners()), int(m.shape().corners.size()), who, " corners");
      c.equal(g.coefficients().size(), fv.size(), who, " number of coefficients");
      for (int i = 0; i < n; ++i) nearVec(c, toVec(g.coefficients()[i]), co[i], 0, "coefficient");
      c.equal(int(g.finiteElement().size()), n, who, " finite element size");
      for (size_t i = 0; i < m.shape().corners.size(); ++i) nearVec(c, toVec(g.corner(i)), value(m.shape().corners[i]), 32*e*sc*basis, "corner");
      nearVec(c, toVec(g.center()), value(m.centre()), 32*e*sc*basis, "center");
      if (K.order > 1) c.check(!g.affine(), who, ": order ", K.order, " reported affine");
      else if (na <= 16*e*sc) c.check(g.affine(), who, ": affine map not reported affine");
      else if (na >= 0.02L) c.check(!g.affine(), who, ": map deviating by ", na, " reported affine");
      for (auto& x : xs) {
        auto xl = toFV<ct,dim>(x); Mat J = deriv(x);
        Answers a; a.global = toVec(g.global(xl)); a.J = dense(g.jacobian(xl), cdim, dim); a.JT = dense(g.jacobianTransposed(xl), dim, cdim);
        a.JI = dense(g.jacobianInverse(xl), dim, cdim); a.JIT = dense(g.jacobianInverseTransposed(xl), cdim, dim); a.ie = g.integrationElement(xl);
        compareMap(c, a, value(x), J, dim, cdim, sc*basis, e);
        auto yl = g.global(xl); auto back = g.local(yl);
        c.check((g.global(back) - yl).two_norm() <= 2*std::sqrt(std::numeric_limits<ct>::epsilon()), who, " residual of local");
        nearVec(c, toVec(back), x, 8*std::sqrt(e)/minSingular(J, dim) , "local(global)");
      }
    };
    FE lfe(fe);
    G g1(gt, lfe, fv); examine(g1, "type, coefficients");
    G g2(re, lfe, fv); examine(g2, "reference element, coefficients");
    { (void)g1.affine(); G h; h = g1; examine(h, "assigned to an empty one"); G k(h); examine(k, "copied");
      // over a geometry of another map that has already answered
      std::vector<Gl> other = fv; if (s.flag()) for (auto& v : other) v *= ct(2); if (other.size()) other.back() += Gl(ct(0.5));
      G q(gt, lfe, other); (void)q.affine(); (void)q.center(); q = g1; examine(q, "assigned over another geometry"); }
    // from a parametrisation
    if (s.flag()) {
      auto f = [&](const Lo& x) { Vec y = value(toVec(x)); return toFV<ct,cdim>(y); };
      G g3(gt, lfe, f), g4(re, lfe, f);
      for (int i = 0; i < n; ++i) { nearVec(c, toVec(g3.coefficients()[i]), co[i], 64*e*sc*basis, "interpolated coefficient"); nearVec(c, toVec(g4.coefficients()[i]), co[i], 64*e*sc*basis, "interpolated coefficient"); }
      for (auto& x : xs) nearVec(c, toVec(g3.global(toFV<ct,dim>(x))), value(x), 256*e*sc*basis*basis, "interpolated map");
      c.cls("from parametrisation");
    }
    // against the corner based geometry
    if (K.order == 1) {
      std::vector<Gl> corners; for (int i : fe->cornerNode) corners.push_back(fv[i]);
      Dune::MultiLinearGeometry<ct,dim,cdim> ml(gt, corners);
      for (auto& x : xs) {
        auto xl = toFV<ct,dim>(x);
        Bounds b = bounds(deriv(x), dim, sc*basis, e);
        Answers u = probe(ml, xl), a;
        a.global = toVec(g1.global(xl)); a.centre = toVec(g1.center()); a.J = dense(g1.jacobian(xl), cdim, dim); a.JT = dense(g1.jacobianTransposed(xl), dim, cdim);
        a.JI = dense(g1.jacobianInverse(xl), dim, cdim); a.JIT = dense(g1.jacobianInverseTransposed(xl), cdim, dim); a.ie = g1.integrationElement(xl); a.type = g1.type();
        for (int i = 0; i < g1.corners(); ++i) a.corners.push_back(toVec(g1.corner(i)));
        a.vol = u.vol;
        compareAnswers(c, a, u, b, 0, "finite element against multilinear");
        if (na <= 16*e*sc) c.near(g1.volume(), ml.volume(), 8*b.ie, "volume of an affine element");
      }
    }
    c.cls(shapeName(dim, K.topo) + " order " + std::to_string(K.order));
    c.nontrivial = K.order >= 2 || na > 0.01L;
  }); });
}

// elements that are nearly flat in the middle: the inversion must not be thrown off
CT_PART(G08, steep, "slopes of the map differ by a factor of more than four")
{
  int k = s.stratum(3);
  withDim<1,3>(k+1, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    const unsigned topo = ((1u << dim)-1) & ~1u;               // the tensor elements hold the cubic map
    PolyData d = genSteep(s, dim, 3);
    auto fe = makeFE(dim, topo, 3);
    auto at = [&](const Vec& x) { Vec z = x; for (auto& v : z) v -= LD(0.5); return z; };
    std::vector<Dune::FieldVector<ct,dim>> co; for (auto& x : fe->nodes) co.push_back(toFV<ct,dim>(evalPoly(d, at(x))));
    Dune::LocalFiniteElementGeometry<LFE<ct,dim>,dim> geo(label(s, dim, topo), LFE<ct,dim>(fe), co);
    Vec x = genLocal<ct>(s, oracle::shape(dim, topo)); for (auto& v : x) v = LD(ct(v));
    c.desc << shapeName(dim, topo) << " map of x-1/2 " << text(d) << " local " << str(x);
    auto y = geo.global(toFV<ct,dim>(x));
    auto back = geo.local(y);
    c.check((geo.global(back) - y).two_norm() <= 2*std::sqrt(std::numeric_limits<ct>::epsilon()), "residual of local");
    LD sig = minSingular(derivPoly(d, at(x)), dim), sig0 = minSingular(derivPoly(d, Vec(dim, 0)), dim);
    nearVec(c, toVec(back), x, 8*std::sqrt(eps<ct>())/std::min(sig, sig0), "local(global)");
    LD big = oracle::frob(derivPoly(d, at(x))); c.nontrivial = big > 4*sig0; c.cls(std::to_string(dim) + "d");
  });
}
