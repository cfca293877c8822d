// G02
#include "geocommon.hh"
#include <dune/common/dynvector.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
static constexpr int MAXD = CT_MAX(5,3);

CT_PART(G02, jacobians, "dimension >= 1; the map has full rank and is differentiable at the point")
{
  static const auto all = placements(MAXD);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    Model m = genModel<ct>(s, dim, p.topo, cdim); relocate<ct>(s, m);
    int ex = 0;
    if (s.oneIn(4)) {   // other sizes
      ex = s.range(0, 30) - 15;
      for (auto& q : m.corners) for (auto& v : q) v = std::ldexp(v, ex);
      m.finish(0);
    }
    Vec x = genLocal<ct>(s, m.shape());
    GeometryType gt = label(s, dim, p.topo);
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    if (!m.affine && m.tipDistance(x) < 1e-3L) { c.cls("skipped: cone tip"); return; }
    Mat J = m.jacobian(x);
    auto xl = toFV<ct,dim>(x);
    auto fv = m.fv<ct,cdim>();
    Dune::MultiLinearGeometry<ct,dim,cdim> g(gt, fv);
    Answers a = probe(g, xl);
    compareMap(c, a, m.global(x), J, dim, cdim, m.scale, eps<ct>());
    if constexpr (requires { g.jacobianInverseTransposed(xl).detInv(); }) {
      if constexpr (dim > 0) {
        auto jit = g.jacobianInverseTransposed(xl);
        Bounds b = bounds(J, dim, m.scale, eps<ct>());
        c.near(jit.detInv(), oracle::gramDet(J, dim), b.ie, "determinant stored with the inverse");
      }
    }
    // volume of the affine image
    if (m.affine) {
      Bounds b = bounds(J, dim, m.scale, eps<ct>());
      c.near(a.vol, oracle::gramDet(J, dim)*m.shape().volume, 2*b.ie*m.shape().volume, "volume");
    }
    if (ex == 0) {
      Dune::CachedMultiLinearGeometry<ct,dim,cdim> cg(gt, fv);
      compareMap(c, probe(cg, xl), m.global(x), J, dim, cdim, m.scale, eps<ct>());
    }
    if (m.affine && (p.topo >> 1) == 0) {
      Dune::AffineGeometry<ct,dim,cdim> ag(gt, fv);
      compareMap(c, probe(ag, xl), m.global(x), J, dim, cdim, m.scale, eps<ct>());
    }
    // the derivative by symmetric differences of the geometry's own map
    if (dim > 0 && m.tipDistance(x) > 0.05L) {
      LD h = std::pow(eps<ct>(), LD(1)/3) * 0.25L;
      int j = s.choice(dim);
      auto xp = xl, xm = xl; xp[j] += ct(h); xm[j] -= ct(h);
      LD hh = LD(xp[j]) - LD(xm[j]);
      auto yp = toVec(g.global(xp)), ym = toVec(g.global(xm));
      LD tol = 200*std::pow(eps<ct>(), LD(2)/3) * (m.scale + oracle::frob(J)) / std::pow(m.tipDistance(x), 4);
      for (int i = 0; i < cdim; ++i) c.near(a.J[i][j], (yp[i]-ym[i])/hh, tol, "difference quotient");
    }
    c.cls("dim" + std::to_string(dim) + " in " + std::to_string(cdim) + (m.affine ? " affine" : " curved"));
    c.nontrivial = dim >= 1;
  });
}
