// G03
#include "geocommon.hh"
#include <dune/common/dynvector.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
static constexpr int MAXD = CT_MAX(5,3);

CT_PART(G03, inverse, "dimension >= 1")
{
  static const auto all = placements(MAXD, 1);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    Model m = genModel<ct>(s, dim, p.topo, cdim); relocate<ct>(s, m);
    GeometryType gt = label(s, dim, p.topo);
    // stay away from non-smooth cone tips unless the map is affine
    Vec x = genLocal<ct>(s, m.shape(), m.affine ? 0 : (s.flag() ? LD(0.2) : LD(0.02)));
    auto fv = m.fv<ct,cdim>();
    const LD e = eps<ct>();
    auto xl = toFV<ct,dim>(x);
    Dune::MultiLinearGeometry<ct,dim,cdim> g(gt, fv);
    Dune::CachedMultiLinearGeometry<ct,dim,cdim> cg(gt, fv);
    int off = cdim > dim ? int(s.choice(3)) : 0;
    Mat J = m.jacobian(x);
    Bounds b = bounds(J, dim, m.scale, e);
    LD tol = 4*b.local + (m.affine ? 0 : 256*e);
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    if (off == 0) {
      auto y = toFV<ct,cdim>(m.global(x));
      nearVec(c, toVec(g.local(y)), x, tol, "local(global)");
      nearVec(c, toVec(cg.local(y)), x, tol, "cached local(global)");
      (void)cg.jacobianInverseTransposed(xl);
      nearVec(c, toVec(cg.local(y)), x, tol, "cached local(global) after the inverse was asked for");
      auto gy = g.global(xl);
      nearVec(c, toVec(g.local(gy)), x, tol, "local(own global)");
      if (m.affine && (p.topo >> 1) == 0) nearVec(c, toVec(Dune::AffineGeometry<ct,dim,cdim>(gt, fv).local(y)), x, tol, "affine local(global)");
      // centre
      nearVec(c, toVec(g.local(g.center())), m.centre(), 4*bounds(m.jacobian(m.centre()), dim, m.scale, e).local + 256*e, "local(center)");
      // points outside the element: the affine map is inverted there as well
      if (m.affine) {
        Vec far = x; for (auto& v : far) v = LD(ct(v + LD(s.sreal(4))));
        auto yf = toFV<ct,cdim>(m.global(far));
        LD sc = m.scale; for (int i = 0; i < cdim; ++i) sc = std::max(sc, std::abs(LD(yf[i])));
        Bounds bf = bounds(J, dim, sc, e);
        nearVec(c, toVec(g.local(yf)), far, 4*bf.local + 64*e*b.kappa*b.kappa*(1+oracle::norm(far)), "local outside the element");
        nearVec(c, toVec(cg.local(yf)), far, 4*bf.local + 64*e*b.kappa*b.kappa*(1+oracle::norm(far)), "cached local outside the element");
      }
      c.cls(m.affine ? "on image, affine" : "on image, curved");
    } else {
      // off the image: an offset orthogonal to the tangent space at x keeps x the minimiser
      Vec d(cdim); for (auto& v : d) v = s.sreal(1);
      Mat I = oracle::leftInverse(J);
      Vec t(dim, 0); for (int j = 0; j < dim; ++j) for (int i = 0; i < cdim; ++i) t[j] += I[j][i]*d[i];
      for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) d[i] -= J[i][j]*t[j];
      LD len = oracle::norm(d);
      LD amount = m.affine ? LD(s.real(0, 3)) : LD(s.real(0, 0.05))*minSingular(J, dim);
      if (len < 1e-3L) { c.cls("skipped: offset in the tangent space"); return; }
      Vec y = m.global(x); for (int i = 0; i < cdim; ++i) y[i] = LD(ct(y[i] + d[i]/len*amount));
      c.desc << " off-image target " << str(y);
      auto yl = toFV<ct,cdim>(y);
      LD sc = m.scale + amount;
      LD t2 = 4*bounds(J, dim, sc, e).local*(1 + amount/minSingular(J, dim)) + (m.affine ? 0 : 8*std::sqrt(16*e));
      nearVec(c, toVec(g.local(yl)), x, t2, "closest point");
      nearVec(c, toVec(cg.local(yl)), x, t2, "cached closest point");
      if (m.affine && (p.topo >> 1) == 0) nearVec(c, toVec(Dune::AffineGeometry<ct,dim,cdim>(gt, fv).local(yl)), x, t2, "affine closest point");
      c.cls(m.affine ? "off image, affine" : "off image, curved");
    }
    c.nontrivial = true;
  });
}
