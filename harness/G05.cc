// G05
#include "geocommon.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
static constexpr int MAXD = CT_MAX(5,3);

CT_PART(G05, affine, "dimension >= 1")
{
  static const auto all = placements(MAXD);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    using G = Dune::AffineGeometry<ct,dim,cdim>;
    Model m = genModel<ct>(s, dim, p.topo, cdim, false); relocate<ct>(s, m);
    int ex = s.oneIn(4) ? s.range(0, 30) - 15 : 0;
    for (auto& q : m.corners) for (auto& v : q) v = std::ldexp(v, ex);
    m.finish(0);
    GeometryType gt = label(s, dim, p.topo);
    Vec x = genLocal<ct>(s, m.shape());
    bool outside = s.oneIn(3);
    if (outside) for (auto& v : x) v = LD(ct(v + LD(s.sreal(2))));
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    Mat J = m.simplexJacobian();
    const LD e = eps<ct>();
    typename G::JacobianTransposed jt(0);
    for (int j = 0; j < dim; ++j) for (int i = 0; i < cdim; ++i) jt[j][i] = ct(J[i][j]);
    auto o = toFV<ct,cdim>(m.corners[0]);
    auto xl = toFV<ct,dim>(x);
    auto re = Dune::referenceElement<ct,dim>(gt);
    LD sc = m.scale*(1 + oracle::norm(x));
    Bounds b = bounds(J, dim, sc, e);
    Vec y = m.corners[0]; for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) y[i] += J[i][j]*x[j];
    Vec cen = m.corners[0]; Vec bc = m.centre(); for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) cen[i] += J[i][j]*bc[j];
    Vec off(cdim); for (auto& v : off) v = std::ldexp(LD(s.sreal(1)), ex);

    auto examine = [&](const G& g, const char* who) {
      Answers a = probe(g, xl);
      compareMap(c, a, y, J, dim, cdim, sc, e);
      c.check(a.affine, who, " not affine");
      c.check(a.type == gt, who, " type ", a.type);
      c.equal(a.corners.size(), m.corners.size(), who, " corners");
      for (size_t i = 0; i < a.corners.size(); ++i) nearVec(c, a.corners[i], m.corners[i], b.value, who);
      nearVec(c, a.centre, cen, b.value, "center");
      c.near(a.vol, oracle::gramDet(J, dim)*m.shape().volume, 2*b.ie, who, " volume");
      c.check(referenceElement(g) == re, who, " reference element differs");
      nearVec(c, toVec(g.local(toFV<ct,cdim>(y))), x, 4*b.local*(1+oracle::norm(x)), "local(global)");
      if (dim > 0) {   // least squares inverse of an arbitrary point
        Mat I = oracle::leftInverse(J); Vec w(dim, 0);
        Vec z(cdim); for (int i = 0; i < cdim; ++i) z[i] = LD(ct(y[i] + off[i]));
        for (int j = 0; j < dim; ++j) for (int i = 0; i < cdim; ++i) w[j] += I[j][i]*(z[i]-m.corners[0][i]);
        Bounds bz = bounds(J, dim, sc + std::ldexp(LD(1), ex), e);
        nearVec(c, toVec(g.local(toFV<ct,cdim>(z))), w, 4*bz.local*(1+oracle::norm(w)), "least-squares local");
      }
    };
    G g1(gt, o, jt); examine(g1, "type and Jacobian");
    G g2(re, o, jt); examine(g2, "reference element and Jacobian");
    auto fv = m.fv<ct,cdim>();
    if ((p.topo >> 1) == 0) {
      G g3(gt, fv), g4(re, fv); examine(g3, "type and corners"); examine(g4, "reference element and corners");
      std::array<Dune::FieldVector<ct,cdim>, dim+1> arr; for (int i = 0; i <= dim; ++i) arr[i] = fv[i];
      G g5(gt, arr); examine(g5, "type and corner array");
    }
    G h; h = g1; examine(h, "assigned to an empty one"); h = G(gt, o, jt); examine(h, "assigned from a temporary"); G k(h); examine(k, "copied");
    // over one that differs in a few entries only
    { auto jo = jt; auto oo = o;
      for (int j = 0; j < dim; ++j) if (s.oneIn(3)) jo[j] *= ct(2);
      if (dim > 0 && s.flag()) jo[dim-1] *= ct(4);
      if (s.oneIn(3)) oo[cdim-1] += ct(1);
      const auto list = shapes(dim, dim); GeometryType go = s.oneIn(3) ? GeometryType(list[s.choice(list.size())].second, dim) : gt;
      G q(go, oo, jo); (void)q.volume(); (void)q.local(oo); q = g1; examine(q, "assigned over a similar one"); }
    if (ex == 0 && !outside) {
      Dune::MultiLinearGeometry<ct,dim,cdim> ml(gt, fv);
      compareAnswers(c, probe(g1, xl), probe(ml, xl), b, 4*b.ie, "affine against multilinear");
      nearVec(c, toVec(g1.local(toFV<ct,cdim>(y))), toVec(ml.local(toFV<ct,cdim>(y))), 8*b.local, "affine local against multilinear local");
    }
    c.cls("dim" + std::to_string(dim) + " in " + std::to_string(cdim));
    c.nontrivial = dim >= 1;
  });
}
