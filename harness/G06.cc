// G06
#include "geocommon.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
static constexpr int MAXD = CT_MAX(5,4);

CT_PART(G06, boxes, "dimension >= 1 with edges of different lengths")
{
  static const auto all = [] { std::vector<std::pair<int,int>> r; for (int d = 0; d <= MAXD; ++d) for (int cd = std::max(1,d); cd <= MAXD; ++cd) r.push_back({d,cd}); return r; }();
  auto [kd, kcd] = all[s.stratum(all.size())];
  int k0 = kd, k1 = kcd;
  withDims<MAXD>(k0, k1, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    using G = Dune::AxisAlignedCubeGeometry<ct,dim,cdim>;
    const LD e = eps<ct>();
    // box
    bool unit = s.choice(4) == 0;
    LD size = s.oneIn(4) ? std::ldexp(LD(1), s.range(0, 30) - 15) : LD(1);
    Dune::FieldVector<ct,cdim> lo, up;
    std::vector<int> axes;
    { std::vector<int> idx(cdim); for (int i = 0; i < cdim; ++i) idx[i] = i;
      for (int i = 0; i < dim; ++i) { int k = s.choice(idx.size()); axes.push_back(idx[k]); idx.erase(idx.begin()+k); }
      std::sort(axes.begin(), axes.end()); }
    std::bitset<cdim> bits; for (int a : axes) bits.set(a);
    for (int i = 0; i < cdim; ++i) {
      LD l = s.sreal(2), w = unit ? LD(1) : std::ldexp(LD(s.real(1, 2)), s.range(0, 6) - 3);
      lo[i] = ct(size*l); up[i] = ct(lo[i] + ct(size*w));
    }
    Dune::FieldVector<ct,cdim> upGiven = up;      // entries of inactive axes are ignored
    for (int i = 0; i < cdim; ++i) if (!bits[i]) { up[i] = lo[i]; if (s.flag()) upGiven[i] = ct(size*LD(s.sreal(5))); else upGiven[i] = lo[i]; }
    // model
    Model m; m.dim = dim; m.cdim = cdim; m.topo = dim == 0 ? 0 : ((1u << dim) - 1) & ~1u; m.affine = true;
    for (auto& r : m.shape().corners) { Vec v = toVec(lo); for (int j = 0; j < dim; ++j) if (r[j] == 1) v[axes[j]] = up[axes[j]]; m.corners.push_back(v); }
    m.finish(0);
    Vec x = genLocal<ct>(s, m.shape());
    if (s.oneIn(3)) for (auto& v : x) v = LD(ct(v + LD(s.sreal(2))));
    c.desc << "box lower " << str(toVec(lo)) << " upper " << str(toVec(upGiven)) << " axes " << str(axes) << " local " << str(x);
    Mat J = m.simplexJacobian(); auto xl = toFV<ct,dim>(x);
    Vec y = toVec(lo); LD vol = 1;
    for (int j = 0; j < dim; ++j) { LD w = LD(up[axes[j]]) - LD(lo[axes[j]]); y[axes[j]] += w*x[j]; vol *= w; }
    LD sc = m.scale*(1 + oracle::norm(x));
    Bounds b = bounds(J, dim, sc, e);
    LD wmin = 1e30L; for (int j = 0; j < dim; ++j) wmin = std::min(wmin, LD(up[axes[j]]) - LD(lo[axes[j]]));
    const auto cube = Dune::GeometryTypes::cube(dim);
    auto re = Dune::ReferenceElements<ct,dim>::cube();

    auto examine = [&](const G& g, const char* who) {
      Answers a = probe(g, xl);
      compareMap(c, a, y, J, dim, cdim, sc, e);
      // entries outside the active axes vanish exactly
      for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) if (axes[j] != i) {
        c.check(a.J[i][j] == 0 && a.JT[j][i] == 0 && a.JI[j][i] == 0 && a.JIT[i][j] == 0, who, ": entry outside the active axes is not zero");
      }
      c.check(a.affine, who, " not affine"); c.check(a.type == cube, who, " type ", a.type);
      c.equal(a.corners.size(), m.corners.size(), who, " corners");
      for (size_t i = 0; i < a.corners.size(); ++i) nearVec(c, a.corners[i], m.corners[i], 0, who);
      Vec cen = toVec(lo); for (int i = 0; i < cdim; ++i) cen[i] = (LD(lo[i]) + LD(up[i]))/2;
      nearVec(c, a.centre, cen, 4*e*m.scale, "center");
      LD rel = 16*e*(1 + m.scale/(dim ? wmin : 1));
      c.near(a.vol, vol, rel*vol*(dim+1), who, " volume"); c.near(a.ie, vol, rel*vol*(dim+1), who, " integration element");
      c.check(referenceElement(g) == re, who, " reference element differs");
      Vec z(cdim); for (int i = 0; i < cdim; ++i) z[i] = LD(ct(y[i]));
      auto lx = toVec(g.local(toFV<ct,cdim>(z)));
      for (int j = 0; j < dim; ++j) c.near(lx[j], x[j], 16*e*(1+std::abs(x[j]))*(1 + sc/(LD(up[axes[j]])-LD(lo[axes[j]]))), who, " local(global)");
      if (cdim > dim) {   // off the box in inactive directions: the projection
        for (int i = 0; i < cdim; ++i) if (!bits[i]) z[i] = LD(ct(z[i] + size));
        auto l2 = toVec(g.local(toFV<ct,cdim>(z)));
        for (int j = 0; j < dim; ++j) c.near(l2[j], lx[j], 0, who, " local of a point off the box");
      }
    };
    G g(lo, upGiven, bits); examine(g, "with axes");
    if constexpr (dim == cdim) { G h(lo, up); examine(h, "two corners"); }
    if constexpr (dim == 0) { G h(lo); examine(h, "single point"); }
    G k; k = g; examine(k, "assigned to an empty one"); G q(k); examine(q, "copied");
    // assigned over a different box
    Dune::FieldVector<ct,cdim> z0(ct(0)), z1(ct(1)); std::bitset<cdim> other; for (int i = 0; i < dim; ++i) other.set(cdim-1-i);
    G w(z0, z1, other); (void)w.volume(); w = g; examine(w, "assigned over another box");
    // and over one that differs in the last axis only
    { auto lo2 = lo; auto up2 = upGiven; up2[cdim-1] += ct(1); if (s.flag()) lo2[cdim-1] -= ct(1);
      G v(lo2, up2, bits); (void)v.volume(); v = g; examine(v, "assigned over a similar box"); }
    if (size == 1) {
      Dune::MultiLinearGeometry<ct,dim,cdim> ml(cube, m.fv<ct,cdim>());
      compareAnswers(c, probe(g, xl), probe(ml, xl), b, 4*b.ie, "box against multilinear");
      c.equal(g.affine(), ml.affine(), "affine");
      nearVec(c, toVec(g.local(toFV<ct,cdim>(y))), toVec(ml.local(toFV<ct,cdim>(y))), 8*b.local*(1+oracle::norm(x)), "box local against multilinear local");
    }
    c.cls("dim" + std::to_string(dim) + " in " + std::to_string(cdim));
    c.nontrivial = dim >= 1 && !unit;
  });
}
