// G07
#include "curved.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>

namespace {
struct Dims { int dim, g, w; };
const std::vector<Dims> dimsList = {{1,1,1},{1,1,2},{1,2,2},{2,2,2},{2,2,3},{1,2,3},{2,3,3},{3,3,3},{1,3,3}};

template<class Base, int w>
void examine(Source& s, Ctx& c, const Base& base, const Model& m, bool affineBase)
{
  constexpr int dim = Base::mydimension, g = Base::coorddimension;
  using Map = PolyMap<ct,g,w>;
  const LD e = eps<ct>();
  LD radius = std::max(LD(1), m.scale);
  auto data = std::make_shared<const PolyData>(genPoly(s, g, w, radius, 0.2, 4));
  bool affineMap = data->ex.empty();
  c.desc << " map " << text(*data);
  Map map{data};
  using G = Dune::MappedGeometry<Map,Base>;
  bool flag = affineMap && affineBase && s.flag();
  std::optional<G> hold; hold.emplace(map, base, flag);
  // a second one over which the first is assigned
  if (s.flag()) {
    auto other = std::make_shared<const PolyData>(genPoly(s, g, w, radius, 0.2, 3));
    G h(Map{other}, base, !flag);
    (void)h.center();
    h = *hold; hold.reset(); G k(h); hold.emplace(std::move(k)); c.cls("assigned, copied and moved");
  }
  const G& geo = *hold;
  c.equal(geo.affine(), flag, "affinity given at construction");
  c.equal(int(geo.corners()), int(m.corners.size()), "number of corners");
  c.check(geo.type() == base.type(), "type ", geo.type());
  c.check(referenceElement(geo) == referenceElement(base), "reference element differs from the base");
  int n = s.range(1, 3);
  LD fs = 0; for (auto& q : m.corners) { Vec y = evalPoly(*data, q); for (LD v : y) fs = std::max(fs, std::abs(v)); }
  LD lip = oracle::frob(data->B)*2;
  LD sc = fs + lip*m.scale;
  for (size_t i = 0; i < m.corners.size(); ++i) nearVec(c, toVec(geo.corner(i)), evalPoly(*data, m.corners[i]), 64*e*sc, "corner");
  nearVec(c, toVec(geo.center()), evalPoly(*data, m.global(m.centre())), 64*e*sc, "center");
  for (int t = 0; t < n; ++t) {
    Vec x = (t == 0 && s.flag()) ? m.centre() : genLocal<ct>(s, m.shape(), m.affine ? 0 : LD(0.05));
    for (auto& v : x) v = LD(ct(v));
    c.desc << " local " << str(x);
    auto xl = toFV<ct,dim>(x);
    Vec z = m.global(x), y = evalPoly(*data, z);
    Mat J = oracle::mul(derivPoly(*data, z), m.jacobian(x));
    Answers a;
    a.global = toVec(geo.global(xl)); a.J = dense(geo.jacobian(xl), w, dim); a.JT = dense(geo.jacobianTransposed(xl), dim, w);
    a.JI = dense(geo.jacobianInverse(xl), dim, w); a.JIT = dense(geo.jacobianInverseTransposed(xl), w, dim); a.ie = geo.integrationElement(xl);
    compareMap(c, a, y, J, dim, w, 2*sc, e);
    // inverse: the documented stopping tolerance is sqrt(epsilon) on the residual
    auto yl = geo.global(xl);
    auto back = geo.local(yl);
    auto res = geo.global(back) - yl;
    c.check(res.two_norm() <= 2*std::sqrt(std::numeric_limits<ct>::epsilon()), "residual of local is ", res.two_norm());
    LD sig = minSingular(J, dim);
    nearVec(c, toVec(back), x, 8*std::sqrt(e)/sig, "local(global)");
  }
  c.cls(std::string(affineMap ? "affine map" : "curved map") + (m.affine ? ", affine base" : ", curved base"));
  c.nontrivial = !affineMap;
}
}

CT_PART(G07, mapped, "the map is not affine")
{
  auto D = dimsList[s.stratum(dimsList.size())];
  withDim<1,3>(D.dim, [&](auto dc) { withDim<decltype(dc)::value,3>(D.g, [&](auto gc) { withDim<decltype(gc)::value,3>(D.w, [&](auto wc) {
    constexpr int dim = decltype(dc)::value, g = decltype(gc)::value, w = decltype(wc)::value;
    if constexpr (!(dim == 1 && g == 1 && w == 3) && !(dim == 3 && false)) {
      const auto list = shapes(dim, dim);
      int kind = s.choice(4);
      unsigned topo = list[s.choice(list.size())].second;
      if (kind == 2) topo = ((1u << dim)-1) & ~1u;
      GeometryType gt = label(s, dim, topo);
      c.desc << shapeName(dim, topo) << " " << dim << "->" << g << "->" << w;
      if (kind == 0 || kind == 3) {
        Model m = genModel<ct>(s, dim, topo, g);
        c.desc << " corners " << m.text();
        if (kind == 0) { Dune::MultiLinearGeometry<ct,dim,g> b(gt, m.fv<ct,g>()); examine<decltype(b),w>(s, c, b, m, m.affine); }
        else { Dune::CachedMultiLinearGeometry<ct,dim,g> b(gt, m.fv<ct,g>()); examine<decltype(b),w>(s, c, b, m, m.affine); }
      } else if (kind == 1) {
        Model m = genModel<ct>(s, dim, topo, g, false);
        c.desc << " affine corners " << m.text();
        Dune::AffineGeometry<ct,dim,g> b;
        { Mat J = m.simplexJacobian(); Dune::FieldMatrix<ct,dim,g> jt; for (int j = 0; j < dim; ++j) for (int i = 0; i < g; ++i) jt[j][i] = ct(J[i][j]);
          b = Dune::AffineGeometry<ct,dim,g>(gt, toFV<ct,g>(m.corners[0]), jt); }
        examine<decltype(b),w>(s, c, b, m, true);
      } else {
        Dune::FieldVector<ct,g> lo, up; std::bitset<g> bits; for (int i = 0; i < dim; ++i) bits.set(g-1-i);
        for (int i = 0; i < g; ++i) { lo[i] = ct(s.sreal(1)); up[i] = bits[i] ? ct(lo[i] + ct(s.real(0.5, 2))) : lo[i]; }
        Dune::AxisAlignedCubeGeometry<ct,dim,g> b(lo, up, bits);
        Model m; m.dim = dim; m.cdim = g; m.topo = topo; m.affine = true;
        for (auto& r : m.shape().corners) { Vec v = toVec(lo); for (int j = 0; j < dim; ++j) if (r[j] == 1) v[g-dim+j] = up[g-dim+j]; m.corners.push_back(v); }
        m.finish(0); c.desc << " box " << m.text();
        examine<decltype(b),w>(s, c, b, m, true);
      }
    }
  }); }); });
}

// maps that are nearly flat in the middle: the inversion must not be thrown off
CT_PART(G07, steep, "slopes of the map differ by a factor of more than four")
{
  int k = s.stratum(3);
  withDim<1,3>(k+1, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    const auto list = shapes(dim, dim);
    unsigned topo = list[s.choice(list.size())].second; GeometryType gt = label(s, dim, topo);
    const auto& sh = oracle::shape(dim, topo);
    Vec ctr(dim, 0); for (auto& q : sh.corners) for (int i = 0; i < dim; ++i) ctr[i] += q[i]/sh.corners.size();
    auto data = std::make_shared<const PolyData>(genSteep(s, dim, s.flag() ? 3 : 5));
    // the base puts the reference element's centre at the flat place
    std::vector<Dune::FieldVector<ct,dim>> co; for (auto& q : sh.corners) { Vec v(dim); for (int i = 0; i < dim; ++i) v[i] = q[i] - ctr[i]; co.push_back(toFV<ct,dim>(v)); }
    Dune::MultiLinearGeometry<ct,dim,dim> base(gt, co);
    Dune::MappedGeometry<PolyMap<ct,dim,dim>,decltype(base)> geo(PolyMap<ct,dim,dim>{data}, base);
    Vec x = genLocal<ct>(s, sh, LD(0.01)); for (auto& v : x) v = LD(ct(v));
    c.desc << shapeName(dim, topo) << " map " << text(*data) << " local " << str(x);
    auto y = geo.global(toFV<ct,dim>(x));
    auto back = geo.local(y);
    c.check((geo.global(back) - y).two_norm() <= 2*std::sqrt(std::numeric_limits<ct>::epsilon()), "residual of local");
    Vec z(dim); for (int i = 0; i < dim; ++i) z[i] = x[i] - ctr[i];
    LD sig = minSingular(derivPoly(*data, z), dim), sig0 = minSingular(derivPoly(*data, Vec(dim, 0)), dim);
    nearVec(c, toVec(back), x, 8*std::sqrt(eps<ct>())/std::min(sig, sig0), "local(global)");
    LD big = oracle::frob(derivPoly(*data, z)); c.nontrivial = big > 4*sig0; c.cls(shapeName(dim, topo));
  });
}
