// G12
#include "curved.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>

namespace {
struct Opts { int maxIt = -1, inner = -1; LD tol = -1, theta = -1; bool any() const { return maxIt >= 0 || inner >= 0 || tol > 0 || theta > 0; } };

// the type of the options, whatever its name is
template<class R, class C, class A, class O> std::decay_t<O> optionsOf(R (C::*)(A, O) const);

template<class G>
void query(Source& s, Ctx& c, const G& geo, const oracle::Shape& sh, LD scale, bool easy)
{
  constexpr int dim = G::mydimension, w = G::coorddimension;
  const LD e = eps<ct>();
  // the point: an image of a point inside, of one outside, or one anywhere
  Vec x0(dim);
  { Vec p = genLocal<ct>(s, sh); x0 = p; }
  int where = s.choice(4);
  if (where == 1) for (auto& v : x0) v += LD(s.sreal(1));
  auto y = geo.global(toFV<ct,dim>(x0));
  if (where >= 2) for (int k = 0; k < w; ++k) y[k] += ct((where == 2 ? LD(0.1) : LD(10))*scale*LD(s.sreal(1)));
  Opts o; decltype(optionsOf(&G::local)) go;
  if (s.flag()) {
    static const int its[] = {0, 1, 2, 3, 5, 20}, inns[] = {0, 1, 2, 4, 30};
    if (s.flag()) { o.maxIt = its[s.choice(6)]; go.maxIt = o.maxIt; }
    if (s.flag()) { o.inner = inns[s.choice(5)]; go.maxInnerIt = o.inner; }
    if (s.flag()) { static const LD ts[] = {1e-1L, 1e-3L, 1e-5L}; o.tol = ts[s.choice(3)]; go.absTol = ct(o.tol); }
    if (s.flag()) { static const LD th[] = {0.1L, 0.5L, 0.9L}; o.theta = th[s.choice(3)]; go.theta = ct(o.theta); }
  }
  c.desc << " point " << str(toVec(y)) << " iterations " << o.maxIt << " inner " << o.inner << " tolerance " << double(o.tol) << " factor " << double(o.theta);
  std::optional<Dune::FieldVector<ct,dim>> got;
  try { got = o.any() ? geo.local(y, go) : geo.local(y); }
  catch (const Dune::Exception&) {}
  if (!got) {
    c.cls("refused");
    // one step solves a linear problem
    bool must = easy && where < 2 && dim == w && o.maxIt != 0 && o.inner != 0 && (o.tol < 0 || o.tol >= 1e-3L) && LD(go.absTol) > 1e4L*e*scale;
    c.check(!must, "refused a point of a regular affine element");
  } else {
    for (int j = 0; j < dim; ++j) c.check(std::isfinite(LD((*got)[j])), "coordinate ", j, " is not a number");
    auto back = geo.global(*got);
    LD r = 0; Vec rv(w), gv = toVec(*got); for (int k = 0; k < w; ++k) { rv[k] = LD(back[k]) - LD(y[k]); r += rv[k]*rv[k]; } r = std::sqrt(r);
    LD tol = 1.001L*LD(go.absTol);
    if (!(r <= tol)) {
      // still right if it minimises the distance
      Mat J = dense(geo.jacobian(*got), w, dim);
      LD g = 0, n = 0; for (int j = 0; j < dim; ++j) { LD a = 0; for (int k = 0; k < w; ++k) { a += J[k][j]*rv[k]; n += J[k][j]*J[k][j]; } g += a*a; }
      c.check(std::sqrt(g) <= 1e-2L*std::sqrt(n)*r, "returned ", str(gv), " which misses the point by ", r, " with tolerance ", LD(go.absTol));
      c.cls("closest point");
    } else c.cls(where == 0 ? "found inside" : where == 1 ? "found outside" : "found elsewhere");
  }
  c.nontrivial = where >= 1 || o.any() || !easy;
}
}

CT_PART(G12, refused, "a point not known to be in the image, chosen options, or an element that is curved, folded or flat")
{
  struct D { int dim, w; };
  static const D list[] = {{1,1},{1,2},{2,2},{2,3},{3,3}};
  auto K = list[s.stratum(5)];
  withDim<1,3>(K.dim, [&](auto dc) { withDim<decltype(dc)::value,3>(K.w, [&](auto wc) {
    constexpr int dim = decltype(dc)::value, w = decltype(wc)::value;
    if constexpr (w-dim <= 1) {
      const auto list = shapes(dim, dim);
      bool fe = s.flag();
      int wild = s.choice(4);                     // 0 tame, 1 strongly curved, 2 folded or flat, 3 constant
      if (fe) {
        const unsigned tops[3][3] = {{0,0,0},{0,2,2},{0,6,4}};
        unsigned topo = tops[dim-1][s.choice(3)]; int order = s.range(1, dim == 3 ? 2 : 3);
        auto d = makeFE(dim, topo, order);
        Model m = genModel<ct>(s, dim, topo, w, wild != 0);
        std::vector<Dune::FieldVector<ct,w>> co;
        Vec shift(w); for (auto& v : shift) v = s.sreal(1);
        for (auto& x : d->nodes) {
          Vec y = m.global(x);
          if (wild == 1) for (auto& v : y) v += LD(0.3)*m.scale*LD(s.sreal(1));
          if (wild == 2) { for (auto& v : y) v = s.sreal(1); if (s.oneIn(3)) y[w-1] = 0; }
          if (wild == 3) y = shift;
          co.push_back(toFV<ct,w>(y));
        }
        c.desc << "finite element " << shapeName(dim, topo) << " order " << order << " in " << w << "d, coefficients ";
        for (auto& v : co) c.desc << str(toVec(v));
        Dune::LocalFiniteElementGeometry<LFE<ct,dim>,w> geo(label(s, dim, topo), LFE<ct,dim>(d), co);
        query(s, c, geo, oracle::shape(dim, topo), std::max(LD(1), m.scale), wild == 0);
      } else {
        unsigned topo = list[s.choice(list.size())].second;
        Model m = genModel<ct>(s, dim, topo, dim, wild != 0);
        LD radius = std::max(LD(1), m.scale);
        PolyData p = genPoly(s, dim, w, radius, wild == 0 ? 0 : wild == 1 ? LD(2) : LD(20), 4);
        if (wild == 0) { p.ex.clear(); for (auto& v : p.q) v.clear(); }
        if (wild == 2 && s.flag()) for (auto& v : p.B) for (auto& z : v) z = 0;          // singular at the origin
        if (wild == 3) { p.ex.clear(); for (auto& v : p.q) v.clear(); for (auto& v : p.B) for (auto& z : v) z = 0; }
        c.desc << "mapped " << shapeName(dim, topo) << " in " << w << "d, corners " << m.text() << " map " << text(p);
        Dune::MultiLinearGeometry<ct,dim,dim> base(label(s, dim, topo), m.template fv<ct,dim>());
        PolyMap<ct,dim,w> map{std::make_shared<const PolyData>(p)};
        Dune::MappedGeometry<PolyMap<ct,dim,w>,decltype(base)> geo(map, base);
        LD sc = 0; for (auto& q : m.corners) for (LD v : evalPoly(p, q)) sc = std::max(sc, std::abs(v));
        query(s, c, geo, oracle::shape(dim, topo), std::max(LD(1), sc), wild == 0);
      }
      static const char* n[] = {"tame", "strongly curved", "folded or flat", "constant"};
      c.cls(n[wild]);
    }
  }); });
}
