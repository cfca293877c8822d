// G01
#include "geocommon.hh"
#include <dune/common/dynvector.hh>
#include <dune/geometry/multilineargeometry.hh>
static constexpr int MAXD = CT_MAX(5,3);

namespace {
template<class F> struct ArrayTraits : Dune::MultiLinearGeometryTraits<F>
{ template<int mydim, int cdim> struct CornerStorage { using Type = std::array<Dune::FieldVector<F,cdim>, (1 << mydim)>; }; };
template<class F> struct RefTraits : Dune::MultiLinearGeometryTraits<F>
{ template<int mydim, int cdim> struct CornerStorage { using Type = std::reference_wrapper<const std::vector<Dune::FieldVector<F,cdim>>>; }; };
template<class F, unsigned id> struct StaticTraits : Dune::MultiLinearGeometryTraits<F>
{ template<int dim> struct hasSingleGeometryType { static const bool v = true; static const unsigned int topologyId = id; }; };

// values only
template<class G> void checkGeometry(Ctx& c, const G& g, const Model& m, const Vec& x, GeometryType gt, const char* who)
{
  constexpr int dim = G::mydimension;
  using F = typename G::ctype;
  const LD tol = 16*eps<F>()*(m.scale + 1e-30L)*(dim+1);
  c.check(g.type() == gt, who, ": type ", g.type());
  c.equal(int(g.corners()), int(m.corners.size()), who, ": corners()");
  for (size_t i = 0; i < m.corners.size(); ++i) {
    nearVec(c, toVec(g.corner(i)), m.corners[i], 0, "corner");
    nearVec(c, toVec(g.global(toFV<F,dim>(m.shape().corners[i]))), m.corners[i], tol, "image of a reference corner");
  }
  nearVec(c, toVec(g.global(toFV<F,dim>(x))), oracle::mapPoint(m.dim, m.topo, m.corners, x), tol, who);
  nearVec(c, toVec(g.center()), oracle::mapPoint(m.dim, m.topo, m.corners, m.centre()), tol, "center");
}
}

CT_PART(G01, interpolation, "at least one corner differs from the reference corner and dimension >= 1")
{
  static const auto all = placements(MAXD);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    Model m;
    if (s.choice(3) < 2) { m = genModel<ct>(s, dim, p.topo, cdim); relocate<ct>(s, m); }
    else {   // arbitrary corners, also degenerate, of any size
      m.dim = dim; m.cdim = cdim; m.topo = p.topo; m.kind = 9;
      LD size = std::ldexp(LD(1), s.range(0, 40) - 20);
      for (size_t i = 0; i < m.shape().corners.size(); ++i) { Vec v(cdim); for (auto& z : v) z = LD(ct(size*LD(s.sreal(1)))); m.corners.push_back(v); }
      m.finish(0);
    }
    Vec x = genLocal<ct>(s, m.shape());
    GeometryType gt = label(s, dim, p.topo);
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    auto fv = m.fv<ct,cdim>();
    auto re = Dune::referenceElement<ct,dim>(gt);
    checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim>(gt, fv), m, x, gt, "from type and vector");
    checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim>(re, fv), m, x, gt, "from reference element");
    checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,RefTraits<ct>>(gt, fv), m, x, gt, "from referenced vector");
    checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,RefTraits<ct>>(gt, std::cref(fv)), m, x, gt, "from reference wrapper");
    std::array<Dune::FieldVector<ct,cdim>, (1 << dim)> arr{};
    for (size_t i = 0; i < fv.size(); ++i) arr[i] = fv[i];
    checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,ArrayTraits<ct>>(gt, arr), m, x, gt, "from array");
    if (m.kind != 9) {
      checkGeometry(c, Dune::CachedMultiLinearGeometry<ct,dim,cdim>(gt, fv), m, x, gt, "cached");
      checkGeometry(c, Dune::CachedMultiLinearGeometry<ct,dim,cdim,ArrayTraits<ct>>(re, arr), m, x, gt, "cached from array");
    }
    if constexpr (dim >= 1 && dim <= 3) {
      // compile-time topology
      if ((p.topo >> 1) == 0) {
        GeometryType s0(0u, dim);
        checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,StaticTraits<ct,0u>>(s0, fv), m, x, s0, "static simplex");
      }
      else if ((p.topo >> 1) == (1u << (dim-1)) - 1) {
        GeometryType s0((1u << dim) - 1, dim);
        checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,StaticTraits<ct,(1u << dim)-1>>(s0, fv), m, x, s0, "static cube");
      }
      if constexpr (dim == 3) {
        if ((p.topo | 1) == 5) checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,StaticTraits<ct,5u>>(GeometryType(5u,3), fv), m, x, GeometryType(5u,3), "static prism");
        if ((p.topo | 1) == 3) checkGeometry(c, Dune::MultiLinearGeometry<ct,dim,cdim,StaticTraits<ct,3u>>(GeometryType(3u,3), fv), m, x, GeometryType(3u,3), "static pyramid");
      }
    }
    // linear towards cone tips and along extrusion: values on a segment
    if constexpr (dim >= 1) {
      Dune::MultiLinearGeometry<ct,dim,cdim> g(gt, fv);
      Vec base = genLocal<ct>(s, oracle::shape(dim-1, p.topo & ((1u << (dim-1))-1)));
      LD t = LD(s.choice(65))/64;
      Vec lo = base, hi = base, mid = base;
      if (oracle::prismStep(p.topo, dim)) { lo.push_back(0); hi.push_back(1); mid.push_back(t); }
      else { lo.push_back(0); for (auto& v : hi) v = 0; hi.push_back(1); for (auto& v : mid) v = LD(ct(v*(1-t))); mid.push_back(t); }
      auto a = toVec(g.global(toFV<ct,dim>(lo))), b = toVec(g.global(toFV<ct,dim>(hi))), q = toVec(g.global(toFV<ct,dim>(mid)));
      for (int i = 0; i < cdim; ++i) c.near(q[i], (1-t)*a[i] + t*b[i], 64*eps<ct>()*(m.scale + 1e-30L)*(dim+1), "map along the last direction at ", t);
    }
    c.cls("dim" + std::to_string(dim) + " in " + std::to_string(cdim) + (m.kind == 9 ? " arbitrary" : m.affine ? " affine" : " curved"));
    c.nontrivial = dim >= 1;
  });
}

// the interpolant of shapes whose cones stand over simplices, and of affine
// placements, is a polynomial and has values outside of the element as well
CT_PART(G01, outside, "the point is not in the reference element")
{
  static const auto all = placements(MAXD);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    Model m = genModel<ct>(s, dim, p.topo, cdim);
    if (!polynomialMap(m)) { c.cls("skipped: rational map"); return; }
    // on a coarse grid, which has many points in the planes through cone tips
    Vec x(dim); for (auto& v : x) v = LD(s.range(0, 20) - 8)/4;
    GeometryType gt = label(s, dim, p.topo);
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    auto [y, J] = polynomialAt(dim, p.topo, m.corners.data(), m.affine, x);
    LD size = 1; for (LD v : x) size *= 1 + std::abs(v);
    LD tol = 256*eps<ct>()*(m.scale + 1e-30L)*size;
    auto fv = m.fv<ct,cdim>(); auto xl = toFV<ct,dim>(x);
    Dune::MultiLinearGeometry<ct,dim,cdim> g(gt, fv); Dune::CachedMultiLinearGeometry<ct,dim,cdim> cg(gt, fv);
    nearVec(c, toVec(g.global(xl)), y, tol, "value outside of the element");
    nearVec(c, toVec(cg.global(xl)), y, tol, "cached value outside of the element");
    if constexpr (dim > 0) nearMat(c, dense(g.jacobian(xl), cdim, dim), J, 4*tol, "derivative outside of the element");
    c.cls(m.affine ? "affine" : "curved");
    bool inside = true;
    { LD f = 1; for (int d = dim; d >= 1; --d) { inside &= x[d-1] >= 0 && x[d-1] <= f; if (!oracle::prismStep(p.topo, d)) f -= x[d-1]; } }
    c.nontrivial = dim >= 1 && !inside;
  });
}
