// G11
#include "curved.hh"
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/quadraturerules.hh>
static constexpr int MAXD = CT_MAX(4,3);

namespace {
// a corner permutation that is a symmetry of the shape
std::vector<int> symmetry(Source& s, int dim, unsigned topo)
{
  if (dim == 0) return {0};
  if ((topo >> 1) == 0) {     // simplex: any permutation
    std::vector<int> p(dim+1); for (int i = 0; i <= dim; ++i) p[i] = i;
    for (int i = dim; i > 0; --i) std::swap(p[i], p[s.choice(i+1)]);
    return p;
  }
  if ((topo >> 1) == (1u << (dim-1)) - 1) {   // cube: permute and flip the axes
    std::vector<int> ax(dim); for (int i = 0; i < dim; ++i) ax[i] = i;
    for (int i = dim-1; i > 0; --i) std::swap(ax[i], ax[s.choice(i+1)]);
    int flip = s.choice(1 << dim); std::vector<int> p(1 << dim);
    for (int k = 0; k < (1 << dim); ++k) { int q = 0; for (int i = 0; i < dim; ++i) if ((k >> i) & 1) q |= 1 << ax[i]; p[k] = q ^ flip; }
    return p;
  }
  auto b = symmetry(s, dim-1, topo & ((1u << (dim-1))-1));
  int n = b.size();
  if (oracle::prismStep(topo, dim)) {
    bool f = s.flag(); std::vector<int> p(2*n);
    for (int i = 0; i < n; ++i) { p[i] = b[i] + (f ? n : 0); p[i+n] = b[i] + (f ? 0 : n); }
    return p;
  }
  b.push_back(n); return b;
}
bool rationalMap(int dim, unsigned topo)
{ for (int d = 2; d <= dim; ++d) if (!oracle::prismStep(topo, d) && ((topo & ((1u << (d-1))-1)) >> 1)) return true; return false; }
template<class G, class P> LD integral(const G& g, const P& poly, GeometryType gt, int order)
{
  LD sum = 0;
  for (auto& qp : Dune::QuadratureRules<ct,G::mydimension>::rule(gt, order)) sum += poly(toVec(g.global(qp.position())))*LD(g.integrationElement(qp.position()))*LD(qp.weight());
  return sum;
}
}

CT_PART(G11, agreement, "at least three classes were compared")
{
  static const auto all = placements(MAXD, 1);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    if constexpr (dim >= 1) {
    const LD e = eps<ct>();
    bool cube = (p.topo >> 1) == (1u << (dim-1)) - 1, simplex = (p.topo >> 1) == 0;
    bool box = cube && s.choice(3) == 0;
    Model m;
    Dune::FieldVector<ct,cdim> lo, up; std::bitset<cdim> bits;
    if (box) {
      m.dim = dim; m.cdim = cdim; m.topo = p.topo; m.affine = true;
      std::vector<int> ax; { std::vector<int> idx(cdim); for (int i = 0; i < cdim; ++i) idx[i] = i; for (int i = 0; i < dim; ++i) { int k = s.choice(idx.size()); ax.push_back(idx[k]); idx.erase(idx.begin()+k); } std::sort(ax.begin(), ax.end()); }
      for (int a : ax) bits.set(a);
      for (int i = 0; i < cdim; ++i) { lo[i] = ct(std::round(LD(s.sreal(2))*1024)/1024); up[i] = bits[i] ? ct(lo[i] + ct(std::round(LD(s.real(0.5, 2))*1024)/1024)) : lo[i]; }
      for (auto& r : m.shape().corners) { Vec v = toVec(lo); for (int j = 0; j < dim; ++j) if (r[j] == 1) v[ax[j]] = up[ax[j]]; m.corners.push_back(v); }
      m.finish(0);
    } else m = genModel<ct>(s, dim, p.topo, cdim, true);
    GeometryType gt = label(s, dim, p.topo);
    Vec x = genLocal<ct>(s, m.shape(), m.affine ? 0 : LD(0.05));
    auto xl = toFV<ct,dim>(x);
    auto fv = m.fv<ct,cdim>();
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d, corners " << m.text() << " local " << str(x);
    Mat J = m.jacobian(x);
    Bounds b = bounds(J, dim, 4*m.scale, e);
    LD vt = 8*bounds(m.jacobian(m.centre()), dim, 4*m.scale, e).ie;

    // a polynomial in world coordinates
    std::vector<std::vector<int>> ex; Vec qc; int nt = s.range(1, 3);
    for (int t = 0; t < nt; ++t) { std::vector<int> a(cdim, 0); int deg = s.range(0, 3); for (int z = 0; z < deg; ++z) ++a[s.choice(cdim)]; ex.push_back(a); qc.push_back(s.sreal(1)); }
    auto poly = [&](const Vec& y) { LD v = 0; for (size_t t = 0; t < ex.size(); ++t) v += qc[t]*oracle::monomial(ex[t], y); return v; };
    bool exactInt = m.affine || (dim == cdim && !rationalMap(dim, p.topo));
    int order = m.affine ? 3 : std::min(3*dim + 2*dim, 20);
    LD mu = oracle::gramDet(J, dim)*2, pm = 0; for (LD q : qc) pm += std::abs(q); pm *= std::pow(1 + m.scale*1.5L, 3);
    LD it = 4000*e*pm*mu*b.kappa*b.kappa + 1e-30L;

    Dune::MultiLinearGeometry<ct,dim,cdim> ml(gt, fv);
    Answers base = probe(ml, xl); LD I0 = integral(ml, poly, gt, order);
    int classes = 1;
    auto against = [&](const auto& g, const char* who, bool volume = true) {
      Answers a = probe(g, xl);
      if (!volume) a.vol = base.vol;
      compareAnswers(c, a, base, b, vt, who);
      nearVec(c, toVec(g.local(toFV<ct,cdim>(m.global(x)))), x, 8*b.local + 16*std::sqrt(e)/minSingular(J, dim), (std::string(who) + " local").c_str());
      c.near(integral(g, poly, gt, order), I0, it, who, " integral of a polynomial");
      ++classes;
    };
    Dune::CachedMultiLinearGeometry<ct,dim,cdim> cg(gt, fv); against(cg, "cached");
    c.equal(cg.affine(), ml.affine(), "affinity of cached and uncached");
    if (m.affine) {
      Dune::FieldMatrix<ct,dim,cdim> jt; Mat S = m.simplexJacobian(); for (int j = 0; j < dim; ++j) for (int i = 0; i < cdim; ++i) jt[j][i] = ct(S[i][j]);
      Dune::AffineGeometry<ct,dim,cdim> ag(gt, fv[0], jt); against(ag, "affine");
      if (simplex) { Dune::AffineGeometry<ct,dim,cdim> ac(gt, fv); against(ac, "affine from corners"); }
    }
    if (box) {
      Dune::AxisAlignedCubeGeometry<ct,dim,cdim> bg(lo, up, bits);
      if (dim == 1 || bg.type() == gt) against(bg, "box");
      if constexpr (dim == cdim) { Dune::AxisAlignedCubeGeometry<ct,dim,cdim> b2(lo, up); if (dim == 1 || b2.type() == gt) against(b2, "box from two corners"); }
    }
    { // identity map
      auto id = std::make_shared<PolyData>(); id->in = id->out = cdim; id->b.assign(cdim, 0); id->B.assign(cdim, Vec(cdim, 0)); for (int i = 0; i < cdim; ++i) id->B[i][i] = 1; id->q.assign(cdim, Vec());
      PolyMap<ct,cdim,cdim> map{id}; Dune::MappedGeometry<PolyMap<ct,cdim,cdim>,decltype(ml)> mg(map, ml, m.affine); against(mg, "mapped by the identity", m.affine);
    }
    if (simplex || cube || (dim == 3 && p.topo == 4)) {
      auto fe = makeFE(dim, p.topo, 1); std::vector<Dune::FieldVector<ct,cdim>> co(fe->nodes.size());
      for (size_t i = 0; i < fv.size(); ++i) co[fe->cornerNode[i]] = fv[i];
      Dune::LocalFiniteElementGeometry<LFE<ct,dim>,cdim> lg(gt, LFE<ct,dim>(fe), co); against(lg, "finite element", m.affine);
      if (m.affine) c.check(lg.affine(), "finite element geometry of an affine map not affine");
    }
    // sub-entity embeddings of a reference element against the same corners
    if constexpr (cdim > dim && cdim <= MAXD) {
      const auto list = shapes(cdim, cdim); unsigned et = list[s.choice(list.size())].second;
      const auto& es = oracle::shape(cdim, et); int codim = cdim-dim; int i = s.choice(es.faces[codim].size()); const auto& f = es.faces[codim][i];
      auto eg = Dune::referenceElement<ct,cdim>(GeometryType(et, cdim)).template geometry<cdim-dim>(i);
      std::vector<Dune::FieldVector<ct,cdim>> cs; for (int v : f.verts) cs.push_back(toFV<ct,cdim>(es.corners[v]));
      Dune::MultiLinearGeometry<ct,dim,cdim> em(GeometryType(f.topo, dim), cs);
      Vec fx = genLocal<ct>(s, oracle::shape(dim, f.topo)); auto fl = toFV<ct,dim>(fx);
      compareAnswers(c, probe(eg, fl), probe(em, fl), Bounds{64*e,64*e,256*e,64*e,256*e,1}, 64*e, "embedding against its corners");
    }
    // renumbered corners
    if (exactInt) {
      auto perm = symmetry(s, dim, p.topo); auto rv = fv; for (size_t i = 0; i < fv.size(); ++i) rv[i] = fv[perm[i]];
      Dune::MultiLinearGeometry<ct,dim,cdim> rg(gt, rv); Dune::CachedMultiLinearGeometry<ct,dim,cdim> rc(gt, rv);
      c.near(integral(rg, poly, gt, order), I0, 4*it, "integral after renumbering ", str(perm)); c.near(integral(rc, poly, gt, order), I0, 4*it, "cached integral after renumbering ", str(perm));
      if (m.affine) c.near(rg.volume(), base.vol, vt, "volume after renumbering");
      // and the harness's own integral
      LD own = integrate(dim, p.topo, m.affine ? 6 : 10, [&](const Vec& z) { return poly(m.global(z))*oracle::gramDet(m.jacobian(z), dim); });
      c.near(I0, own, 4*it, "integral against the model");
      c.cls("integral checked");
    }
    c.cls(shapeName(dim, p.topo) + " in " + std::to_string(cdim));
    c.nontrivial = classes >= 3;
    }
  });
}
