// R02
#include "refcommon.hh"
#ifdef VT_SEVEN
static constexpr int MINDIM = 7, MAXDIM = 7;
CT_PART(R02, seven, "one sub-entity of a seven-dimensional shape with a generated local point")
#else
static constexpr int MINDIM = 0, MAXDIM = CT_MAX(6,4);
CT_PART(R02, positions, "dimension >= 1; one sub-entity with a generated local point")
#endif
{
#ifdef VT_SEVEN
  static const auto& all = shapes(MINDIM, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int k_dim = kd; const unsigned k_topo = kt;
  bool complete = true; int k_codim = s.choice(k_dim+1); int k_i = s.choice(oracle::shape(k_dim, k_topo).faces[k_codim].size());
#else
  // every sub-entity of every shape
  struct Item { int dim; unsigned topo; int codim, i; };
  static const std::vector<Item> all = [] {
    std::vector<Item> v;
    for (auto [d, t] : shapes(MINDIM, MAXDIM)) { const auto& m = oracle::shape(d, t); for (int cd = 0; cd <= d; ++cd) for (int i = 0; i < int(m.faces[cd].size()); ++i) v.push_back({d, t, cd, i}); }
    return v; }();
  const Item it = all[s.stratum(all.size())];
  const int k_dim = it.dim, k_codim = it.codim, k_i = it.i; const unsigned k_topo = it.topo;
  bool complete = it.i == 0 || s.oneIn(8);
#endif
  withDim<MINDIM,MAXDIM>(k_dim, [&](auto dimc) {
    constexpr int dim = decltype(dimc)::value;
    GeometryType gt = label(s, dim, k_topo);
    c.desc << shapeName(dim, k_topo) << " code " << gt.id() << " " << ctName<ct>();
    auto re = Dune::referenceElement<ct,dim>(gt);
    const auto& m = oracle::shape(dim, k_topo);
    const LD e = eps<ct>();
    c.near(re.volume(), m.volume, 4*e*m.volume, "volume");
    if (complete) for (int cd = 0; cd <= dim; ++cd)
      for (size_t i = 0; i < m.faces[cd].size(); ++i) {
        auto p = re.position(i, cd);
        for (int x = 0; x < dim; ++x) {
          LD mean = 0; for (int v : m.faces[cd][i].verts) mean += m.corners[v][x];
          mean /= m.faces[cd][i].verts.size();
          c.near(p[x], mean, cd == dim ? 0 : 8*e, "position(", i, ",", cd, ")[", x, "]");
        }
        c.check(re.checkInside(p), "position(", i, ",", cd, ") reported outside");
      }
    // one sub-entity and generated point
    const int cd = k_codim, i = k_i;
    const auto& f = m.faces[cd][i];
    const auto& fm = oracle::shape(f.dim, f.topo);
    Vec x = insidePoint(s, fm);
    if (s.oneIn(3)) for (auto& xi : x) xi += s.sreal(2);       // the embedding is affine: also outside
    c.desc << " sub-entity (" << i << "," << cd << ") local " << str(x);
    withDim<0,dim>(cd, [&](auto cdc) {
      constexpr int codim = decltype(cdc)::value;
      auto g = re.template geometry<codim>(i);
      c.check(g.type() == faceType(f), "geometry type ", g.type());
      c.equal(int(g.corners()), int(f.verts.size()), "geometry corners");
      for (size_t v = 0; v < f.verts.size(); ++v) {
        auto q = g.corner(v);
        for (int y = 0; y < dim; ++y) c.near(q[y], m.corners[f.verts[v]][y], 8*e, "corner ", v, " of embedding");
        auto q2 = g.global(toFV<ct,dim-codim>(fm.corners[v]));
        for (int y = 0; y < dim; ++y) c.near(q2[y], m.corners[f.verts[v]][y], 8*e, "image of corner ", v);
      }
      // affine map from model corners: origin + sum of edges, via barycentric interpolation
      std::vector<Vec> cs; for (int v : f.verts) cs.push_back(m.corners[v]);
      Vec o(dim, 0); Mat J(dim, Vec(f.dim, 0));
      for (int y = 0; y < dim; ++y) o[y] = cs[0][y];
      // reference corner e_j of the sub-entity
      for (int j = 0; j < f.dim; ++j)
        for (size_t v = 0; v < fm.corners.size(); ++v) {
          bool unit = true; for (int z = 0; z < f.dim; ++z) unit &= fm.corners[v][z] == (z == j ? 1 : 0);
          if (unit) for (int y = 0; y < dim; ++y) J[y][j] = cs[v][y] - o[y];
        }
      auto xl = toFV<ct,dim-codim>(x);
      auto q = g.global(xl);
      LD scale = 1 + oracle::norm(x);
      for (int y = 0; y < dim; ++y) {
        LD w = o[y]; for (int j = 0; j < f.dim; ++j) w += J[y][j]*LD(xl[j]);
        c.near(q[y], w, 32*e*scale, "embedding global");
      }
      auto Jg = toMat(g.jacobian(xl), dim, f.dim);
      for (int y = 0; y < dim; ++y) for (int j = 0; j < f.dim; ++j) c.near(Jg[y][j], J[y][j], 16*e, "embedding jacobian");
      LD mu = oracle::gramDet(J, f.dim);
      c.near(g.integrationElement(xl), mu, 64*e*mu, "embedding integration element");
      c.near(g.volume(), mu*fm.volume, 64*e*mu*fm.volume, "embedding volume");
      auto back = g.local(q);
      for (int j = 0; j < f.dim; ++j) c.near(back[j], xl[j], 256*e*scale, "embedding local(global)");
      auto ctr = g.center(); for (int y = 0; y < dim; ++y) c.near(ctr[y], re.position(i, codim)[y], 16*e, "embedding centre");
      c.check(g.affine(), "embedding not affine");
      // the same embedding again: tables are not disturbed
      auto g2 = Dune::referenceElement<ct,dim>(gt).template geometry<codim>(i);
      c.check(g2.global(xl) == q, "second look-up of the embedding differs");
    });
    c.cls("dim" + std::to_string(dim) + " codim" + std::to_string(cd));
    c.nontrivial = dim >= 1;
  });
}

