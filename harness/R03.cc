// R03
#include "refcommon.hh"
static constexpr int MAXDIM = CT_MAX(6,4);

CT_PART(R03, normals, "dimension >= 2; one generated polynomial vector field over one shape")
{
  static const auto& all = shapes(1, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int k_dim = kd; const unsigned k_topo = kt;
  withDim<1,MAXDIM>(k_dim, [&](auto dimc) {
    constexpr int dim = decltype(dimc)::value;
    GeometryType gt = label(s, dim, k_topo);
    c.desc << shapeName(dim, k_topo) << " code " << gt.id() << " " << ctName<ct>();
    auto re = Dune::referenceElement<ct,dim>(gt);
    const auto& m = oracle::shape(dim, k_topo);
    const LD e = eps<ct>();
    std::vector<Vec> N;
    for (size_t i = 0; i < m.planes.size(); ++i) {
      auto n = re.integrationOuterNormal(i);
      const auto& p = m.planes[i]; const auto& f = m.faces[1][i];
      // facet integration element from the model corners of the facet
      const auto& fm = oracle::shape(f.dim, f.topo);
      Mat J(dim, Vec(f.dim, 0));
      for (int j = 0; j < f.dim; ++j)
        for (size_t v = 0; v < fm.corners.size(); ++v) {
          bool unit = true; for (int z = 0; z < f.dim; ++z) unit &= fm.corners[v][z] == (z == j ? 1 : 0);
          if (unit) for (int y = 0; y < dim; ++y) J[y][j] = m.corners[f.verts[v]][y] - m.corners[f.verts[0]][y];
        }
      LD mu = oracle::gramDet(J, f.dim), len = oracle::norm(p.n);
      Vec nv(dim);
      for (int y = 0; y < dim; ++y) { c.near(n[y], p.n[y]/len*mu, 32*e*mu, "normal ", i, " component ", y); nv[y] = n[y]; }
      N.push_back(nv);
    }
    // divergence theorem for one generated monomial field x^alpha e_d, using the reported normals
    std::vector<int> al(dim); int d = s.choice(dim);
    int deg = 0; for (auto& a : al) { a = s.choice(4); deg += a; }
    c.desc << " field x^" << str(al) << " e_" << d;
    LD vol = 0; if (al[d] > 0) { auto be = al; --be[d]; vol = al[d]*oracle::monomialIntegral(dim, k_topo, be); }
    // facet integrals by exact polynomial expansion over the facet's reference element with an affine
    // pull-back, using tensor Gauss-Legendre points mapped to the facet (points generated by the model)
    LD sum = 0, mag = 0;
    static const LD gx[6] = {0.033765242898423986093849222753003L,0.169395306766867743169300202490047L,0.380690406958401545684749139159644L,0.619309593041598454315250860840356L,0.830604693233132256830699797509953L,0.966234757101576013906150777246997L};
    static const LD gw[6] = {0.085662246189585172520148071086366L,0.180380786524069303784916756918858L,0.233956967286345523694935171994776L,0.233956967286345523694935171994776L,0.180380786524069303784916756918858L,0.085662246189585172520148071086366L};
    if (dim <= 5 && deg + dim <= 11)
    for (size_t i = 0; i < m.planes.size(); ++i) {
      const auto& f = m.faces[1][i]; const auto& fm = oracle::shape(f.dim, f.topo);
      std::vector<int> idx(f.dim, 0); LD integ = 0;
      while (true) {
        Vec u(f.dim); LD w = 1;
        for (int z = 0; z < f.dim; ++z) { u[z] = gx[idx[z]]; w *= gw[idx[z]]; }
        // collapse to the shape: for cone steps x' = (1-t) x', weight (1-t)^(z)
        for (int z = 1; z < f.dim; ++z) if (!oracle::prismStep(f.topo, z+1)) for (int y = 0; y < z; ++y) { u[y] *= 1-u[z]; w *= 1-u[z]; }
        std::vector<Vec> cs; for (int v : f.verts) cs.push_back(m.corners[v]);
        Vec y = oracle::mapPoint(f.dim, f.topo, cs, u);
        integ += w*oracle::monomial(al, y);
        int z = 0; while (z < f.dim && ++idx[z] == 6) idx[z++] = 0;
        if (z == f.dim) break;
      }
      sum += integ*N[i][d]; mag += std::abs(integ*N[i][d]);
    }
    if (dim <= 5 && deg + dim <= 11) c.near(sum, vol, 64*e*(mag+1e-3L), "divergence theorem");
    c.cls("dim" + std::to_string(dim));
    c.nontrivial = dim >= 2;
  });
}

