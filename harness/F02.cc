// F02
#include "refinecommon.hh"

// corners of every sub-element
template<class C, class CT> std::vector<std::vector<Vec>> cells(Dune::RefinementIntervals iv)
{
  using Ref = Dune::StaticRefinement<C::topo, CT, C::sub, C::dim>;
  std::vector<std::vector<Vec>> r;
  auto end = Ref::eEnd(iv);
  for (auto it = Ref::eBegin(iv); it != end; ++it) {
    auto g = it.geometry();
    std::vector<Vec> cs; for (int i = 0; i < int(g.corners()); ++i) cs.push_back(toVec(g.corner(i)));
    r.push_back(cs);
  }
  return r;
}

CT_PART(F02, partition, "dimension >= 2 and at least two intervals")
{
  int k = s.stratum(numCombos);
  withCombo(k, [&](auto combo) {
    using C = decltype(combo); constexpr int dim = C::dim;
    auto [n, byLevel, iv] = genIntervals(s, dim);
    const auto& m = oracle::shape(dim, C::topo & ~1u);
    const auto& sub = oracle::shape(dim, C::sub & ~1u);
    const bool cube = dim > 1 && (C::sub >> 1) != 0;
    c.desc << shapeName(dim, C::topo) << " into " << shapeName(dim, C::sub) << " intervals " << n << " " << ctName<ct>();
    static std::map<int, std::vector<std::vector<Vec>>> cache;
    if (!cache.count(n) && cache.size() > 6) cache.clear();
    auto& all = cache[n];
    bool fresh = all.empty();
    if (fresh) all = cells<C,ct>(iv);
    const LD tol = 64*dim*eps<ct>();
    // quantised coordinates for comparing corners of different cells
    auto key = [&](const Vec& x) { std::vector<long> q; for (LD t : x) q.push_back(std::lround(double(t*n*64))); return q; };
    std::vector<Mat> inv; LD total = 0, want = m.volume/all.size();
    std::map<std::vector<std::vector<long>>, std::vector<int>> facets;
    for (size_t e = 0; e < all.size(); ++e) {
      auto& cs = all[e];
      Mat J(dim, Vec(dim));
      for (int j = 0; j < dim; ++j) for (int i = 0; i < dim; ++i) J[i][j] = cs[cube ? (1 << j) : j+1][i] - cs[0][i];
      for (size_t i = 0; i < cs.size(); ++i) {
        Vec x = cs[0]; for (int a = 0; a < dim; ++a) for (int b = 0; b < dim; ++b) x[a] += J[a][b]*sub.corners[i][b];
        c.check(sameSet({x}, {cs[i]}, tol), "sub-element ", e, " is not affine at corner ", i);
        c.check(oracle::hullDistance(m, cs[i]) <= tol, "corner ", i, " of sub-element ", e, " outside");
      }
      LD vol = std::abs(oracle::det(J))*sub.volume;
      c.near(vol, want, 64*dim*eps<ct>()*n*want*4, "volume of sub-element ", e);
      total += vol;
      inv.push_back(oracle::inverse(J));
      for (auto& f : sub.faces[1]) {
        std::vector<std::vector<long>> q; for (int v : f.verts) q.push_back(key(cs[v]));
        std::sort(q.begin(), q.end());
        facets[q].push_back(e);
      }
    }
    c.near(total, m.volume, 256*dim*eps<ct>()*n*m.volume, "sum of the volumes");
    c.nontrivial = dim >= 2 && n >= 2;
    // generic points lie in exactly one sub-element
    int pts = 1 + s.choice(8);
    for (int r = 0; r < pts; ++r) {
      Vec x = insidePoint(s, m, 1e-3L);
      int in = 0, close = 0;
      for (size_t e = 0; e < all.size(); ++e) {
        Vec l(dim, 0); for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) l[i] += inv[e][i][j]*(x[j]-all[e][0][j]);
        LD h = oracle::hullDistance(sub, l);
        if (h < -1e-4L) ++in; else if (h < 1e-4L) ++close;
      }
      if (close) { c.check(in <= 1, "point ", str(x), " inside ", in, " sub-elements"); c.cls("point on an interface"); }
      else { c.equal(in, 1, "number of sub-elements containing ", str(x)); c.cls("generic point"); }
    }
    // shared facets; last, so that a known finding here hides nothing else
    for (auto& [q, es] : facets) {
      c.check(es.size() <= 2, "a facet belongs to ", es.size(), " sub-elements");
      if (es.size() == 1) {
        bool boundary = false;
        for (auto& p : m.planes) {
          bool on = true;
          for (auto& x : q) { LD v = -p.b; for (int i = 0; i < dim; ++i) v += p.n[i]*LD(x[i])/(64.0L*n); if (std::abs(v) > 0.25L/n) on = false; }
          boundary = boundary || on;
        }
        c.check(boundary, shapeName(dim, C::topo), " into ", shapeName(dim, C::sub), n == 1 ? " unrefined" : " refined", ": an inner facet of sub-element ", es[0], " has no neighbour");
      }
    }
    c.cls("conforming");
    c.cls(shapeName(dim, C::topo) + " into " + shapeName(dim, C::sub));
  });
}
