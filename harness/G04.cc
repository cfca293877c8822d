// G04
#include "geocommon.hh"
#include <dune/common/dynvector.hh>
#include <dune/geometry/multilineargeometry.hh>
static constexpr int MAXD = CT_MAX(4,3);

// a pool of cached geometries under a random history of queries, copies, moves
// and assignments; every answer is compared with a fresh uncached geometry
CT_PART(G04, histories, "the history contains at least two queries and one copy, move or assignment")
{
  static const auto all = placements(MAXD);
  auto p = all[s.stratum(all.size())];
  withDims<MAXD>(p.dim, p.cdim, [&](auto dc, auto cdc) {
    constexpr int dim = decltype(dc)::value, cdim = decltype(cdc)::value;
    using Cached = Dune::CachedMultiLinearGeometry<ct,dim,cdim>;
    using Plain = Dune::MultiLinearGeometry<ct,dim,cdim>;
    struct Slot { Model m; std::optional<Cached> g; GeometryType gt; };
    std::vector<Slot> pool(3);
    c.desc << shapeName(dim, p.topo) << " in " << cdim << "d:";
    const auto list = shapes(dim, dim);
    for (auto& sl : pool) {
      unsigned topo = (&sl == &pool[0] || s.flag()) ? p.topo : list[s.choice(list.size())].second;
      if (&sl != &pool[0] && s.oneIn(3)) {
        // its neighbour stretched along one axis about the first corner: many corners stay
        sl.m = (&sl - 1)->m; topo = sl.m.topo; int i = s.choice(cdim);
        for (auto& y : sl.m.corners) y[i] = LD(ct(sl.m.corners[0][i] + 2*(y[i] - sl.m.corners[0][i])));
        sl.m.finish(0);
      }
      else { sl.m = genModel<ct>(s, dim, topo, cdim); relocate<ct>(s, sl.m); }
      sl.gt = label(s, dim, topo);
      sl.g.emplace(sl.gt, sl.m.template fv<ct,cdim>());
      c.desc << " " << shapeName(dim, topo) << " " << sl.m.text() << (sl.m.affine ? " affine;" : ";");
    }
    int queries = 0, moves = 0;
    int n = s.range(2, 14);
    for (int step = 0; step < n; ++step) {
      int i = s.choice(3), k = s.choice(3);
      int op = s.choice(12);
      Slot& a = pool[i]; Slot& b = pool[k];
      c.desc << " op" << op << "(" << i << "," << k << ")";
      if (op == 0) { Cached h(*b.g); a.g.emplace(h); a.m = b.m; a.gt = b.gt; ++moves; }
      else if (op == 1) { *a.g = *b.g; a.m = b.m; a.gt = b.gt; ++moves; }
      else if (op == 2) { Cached h(*b.g); *a.g = std::move(h); a.m = b.m; a.gt = b.gt; ++moves; }
      else if (op == 3) { Cached h(std::move(*b.g)); Model bm = b.m; GeometryType bg = b.gt; b.g.emplace(bg, bm.template fv<ct,cdim>()); a.g.emplace(std::move(h)); a.m = bm; a.gt = bg; ++moves; }
      else if (op == 4) { std::swap(*a.g, *b.g); if (i != k) { std::swap(a.m, b.m); std::swap(a.gt, b.gt); } ++moves; }
      else {
        Vec x = genLocal<ct>(s, a.m.shape(), a.m.affine ? 0 : LD(0.05));
        auto xl = toFV<ct,dim>(x);
        Plain u(a.gt, a.m.template fv<ct,cdim>());
        Mat J = a.m.jacobian(x);
        Bounds t = bounds(J, dim, a.m.scale, eps<ct>());
        auto& g = *a.g;
        ++queries;
        switch (op) {
          case 5 : c.near(g.integrationElement(xl), u.integrationElement(xl), t.ie, "integrationElement"); c.near(g.integrationElement(xl), oracle::gramDet(J, dim), t.ie, "integrationElement against the model"); break;
          case 6 : nearMat(c, dense(g.jacobianInverseTransposed(xl), cdim, dim), dense(u.jacobianInverseTransposed(xl), cdim, dim), t.inv, "jacobianInverseTransposed");
                   if (dim > 0) nearMat(c, dense(g.jacobianInverseTransposed(xl), cdim, dim), oracle::transpose(oracle::leftInverse(J)), t.inv, "jacobianInverseTransposed against the model"); break;
          case 7 : nearMat(c, dense(g.jacobianTransposed(xl), dim, cdim), dense(u.jacobianTransposed(xl), dim, cdim), t.jac, "jacobianTransposed");
                   nearMat(c, dense(g.jacobian(xl), cdim, dim), J, t.jac, "jacobian"); break;
          case 8 : c.near(g.volume(), u.volume(), 2*bounds(a.m.jacobian(a.m.centre()), dim, a.m.scale, eps<ct>()).ie, "volume"); break;
          case 9 : { auto y = u.global(xl); nearVec(c, toVec(g.local(y)), toVec(u.local(y)), 8*t.local + 256*eps<ct>(), "local");
                     nearVec(c, toVec(g.local(y)), x, 8*t.local + 256*eps<ct>(), "local against the model"); break; }
          case 10 : nearVec(c, toVec(g.global(xl)), toVec(u.global(xl)), t.value, "global"); nearVec(c, toVec(g.center()), toVec(u.center()), t.value, "center"); break;
          default : compareAnswers(c, probe(g, xl), probe(u, xl), t, 2*bounds(a.m.jacobian(a.m.centre()), dim, a.m.scale, eps<ct>()).ie, "cached against uncached");
                    c.equal(g.affine(), u.affine(), "affine"); break;
        }
      }
    }
    for (auto& sl : pool) {   // the affinity answer
      LD na = sl.m.nonAffinity();
      Plain u(sl.gt, sl.m.template fv<ct,cdim>());
      if (na <= 16*eps<ct>()*sl.m.scale) { c.check(sl.g->affine() && u.affine(), "an affine map is not reported affine"); }
      else if (na >= 0.02L) { c.check(!sl.g->affine() && !u.affine(), "a map deviating by ", na, " from affine is reported affine"); }
    }
    c.cls("dim" + std::to_string(dim) + " in " + std::to_string(cdim));
    c.nontrivial = queries >= 2 && moves >= 1;
  });
}
