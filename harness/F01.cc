// F01
#include "refinecommon.hh"

CT_PART(F01, iterate, "dimension >= 2 and at least two intervals")
{
  int k = s.stratum(numCombos);
  withCombo(k, [&](auto combo) {
    using C = decltype(combo); constexpr int dim = C::dim;
    using Ref = Dune::StaticRefinement<C::topo, ct, C::sub, dim>;
    auto [n, byLevel, iv] = genIntervals(s, dim);
    const auto& m = oracle::shape(dim, C::topo & ~1u);
    const auto& sub = oracle::shape(dim, C::sub & ~1u);
    c.desc << shapeName(dim, C::topo) << " into " << shapeName(dim, C::sub) << (byLevel ? " by level," : "") << " intervals " << n << " " << ctName<ct>();
    c.equal(iv.intervals(), n, "intervals");
    const LD tol = 32*dim*eps<ct>();
    // vertices
    std::vector<Vec> v;
    auto vEnd = Ref::vEnd(iv);
    for (auto it = Ref::vBegin(iv); it != vEnd; ++it) {
      c.equal(it.index(), int(v.size()), "index of a vertex");
      Vec x = toVec(it.coords());
      c.check(oracle::hullDistance(m, x) <= tol, "vertex ", v.size(), " at ", str(x), " outside the element");
      auto g = it.geometry();
      c.check(g.type().isVertex(), "type of a vertex geometry");
      c.check(sameSet({toVec(g.corner(0))}, {x}, tol), "vertex geometry at ", str(toVec(g.corner(0))), " instead of ", str(x));
      c.check(sameSet({toVec(g.center())}, {x}, tol), "centre of a vertex geometry");
      v.push_back(x);
      c.check(v.size() <= 2000000u, "iteration over vertices does not end");
    }
    c.equal(Ref::nVertices(iv), int(v.size()), "number of vertices");
    // elements
    int count = 0;
    auto eEnd = Ref::eEnd(iv);
    std::vector<char> used(v.size(), 0);
    for (auto it = Ref::eBegin(iv); it != eEnd; ++it, ++count) {
      c.equal(it.index(), count, "index of an element");
      auto vi = it.vertexIndices();
      c.equal(int(vi.size()), int(sub.corners.size()), "number of vertex indices");
      std::set<int> distinct; std::vector<Vec> byIndex;
      for (int i : vi) {
        c.check(i >= 0 && i < int(v.size()), "vertex index ", i, " of element ", count, " out of range");
        distinct.insert(i); byIndex.push_back(v[i]); used[i] = 1;
      }
      c.equal(distinct.size(), sub.corners.size(), "distinct vertex indices of element ", count);
      auto g = it.geometry();
      c.check(g.type() == GeometryType(C::sub, dim), "type of element ", count, ": ", g.type());
      std::vector<Vec> cs; Vec centre(dim, 0);
      for (int i = 0; i < int(g.corners()); ++i) { cs.push_back(toVec(g.corner(i))); for (int j = 0; j < dim; ++j) centre[j] += cs.back()[j]/g.corners(); }
      c.check(sameSet(cs, byIndex, tol), "corners ", str(cs), " of element ", count, " are not its vertices ", str(byIndex));
      // cubes keep the numbering of the reference element
      if ((C::sub >> 1) == (C::topo >> 1) && (C::sub >> 1) == (1u << (dim-1)) - 1)
        for (size_t i = 0; i < cs.size(); ++i) c.check(sameSet({cs[i]}, {byIndex[i]}, tol), "corner ", i, " of element ", count);
      // orientation of the reference element
      if constexpr (dim == 1) c.check(byIndex[1][0] > byIndex[0][0], "vertex indices of element ", count, " run backwards");
      if constexpr (dim == 2) {
        LD o = (byIndex[1][0]-byIndex[0][0])*(byIndex[2][1]-byIndex[0][1]) - (byIndex[1][1]-byIndex[0][1])*(byIndex[2][0]-byIndex[0][0]);
        c.check(o > 0, "vertex indices of element ", count, " run in the wrong direction: ", str(byIndex));
      }
      Vec x = toVec(it.coords());
      c.check(sameSet({x}, {centre}, tol), "coordinates ", str(x), " of element ", count, " are not its centre ", str(centre));
      c.check(sameSet({toVec(g.center())}, {centre}, tol), "centre of the geometry of element ", count);
      c.check(count <= 2000000, "iteration over elements does not end");
    }
    c.equal(Ref::nElements(iv), count, "number of elements");
    c.equal(long(count), modelElements(dim, C::topo, C::sub, n), "number of elements expected for the intervals");
    for (size_t i = 0; i < used.size(); ++i) c.check(used[i], "vertex ", i, " belongs to no element");
    c.nontrivial = dim >= 2 && n >= 2;
    c.cls(shapeName(dim, C::topo) + " into " + shapeName(dim, C::sub));
    c.mixKey(k); c.mixKey(n); c.mixKey(byLevel);
  });
}

#if VT_CT == 0
// refinements with more vertices and elements than fit into small integers
CT_PART(F01, many, "more than 60000 vertices or elements")
{
  int k = s.stratum(numCombos);
  withCombo(k, [&](auto combo) {
    using C = decltype(combo); constexpr int dim = C::dim;
    using Ref = Dune::StaticRefinement<C::topo, ct, C::sub, dim>;
    constexpr unsigned t = C::topo >> 1; constexpr bool cubes = dim == 1 || (C::sub >> 1) != 0;
    int lo = dim == 1 ? 65530 : dim == 2 ? (t ? 250 : 360) : dim == 3 ? (t == 0 ? 72 : t == 3 ? 41 : t == 2 ? 50 : 58) : cubes ? 16 : t ? 8 : 18;
    int n = lo + s.choice(dim == 1 ? 40000 : dim == 2 ? 40 : 2);
    auto iv = Dune::refinementIntervals(n);
    c.desc << shapeName(dim, C::topo) << " into " << shapeName(dim, C::sub) << " intervals " << n << " " << ctName<ct>();
    const LD tol = 32*dim*eps<ct>();
    std::vector<Dune::FieldVector<ct,dim>> v;
    auto vEnd = Ref::vEnd(iv);
    for (auto it = Ref::vBegin(iv); it != vEnd; ++it) {
      if (it.index() != int(v.size())) c.equal(it.index(), int(v.size()), "index of a vertex");
      v.push_back(it.coords());
      // a vertex of the grid of this many intervals
      for (int i = 0; i < dim; ++i) {
        LD x = LD(v.back()[i])*n;
        if (!(std::abs(x - std::round(x)) <= tol*n && x >= -tol*n && x <= (1+tol)*n)) c.check(false, "vertex ", v.size()-1, " at ", str(toVec(v.back())));
      }
      if (v.size() > 4000000u) c.check(false, "iteration over vertices does not end");
    }
    c.equal(long(Ref::nVertices(iv)), long(v.size()), "number of vertices");
    long count = 0;
    auto eEnd = Ref::eEnd(iv);
    for (auto it = Ref::eBegin(iv); it != eEnd; ++it, ++count) {
      if (long(it.index()) != count) c.equal(long(it.index()), count, "index of an element");
      auto vi = it.vertexIndices(); auto x = it.coords(); decltype(x) mean(0), lower(2), upper(-1);
      for (int i : vi) {
        if (!(i >= 0 && i < int(v.size()))) c.check(false, "vertex index ", i, " of element ", count, " out of range");
        mean += v[i]; for (int j = 0; j < dim; ++j) { lower[j] = std::min(lower[j], v[i][j]); upper[j] = std::max(upper[j], v[i][j]); }
      }
      mean /= vi.size();
      for (int j = 0; j < dim; ++j) {
        if (!(std::abs(mean[j]-x[j]) <= tol)) c.check(false, "coordinates ", str(toVec(x)), " of element ", count, " are not the mean ", str(toVec(mean)), " of its vertices");
        if (cubes && !((upper[j]-lower[j])*n <= 1 + tol*n)) c.check(false, "vertices of element ", count, " are too far apart");
      }
      if (count % 97 == 0 || count % 65536 < 4) {
        auto g = it.geometry(); std::vector<Vec> cs, byIndex;
        for (int i = 0; i < int(g.corners()); ++i) { cs.push_back(toVec(g.corner(i))); byIndex.push_back(toVec(v[vi[i]])); }
        c.check(sameSet(cs, byIndex, tol), "corners ", str(cs), " of element ", count, " are not its vertices ", str(byIndex));
      }
      if (count > 4000000) c.check(false, "iteration over elements does not end");
    }
    c.equal(long(Ref::nElements(iv)), count, "number of elements");
    c.equal(count, modelElements(dim, C::topo, C::sub, n), "number of elements expected for the intervals");
    c.nontrivial = v.size() > 60000 || count > 60000;
    c.cls(shapeName(dim, C::topo) + " into " + shapeName(dim, C::sub));
    c.mixKey(k); c.mixKey(n);
  });
}
#endif
