// F03
#include "refinecommon.hh"

CT_PART(F03, same, "dimension >= 2 and at least two intervals")
{
  int k = s.stratum(numCombos);
  withCombo(k, [&](auto combo) {
    using C = decltype(combo); constexpr int dim = C::dim;
    using Ref = Dune::StaticRefinement<C::topo, ct, C::sub, dim>;
    auto [n, byLevel, iv] = genIntervals(s, dim);
    // the same number of intervals described in another way
    Dune::RefinementIntervals iv2 = iv;
    switch (s.choice(3)) {
      case 0 : iv2 = Dune::refinementIntervals(n); break;
      case 1 : iv2 = Dune::RefinementIntervals(n); break;
      default : for (int l = 0; l < 20; ++l) if ((1 << l) == n) iv2 = Dune::refinementLevels(l);
    }
    c.equal(iv2.intervals(), n, "number of intervals described");
    GeometryType gt = label(s, dim, C::topo), st = label(s, dim, C::sub);
    auto& virt = Dune::buildRefinement<dim,ct>(gt, st);
    c.check(&virt == &Dune::buildRefinement<dim,ct>(GeometryType(C::topo^1u, dim), GeometryType(C::sub^1u, dim))
            || virt.nElements(iv) == Dune::buildRefinement<dim,ct>(GeometryType(C::topo^1u, dim), GeometryType(C::sub^1u, dim)).nElements(iv), "refinement depends on the label");
    c.desc << shapeName(dim, C::topo) << "/" << gt.id() << " into " << shapeName(dim, C::sub) << "/" << st.id() << " intervals " << n << " " << ctName<ct>();
    c.equal(virt.nVertices(iv), Ref::nVertices(iv2), "number of vertices");
    c.equal(virt.nElements(iv), Ref::nElements(iv2), "number of elements");
    int count = 0;
    {
      auto a = virt.vBegin(iv), ae = virt.vEnd(iv); auto b = Ref::vBegin(iv2), be = Ref::vEnd(iv2);
      for (; b != be; ++a, ++b, ++count) {
        c.check(a != ae, "run-time vertex iteration ends early at ", count);
        c.equal(a.index(), b.index(), "vertex index");
        c.check(sameSet({toVec(a.coords())}, {toVec(b.coords())}, 32*dim*eps<ct>()), "vertex coordinates ", str(toVec(a.coords())), " against ", str(toVec(b.coords())));
      }
      c.check(a == ae, "run-time vertex iteration is longer");
    }
    {
      auto a = virt.eBegin(iv), ae = virt.eEnd(iv); auto b = Ref::eBegin(iv2), be = Ref::eEnd(iv2);
      for (; b != be; ++a, ++b) {
        c.check(a != ae, "run-time element iteration ends early");
        c.equal(a.index(), b.index(), "element index");
        c.check(sameSet({toVec(a.coords())}, {toVec(b.coords())}, 32*dim*eps<ct>()), "element coordinates ", str(toVec(a.coords())), " against ", str(toVec(b.coords())));
        auto va = a.vertexIndices(); auto vb = b.vertexIndices();
        c.equal(va.size(), size_t(vb.size()), "number of vertex indices");
        for (size_t i = 0; i < va.size(); ++i) c.equal(va[i], vb[i], "vertex index ", i, " of element ", b.index());
      }
      c.check(a == ae, "run-time element iteration is longer");
    }
    c.nontrivial = dim >= 2 && n >= 2;
    c.cls(shapeName(dim, C::topo) + " into " + shapeName(dim, C::sub));
    c.mixKey(k); c.mixKey(n); c.mixKey(gt.id()); c.mixKey(st.id());
  });
}

// every pair of labels is either served with that shape or refused
CT_PART(F03, pairs, "the pair is of different shapes")
{
  const int d = 1 + s.stratum(4);
  withDim<1,4>(d, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    unsigned t = s.choice(1u << dim), q = s.choice(1u << dim);
    GeometryType gt(t, dim), st(q, dim);
    const unsigned a = t >> 1, b = q >> 1, cubeBits = (1u << (dim-1)) - 1;
    bool supported = dim == 1 || (a == 0 && b == 0) || (a == cubeBits && (b == cubeBits || b == 0)) || (dim == 3 && (a == 1 || a == 2) && b == 0);
    c.desc << shapeName(dim, t) << "/" << t << " into " << shapeName(dim, q) << "/" << q << " " << ctName<ct>();
    int n = s.range(1, 4);
    bool refused = false; long count = -1; int corners = 0;
    try {
      auto& r = Dune::buildRefinement<dim,ct>(gt, st);
      count = r.nElements(Dune::refinementIntervals(n));
      corners = r.eBegin(Dune::refinementIntervals(n)).vertexIndices().size();
    } catch (const Dune::NotImplemented&) { refused = true; }
    c.equal(refused, !supported, "unsupported combination refused");
    if (supported) { c.equal(count, modelElements(dim, t & ~1u, q & ~1u, n), "number of elements"); c.equal(corners, int(oracle::shape(dim, q).corners.size()), "number of corners"); }
    c.nontrivial = a != b;
    c.cls(refused ? "refused" : "served");
    c.mixKey(dim); c.mixKey(t); c.mixKey(q); c.mixKey(n);
  });
}

CT_PART(F03, counts, "more than one interval")
{
  int l = s.range(0, 20), n = s.flag() ? s.range(1, 1000000) : 1 << l;
  c.desc << "levels " << l << " intervals " << n;
  c.equal(Dune::refinementLevels(l).intervals(), 1 << l, "intervals of a level count");
  c.equal(Dune::refinementIntervals(n).intervals(), n, "intervals of an interval count");
  c.equal(Dune::RefinementIntervals(n).intervals(), n, "intervals of a constructed count");
  Dune::RefinementIntervals copy = Dune::refinementIntervals(n);
  Dune::RefinementIntervals other(1); other = copy;
  c.equal(other.intervals(), n, "intervals of a copy");
  c.nontrivial = n > 1;
  c.mixKey(l); c.mixKey(n);
}
