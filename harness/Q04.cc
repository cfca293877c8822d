// Q04
#include "quadcommon.hh"
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/refinement.hh>
static constexpr int MAXDIM = CT_MAX(4,3);

CT_PART(Q04, composite, "at least two sub-elements and a base rule of order >= 1")
{
  const int d = 1 + s.stratum(MAXDIM);
  withDim<1,MAXDIM>(d, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    constexpr unsigned sid = Dune::GeometryTypes::simplex(dim).id();
    using Ref = Dune::StaticRefinement<sid, ct, sid, dim>;
    int q = s.choice(7);
    if (famAlpha(q) && dim > 1) q = 0;
    static const int maxN[] = {0, 40, 9, 5, 3};
    int n; bool byLevel = s.flag();
    int level = 0;
    if (byLevel) { level = s.range(0, dim == 1 ? 5 : dim == 2 ? 3 : dim == 3 ? 2 : 1); n = 1 << level; } else n = s.range(1, maxN[dim]);
    Dune::RefinementIntervals iv = byLevel ? Dune::refinementLevels(level) : Dune::refinementIntervals(n);
    int order = s.range(0, std::min(dim == 4 ? 5 : dim == 3 ? 8 : 16, advertised<dim>(Dune::GeometryTypes::simplex(dim), q)));
    const auto& base = Dune::QuadratureRules<ct,dim>::rule(Dune::GeometryTypes::simplex(dim), order, fam(q));
    Dune::CompositeQuadratureRule<ct,dim> comp(base, iv);
    c.desc << "simplex " << dim << " " << famName(q) << " order " << order << (byLevel ? " levels " : " intervals ") << (byLevel ? level : n) << " " << ctName<ct>();
    int sub = 1; for (int i = 0; i < dim; ++i) sub *= n;
    c.equal(comp.size(), size_t(sub)*base.size(), "number of points");
    c.check(comp.type() == base.type(), "type ", comp.type());
    c.equal(comp.order(), base.order(), "order");
    const auto& m = oracle::shape(dim, 0);
    const LD qe = quadEps();
    LD sum = 0, ab = 0, bsum = 0;
    for (auto& qp : base) bsum += qp.weight();
    for (auto& qp : comp) {
      Vec x = toVec(qp.position());
      c.check(oracle::hullDistance(m, x) <= 64*dim*eps<ct>(), "point ", str(x), " outside");
      sum += qp.weight(); ab += std::abs(LD(qp.weight()));
    }
    c.near(sum, bsum, 4*qe*ab, "sum of weights");
    // expected: the base rule mapped to each sub-element
    std::vector<std::pair<Vec,LD>> want, got;
    std::vector<std::vector<Vec>> subs;
    auto end = Ref::eEnd(iv);
    for (auto it = Ref::eBegin(iv); it != end; ++it) {
      auto g = it.geometry();
      std::vector<Vec> cs; for (int i = 0; i <= dim; ++i) cs.push_back(toVec(g.corner(i)));
      subs.push_back(cs);
      for (auto& qp : base) {
        Vec x = cs[0]; for (int j = 0; j < dim; ++j) for (int i = 0; i < dim; ++i) x[i] += LD(qp.position()[j])*(cs[j+1][i]-cs[0][i]);
        want.push_back({x, LD(qp.weight())/sub});
      }
    }
    for (auto& qp : comp) got.push_back({toVec(qp.position()), qp.weight()});
    c.equal(want.size(), got.size(), "number of mapped points");
    // match greedily: points on a fine grid
    const LD tol = 64*eps<ct>();
    std::multimap<LD, size_t> byX; for (size_t i = 0; i < want.size(); ++i) byX.insert({want[i].first[0], i});
    LD wscale = 0; for (auto& qp : base) wscale = std::max(wscale, std::abs(LD(qp.weight()))/sub);
    for (auto& g : got) {
      bool ok = false;
      for (auto p = byX.lower_bound(g.first[0]-tol); p != byX.end() && p->first <= g.first[0]+tol; ++p) {
        auto& w = want[p->second];
        bool close = std::abs(w.second-g.second) <= 64*eps<ct>()*wscale;
        for (int i = 0; i < dim && close; ++i) close = std::abs(w.first[i]-g.first[i]) <= tol;
        if (close) { byX.erase(p); ok = true; break; }
      }
      c.check(ok, "point ", str(g.first), " weight ", g.second, " is no mapped base point");
    }
    // sub-elements are congruent in volume and their restriction integrates exactly
    bool interior = true;
    for (auto& qp : base) interior = interior && oracle::hullDistance(m, toVec(qp.position())) < -1e-4L;
    if (famAlpha(q) == 0) {
      for (int r = 0; r < 4; ++r) {
        std::vector<int> a(dim, 0); int left = base.order(); for (int i = 0; i < dim; ++i) { a[i] = i+1 == dim && r == 0 ? left : int(s.choice(left+1)); left -= a[i]; }
        LD got2 = 0, ga = 0; for (auto& qp : comp) { LD v = LD(qp.weight())*oracle::monomial(a, toVec(qp.position())); got2 += v; ga += std::abs(v); }
        int total = 0; for (int x : a) total += x;
        LD ex = oracle::monomialIntegral(dim, 0, a);
        c.near(got2, ex, 4*qe*(total+2)*std::max(ga, ex), "integral of x^", str(a));
      }
      if (interior) {
        const auto& cs = subs[s.choice(subs.size())];
        Mat J(dim, Vec(dim)); for (int j = 0; j < dim; ++j) for (int i = 0; i < dim; ++i) J[i][j] = cs[j+1][i]-cs[0][i];
        Mat Ji = oracle::inverse(J);
        std::vector<int> a(dim, 0); int left = base.order(); for (int i = 0; i < dim; ++i) { a[i] = s.choice(left+1); left -= a[i]; }
        LD v = 0, va = 0; int cnt = 0;
        for (auto& qp : comp) {
          Vec x = toVec(qp.position()), l(dim, 0);
          for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) l[i] += Ji[i][j]*(x[j]-cs[0][j]);
          if (oracle::hullDistance(m, l) > 1e-5L) continue;
          ++cnt; LD t = LD(qp.weight())*oracle::monomial(a, l); v += t; va += std::abs(t);
        }
        c.equal(size_t(cnt), base.size(), "points in one sub-element");
        LD ex = oracle::monomialIntegral(dim, 0, a)/sub;
        int total = 0; for (int x : a) total += x;
        c.near(v, ex, 16*n*qe*(total+2)*std::max(va, ex), "integral of local x^", str(a), " over one sub-element");
        c.cls("restricted");
      }
    }
    c.cls("dim " + std::to_string(dim));
    c.nontrivial = sub >= 2 && order >= 1;
  });
}
