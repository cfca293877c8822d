// Q02
#include "quadcommon.hh"
static constexpr int MAXDIM = CT_MAX(5,3);

// points in every dimension
// every shape, family and order, up to a cap above dimension two
struct Item { int dim; unsigned topo; int q, order; };
static const std::vector<Item>& items(bool thorough)
{
  static std::vector<Item> v[2];
  static const int capq[] = {8, 127, 127, 64, 12, 6}, capt[] = {20, 127, 127, 127, 30, 12};
  auto& r = v[thorough];
  if (r.empty())
    for (auto [kd, kt] : shapes(0, MAXDIM)) for (int q = 0; q < 7; ++q) {
      const int d = kd; const unsigned t = kt; int top = 0;
      withDim<0,MAXDIM>(d, [&](auto dc) { constexpr int dim = decltype(dc)::value; top = std::min(dim == 0 ? 20 : advertised<dim>(GeometryType(t, d), q), thorough ? capt[dim] : capq[dim]); });
      for (int o = 0; o <= top; ++o) r.push_back({d, t, q, o});
    }
  return r;
}

CT_PART(Q02, inside, "dimension >= 2 and more than one point")
{
  const auto& all = items(s.thorough);
  const Item it = all[s.stratum(all.size())];
  const unsigned t = it.topo; const int q = it.q, order = it.order;
  withDim<0,MAXDIM>(it.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    GeometryType gt = label(s, dim, t);
    const auto& rule = Dune::QuadratureRules<ct,dim>::rule(gt, order, fam(q));
    const auto& m = oracle::shape(dim, t);
    c.desc << shapeName(dim, t) << " " << famName(q) << " order " << order << " " << ctName<ct>() << " points " << rule.size();
    c.check(rule.size() >= 1, "empty rule");
    LD sum = 0, ab = 0;
    for (const auto& qp : rule) {
      Vec x = toVec(qp.position());
      LD h = dim == 0 ? 0 : oracle::hullDistance(m, x);
      c.check(h <= 4*dim*eps<ct>(), "point ", str(x), " outside by ", h);
      c.check(std::isfinite(LD(qp.weight())), "weight not finite");
      sum += qp.weight(); ab += std::abs(LD(qp.weight()));
      // the structured binding gives the same pair
      const auto& [pos, w] = qp;
      c.check(pos == qp.position() && w == qp.weight(), "decomposition of a quadrature point differs");
    }
    if (famAlpha(q) == 0) c.near(sum, m.volume, 2*quadEps()*ab, "sum of weights");
    else if (isCubeShape(dim, t)) c.near(sum, exactIntegral(dim, t, q, std::vector<int>(dim, 0)), 2*quadEps()*ab, "sum of weights");
    c.nontrivial = dim >= 2 && rule.size() > 1;
    c.cls(std::string(famName(q)) + " dim " + std::to_string(dim));
    c.mixKey(shapeName(dim, t) + famName(q) + std::to_string(order));
  });
}

static int minimalPoints(int q, int p)
{
  switch (q) {
    case 4 : return std::max(2, (p+4)/2);        // 2n-3 >= p
    case 5 : case 6 : return p/2 + 1 + (p%2);    // 2n-2 >= p
    default : return p/2 + 1;                    // 2n-1 >= p
  }
}

CT_PART(Q02, line, "order >= 2")
{
  struct L { int q, o; };
  static const std::vector<L> all = [] { std::vector<L> v; for (int q = 0; q < 7; ++q) for (int o = 0; o <= advertised<1>(Dune::GeometryTypes::line, q); ++o) v.push_back({q, o}); return v; }();
  auto [q, o] = all[s.stratum(all.size())];
  const auto& rule = Dune::QuadratureRules<ct,1>::rule(label(s, 1, 0), o, fam(q));
  c.desc << famName(q) << " order " << o << " " << ctName<ct>();
  // Gauss-Legendre, Lobatto and Radau rules are stored to all digits of double
  const LD tol = q == 0 || q >= 4 ? 32*std::max(eps<ct>(), LD(2.220446e-16L)) : 4*quadEps();
  std::vector<std::pair<LD,LD>> pw;
  for (auto& qp : rule) pw.push_back({qp.position()[0], qp.weight()});
  std::sort(pw.begin(), pw.end());
  for (size_t i = 0; i < pw.size(); ++i) {
    c.check(pw[i].second > 0, "weight ", pw[i].second, " of point ", pw[i].first, " is not positive");
    c.check(i == 0 || pw[i].first > pw[i-1].first, "points coincide at ", pw[i].first);
    if (i) c.check(pw[i].first - pw[i-1].first > 64*eps<ct>(), "points nearly coincide at ", pw[i].first);
  }
  bool left = std::abs(pw.front().first) <= 2*eps<ct>(), right = std::abs(pw.back().first-1) <= 2*eps<ct>();   // up to rounding
  bool wantL = q == 4 || q == 5, wantR = q == 4 || q == 6;
  c.equal(left, wantL, "left end among the points");
  c.equal(right, wantR, "right end among the points");
  if (!wantL) c.check(pw.front().first > 16*eps<ct>(), "leftmost point at the end");
  if (!wantR) c.check(pw.back().first < 1 - 16*eps<ct>(), "rightmost point at the end");
  int n = pw.size();
  c.equal(n, minimalPoints(q, o), "number of points");
  // symmetric families are invariant under reflection
  if (q == 0 || q == 3 || q == 4)
    for (int i = 0; i < n; ++i) {
      c.near(pw[i].first, 1 - pw[n-1-i].first, tol, "reflected position");
      c.near(pw[i].second, pw[n-1-i].second, tol*pw[i].second + tol/n, "reflected weight");
    }
  if (q == 5) {
    const auto& other = Dune::QuadratureRules<ct,1>::rule(Dune::GeometryTypes::line, o, fam(6));
    c.equal(int(other.size()), n, "size of the mirrored rule");
    std::vector<std::pair<LD,LD>> po; for (auto& qp : other) po.push_back({1 - LD(qp.position()[0]), qp.weight()});
    std::sort(po.begin(), po.end());
    for (int i = 0; i < n; ++i) { c.near(po[i].first, pw[i].first, tol, "mirrored position"); c.near(po[i].second, pw[i].second, tol, "mirrored weight"); }
  }
  // Gauss-Legendre and the computed Jacobi rules with constant weight are the same rule
  if (q == 3 && o <= advertised<1>(Dune::GeometryTypes::line, 0)) {
    const auto& other = Dune::QuadratureRules<ct,1>::rule(Dune::GeometryTypes::line, o, fam(0));
    c.equal(int(other.size()), n, "size of the Gauss rule");
    std::vector<std::pair<LD,LD>> po; for (auto& qp : other) po.push_back({qp.position()[0], qp.weight()});
    std::sort(po.begin(), po.end());
    for (int i = 0; i < n; ++i) { c.near(po[i].first, pw[i].first, tol, "Gauss position"); c.near(po[i].second, pw[i].second, tol, "Gauss weight"); }
  }
  c.nontrivial = o >= 2;
  c.mixKey(std::string(famName(q)) + std::to_string(o));
}

#if VT_CT != 0
// the same rule in another number type is a rounding of the double rule
CT_PART(Q02, types, "dimension >= 2 or more than one point")
{
  static const auto& all = shapes(0, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int d = kd; const unsigned t = kt;
  withDim<0,MAXDIM>(d, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    static const int capq[] = {8, 127, 127, 40};
    int q = s.choice(7);
    GeometryType gt = label(s, dim, t);
    int top = std::min(dim == 0 ? 8 : advertised<dim>(gt, q), capq[dim]);
    int order = s.range(0, top);
    c.desc << shapeName(dim, t) << " " << famName(q) << " order " << order << " " << ctName<ct>();
    c.equal(Dune::QuadratureRules<double,dim>::maxOrder(gt, fam(q)), Dune::QuadratureRules<ct,dim>::maxOrder(gt, fam(q)), "advertised order");
    const auto& a = Dune::QuadratureRules<ct,dim>::rule(gt, order, fam(q));
    const auto& b = Dune::QuadratureRules<double,dim>::rule(gt, order, fam(q));
    c.equal(a.size(), b.size(), "number of points in another number type");
    c.equal(a.order(), b.order(), "order in another number type");
    // compare as multisets: sort by coarse position
    std::vector<std::pair<Vec,LD>> u, v;
    for (auto& qp : a) u.push_back({toVec(qp.position()), qp.weight()});
    for (auto& qp : b) v.push_back({toVec(qp.position()), qp.weight()});
    LD tol = 4*quadEps();
    for (size_t i = 0; i < u.size(); ++i) {
      auto close = [&](const std::pair<Vec,LD>& x, const std::pair<Vec,LD>& y) { for (int k = 0; k < dim; ++k) if (!(std::abs(x.first[k]-y.first[k]) <= tol)) return false; return std::abs(x.second-y.second) <= tol; };
      bool ok = close(u[i], v[i]);
      for (size_t j = 0; !ok && j < v.size() && u.size() < 3000; ++j) ok = close(u[i], v[j]);
      if (u.size() < 3000) c.check(ok, "point ", str(u[i].first), " weight ", u[i].second, " has no counterpart in the double rule");
    }
    c.nontrivial = dim >= 2 || a.size() > 1;
    c.mixKey(shapeName(dim, t) + famName(q) + std::to_string(order));
  });
}
#endif
