// Q01
#include "quadcommon.hh"
static constexpr int MAXDIM = CT_MAX(5,3);

// orders visited per dimension: {quick, thorough}
static int cap(int dim, bool thorough)
{
  static const int q[] = {6, 127, 127, 64, 22, 10}, t[] = {20, 127, 127, 127, 30, 14};
  return thorough ? t[dim] : q[dim];
}

struct Item { int dim; unsigned topo; int q; int order; };
static const std::vector<Item>& items(bool thorough)
{
  static std::vector<Item> v[2];
  auto& r = v[thorough];
  if (r.empty())
    for (auto [d, t] : shapes(0, MAXDIM))
      for (int q = 0; q < 7; ++q) {
        if (famAlpha(q) && !isCubeShape(d, t)) continue;
        int mo = 0;
        int dd = d; unsigned tt = t;
        withDim<0,MAXDIM>(dd, [&](auto dc) { mo = advertised<decltype(dc)::value>(GeometryType(tt, dd), q); });
        if (d == 0) mo = cap(0, thorough);
        int top = std::min(mo, cap(d, thorough));
        for (int o = 0; o <= top; ++o) r.push_back({dd, tt, q, o});
      }
  return r;
}

static std::vector<int> exponents(Source& s, int dim, int deg, int style)
{
  std::vector<int> a(dim, 0);
  if (dim == 0) return a;
  if (style == 0) a[s.choice(dim)] = deg;                             // a pure power
  else if (style == 1) { for (int i = 0, left = deg; i < dim; ++i) { int k = left/(dim-i); a[i] = k; left -= k; } }
  else {
    int left = deg;
    int first = s.choice(dim);
    for (int i = 0; i < dim; ++i) { int& x = a[(first+i)%dim]; x = i+1 == dim ? left : s.choice(left+1); left -= x; }
  }
  return a;
}

CT_PART(Q01, exact, "dimension >= 1 and at least one integrated monomial has degree >= 1 equal to the rule's order")
{
  const auto& all = items(s.thorough);
  const Item it = all[s.stratum(all.size())];
  withDim<0,MAXDIM>(it.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    GeometryType gt = label(s, dim, it.topo);
    const auto& rule = Dune::QuadratureRules<ct,dim>::rule(gt, it.order, fam(it.q));
    c.desc << shapeName(dim, it.topo) << " " << famName(it.q) << " order " << it.order << " " << ctName<ct>() << " reported " << rule.order();
    c.check(rule.order() >= it.order, "rule of order ", rule.order(), " returned for requested order ", it.order);
    const int ord = rule.order();
    const bool cube = isCubeShape(dim, it.topo);
    int rounds = std::max<int>(2, std::min<int>(24, 200000/int(rule.size()+1)));
    std::set<std::vector<int>> seen;
    for (int r = 0; r < rounds; ++r) {
      // degrees at and just below the order matter most
      int deg = dim == 0 ? 0 : r < 3 ? ord : s.choice(3) == 0 ? int(s.choice(ord+1)) : std::max(0, ord - int(s.choice(3)));
      if (dim >= 4) deg = std::min(deg, 40);
      std::vector<int> a = exponents(s, dim, deg, r < 2 ? r : 2);
      if (cube && dim >= 2 && it.q != 3 && s.oneIn(3))                // separately in each coordinate
        for (auto& x : a) x = s.choice(3) ? ord - int(s.choice(std::min(ord, 2)+1)) : int(s.choice(ord+1));
      if (!seen.insert(a).second) continue;
      LD sum = 0, absum = 0;
      for (const auto& qp : rule) {
        LD v = qp.weight();
        for (int i = 0; i < dim; ++i) v *= ipow(qp.position()[i], a[i]);
        sum += v; absum += std::abs(v);
      }
      int total = 0; for (int x : a) total += x;
      LD ex = exactIntegral(dim, it.topo, it.q, a);
      c.near(sum, ex, quadEps()*(total+2)*std::max(absum, ex), "integral of x^", str(a), " by the ", famName(it.q), " rule of order ", it.order, " on ", shapeName(dim, it.topo));
      if (dim >= 1 && total >= 1 && total >= ord) c.nontrivial = true;
    }
    c.cls(std::string(famName(it.q)) + " dim " + std::to_string(dim));
    c.mixKey(std::string(shapeName(dim, it.topo)) + famName(it.q) + std::to_string(it.order));
    for (auto& a : seen) for (int x : a) c.mixKey(x);
  });
}

// Polynomials written as products of affine factors that change sign inside
// the element; the exact value comes from the expansion into monomials.
CT_PART(Q01, products, "at least two non-constant factors")
{
  const auto& all = items(false);
  static std::vector<int> idx = [] { std::vector<int> v; const auto& a = items(false); for (size_t i = 0; i < a.size(); ++i) if (a[i].dim >= 1 && a[i].dim <= 3 && a[i].order <= 16) v.push_back(i); return v; }();
  const Item it = all[idx[s.stratum(idx.size())]];
  withDim<1,3>(it.dim, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    GeometryType gt = label(s, dim, it.topo);
    const auto& rule = Dune::QuadratureRules<ct,dim>::rule(gt, it.order, fam(it.q));
    c.desc << shapeName(dim, it.topo) << " " << famName(it.q) << " order " << it.order << " " << ctName<ct>();
    int nf = std::min(rule.order(), 9);
    if (nf > 2) nf -= s.choice(3);
    using Poly = std::map<std::vector<int>, LD>;
    Poly p{{std::vector<int>(dim, 0), 1}}, pa = p;
    std::vector<Vec> fac;
    for (int k = 0; k < nf; ++k) {
      Vec f(dim+1); LD n = 0; for (auto& x : f) { x = s.sreal(1); n += std::abs(x); }
      if (n == 0) f[0] = n = 1;
      fac.push_back(f);
      c.desc << " " << str(f);
      auto step = [&](const Poly& in, bool abs) {
        Poly out;
        for (auto& [a, v] : in) {
          out[a] += v*(abs ? std::abs(f[dim]) : f[dim]);
          for (int i = 0; i < dim; ++i) { auto b = a; ++b[i]; out[b] += v*(abs ? std::abs(f[i]) : f[i]); }
        }
        return out;
      };
      p = step(p, false); pa = step(pa, true);
    }
    LD ex = 0, mass = 0;
    for (auto& [a, v] : p) ex += v*exactIntegral(dim, it.topo, it.q, a);
    for (auto& [a, v] : pa) mass += v*exactIntegral(dim, it.topo, it.q, a);
    LD sum = 0, absum = 0;
    for (const auto& qp : rule) {
      LD v = qp.weight();
      LD w = std::abs(v);
      for (auto& f : fac) { LD t = f[dim], ta = std::abs(f[dim]); for (int i = 0; i < dim; ++i) { t += f[i]*LD(qp.position()[i]); ta += std::abs(f[i])*LD(qp.position()[i]); } v *= t; w *= ta; }
      sum += v; absum += w;
    }
    c.near(sum, ex, quadEps()*(nf+2)*std::max(absum, mass), "integral of a product of ", nf, " affine factors by the ", famName(it.q), " rule of order ", it.order, " on ", shapeName(dim, it.topo));
    c.nontrivial = nf >= 2;
  });
}
