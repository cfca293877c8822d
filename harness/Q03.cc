// Q03
#include "quadcommon.hh"
#include <climits>
static constexpr int MAXDIM = CT_MAX(5,3);

template<class R> uint64_t fingerprint(const R& r)
{
  uint64_t h = r.size();
  auto add = [&](LD v) { double hi = double(v); double lo = double(v - hi); uint64_t a, b; std::memcpy(&a, &hi, 8); std::memcpy(&b, &lo, 8); h = mix(h ^ mix(a) ^ (mix(b) << 1)); };
  for (auto& qp : r) { for (auto& x : qp.position()) add(x); add(qp.weight()); }
  return mix(h ^ r.order()*1000003ull ^ mix(r.type().id()) ^ r.type().dim());
}

static const std::map<int, std::vector<std::pair<Dune::GeometryType::BasicType, unsigned>>>& basics()
{
  using G = Dune::GeometryType;
  static const std::map<int, std::vector<std::pair<G::BasicType, unsigned>>> m{
    {0, {{G::simplex, 0}, {G::cube, 0}}}, {1, {{G::simplex, 0}, {G::cube, 0}}}, {2, {{G::simplex, 0}, {G::cube, 2}}},
    {3, {{G::simplex, 0}, {G::cube, 6}, {G::prism, 4}, {G::pyramid, 2}}}, {4, {{G::simplex, 0}, {G::cube, 14}}}, {5, {{G::simplex, 0}, {G::cube, 30}}}};
  return m;
}

struct Seen { int dim; unsigned topo; int q, order; const void* addr; uint64_t fp; };
// everything ever returned in this process
static std::map<std::tuple<int,unsigned,int,int>, Seen>& memory() { static std::map<std::tuple<int,unsigned,int,int>, Seen> m; return m; }

CT_PART(Q03, history, "at least three requests of which one repeats an earlier one or is refused")
{
  int steps = s.range(1, s.thorough ? 60 : 24);
  std::vector<std::tuple<int,unsigned,int,int>> asked;
  bool repeated = false, refused = false;
  c.desc << ctName<ct>() << ":";
  for (int k = 0; k < steps; ++k) {
    int d; unsigned t; int q, order; bool again = !asked.empty() && s.oneIn(3);
    if (again) { auto p = asked[s.choice(asked.size())]; std::tie(d, t, q, order) = p; repeated = true; }
    else {
      d = s.choice(MAXDIM+1); t = 2*s.choice(numShapes(d)); q = s.choice(7); order = 0;
    }
    withDim<0,MAXDIM>(d, [&](auto dc) {
      constexpr int dim = decltype(dc)::value;
      using Rules = Dune::QuadratureRules<ct,dim>;
      // the two codes of a label with the bit that does not matter flipped
      GeometryType gt = label(s, dim, t);
      int mo = Rules::maxOrder(gt, fam(q));
      static const int caps[] = {60, 200, 80, 24, 10, 3};
      int kind = again ? 0 : s.choice(6);
      bool bad = false;
      if (!again) {
        if (kind == 4) { order = -1 - int(s.choice(5)) * (s.flag() ? 1 : 1000); bad = true; }
        else if (kind == 5) { static const int over[] = {1, 2, 3, 10, 64, 100, 1000, 1000000, INT_MAX}; int o = over[s.choice(9)]; bad = dim > 0; order = dim == 0 ? 60 : o == INT_MAX ? INT_MAX : mo + o; }
        else if (kind == 3) order = std::min(mo, caps[dim]) - int(s.choice(2));
        else order = s.choice(std::min(mo, caps[dim])+1);
        if (order < 0 && kind != 4) order = 0;
      }
      c.desc << " [" << shapeName(dim, t) << "/" << gt.id() << " " << famName(q) << " " << order << "]";
      if (dim == 0 && order < 0) return;                              // nothing is promised for points
      if (bad) {
        bool threw = false;
        try { Rules::rule(gt, order, fam(q)); }
        catch (const Dune::QuadratureOrderOutOfRange&) { threw = true; }
        c.check(threw, "order ", order, " outside 0..", mo, " was not refused");
        refused = true;
        c.cls(order < 0 ? "negative order" : "order above maximum");
        return;
      }
      const auto& r = Rules::rule(gt, order, fam(q));
      c.check(r.type() == gt, "returned rule is for ", r.type(), " instead of ", gt);
      c.check(r.order() >= order, "returned rule has order ", r.order(), " < ", order);
      c.check(!r.empty(), "empty rule");
      uint64_t fp = fingerprint(r);
      // the code's meaningless bit may show in the stored type only
      auto key = std::make_tuple(dim, gt.id()*2u, q, order);
      auto [pos, fresh] = memory().try_emplace(key, Seen{dim, t, q, order, &r, fp});
      if (!fresh) {
        c.check(pos->second.addr == static_cast<const void*>(&r), "repeated request returned another object");
        c.check(pos->second.fp == fp, "contents of a rule changed");
      }
      // it is a rule of the shape and family asked for, whatever was asked before
      if (fresh && dim > 0 && (famAlpha(q) == 0 || isCubeShape(dim, t))) {
        std::vector<std::vector<int>> ms{std::vector<int>(dim, 0)};
        for (int i = 0; i < dim && order >= 1; ++i) { std::vector<int> a(dim, 0); a[i] = std::min(order, 1 + int(s.choice(4))); ms.push_back(a); }
        for (auto& a : ms) {
          LD sum = 0, ab = 0; int total = 0;
          for (int x : a) total += x;
          for (auto& qp : r) { LD v = qp.weight(); for (int i = 0; i < dim; ++i) v *= ipow(qp.position()[i], a[i]); sum += v; ab += std::abs(v); }
          c.near(sum, exactIntegral(dim, t, q, a), 2*quadEps()*(total+2)*std::max(ab, LD(1e-3)), "integral of x^", str(a), " by the rule returned");
        }
        if constexpr (dim == 1) {
          bool left = false, right = false;
          for (auto& qp : r) { left |= std::abs(qp.position()[0]) < 4*eps<ct>(); right |= std::abs(1-qp.position()[0]) < 4*eps<ct>(); }
          c.check(left == (q == 4 || q == 5) && right == (q == 4 || q == 6), "end points of the rule returned for ", famName(q));
        }
      }
      // the default family is Gauss-Legendre
      if (q == 0) c.check(&Rules::rule(gt, order) == &r, "default family differs");
      for (auto& [b, bt] : basics().at(dim))
        if ((bt|1u) == (t|1u)) {
          const auto& rb = Rules::rule(b, order, fam(q));
          c.check(rb.type() == gt, "rule by basic type has type ", rb.type(), " instead of ", gt);
          c.equal(rb.size(), r.size(), "rule by basic type: size");
          c.equal(rb.order(), r.order(), "rule by basic type: order");
          for (size_t i = 0; i < r.size(); ++i) c.check(rb[i].position() == r[i].position() && rb[i].weight() == r[i].weight(), "rule by basic type: point ", i);
          c.cls("by basic type");
        }
      // basic types that name no shape of this dimension
      using G = Dune::GeometryType;
      for (auto b : {G::pyramid, G::prism, G::extended, G::none})
        if (dim != 3 || (b != G::pyramid && b != G::prism)) {
          bool threw = false;
          try { Rules::rule(b, order, fam(q)); } catch (const Dune::Exception&) { threw = true; }
          c.check(threw, "basic type ", int(b), " accepted in dimension ", dim);
        }
      if (!again) asked.push_back({d, t, q, order});
      c.cls(again ? "repeated" : kind == 3 ? "near maximum" : "plain");
    });
  }
  // everything returned so far still has its contents
  for (auto& p : asked) {
    auto [d, t, q, order] = p;
    int dd = d; unsigned tt = t; int qq = q, oo = order;
    withDim<0,MAXDIM>(dd, [&](auto dc) {
      constexpr int dim = decltype(dc)::value;
      for (unsigned bit = 0; bit < (dim ? 2u : 1u); ++bit) {
        GeometryType gt(tt|bit, dim);
        auto it = memory().find(std::make_tuple(dim, gt.id()*2u, qq, oo));
        if (it == memory().end()) continue;
        const auto& r = *static_cast<const Dune::QuadratureRule<ct,dim>*>(it->second.addr);
        c.check(fingerprint(r) == it->second.fp, "contents of an earlier rule changed: ", shapeName(dim, tt), " ", famName(qq), " order ", oo);
      }
    });
  }
  c.nontrivial = steps >= 3 && (repeated || refused);
}

// every order up to the advertised maximum is served, in any order of asking
CT_PART(Q03, served, "the maximum order of a shape of dimension >= 1 is requested")
{
  static const auto& all = shapes(0, MAXDIM);
  static const int n = all.size();
  int k = s.stratum(n*7);
  auto [kd, kt] = all[k%n];
  const int d = kd; const unsigned t = kt; const int q = k/n;
  withDim<0,MAXDIM>(d, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    using Rules = Dune::QuadratureRules<ct,dim>;
    GeometryType gt = label(s, dim, t);
    int mo = Rules::maxOrder(gt, fam(q));
    c.desc << shapeName(dim, t) << " " << famName(q) << " maximum " << mo;
    if (dim > 0) c.check(mo >= 1, "advertised maximum ", mo);
    else { mo = std::min(mo, 60); }
    if constexpr (dim >= 2) {
      // a product is available wherever both of its factors are
      int base = Dune::QuadratureRules<ct,dim-1>::maxOrder(GeometryType(t & ((1u << (dim-1))-1), dim-1), fam(q));
      int line = Dune::QuadratureRules<ct,1>::maxOrder(GeometryType(0u, 1), fam(q));
      int both = std::min(base, line);
      if (oracle::prismStep(t, dim)) c.check(mo >= both, "advertised maximum ", mo, " although base and line have ", both);
    }
    // all orders where that is affordable, from a random one upward or downward, and some higher ones
    static const int allq[] = {60, 127, 127, 31, 8, 3}, allt[] = {60, 127, 127, 64, 16, 6}, mostq[] = {60, 127, 127, 64, 16, 8}, mostt[] = {60, 127, 127, 127, 30, 12};
    const int lim = std::min(mo, s.thorough ? allt[dim] : allq[dim]), most = std::min(mo, s.thorough ? mostt[dim] : mostq[dim]);
    std::vector<int> orders;
    int start = s.choice(lim+1); bool down = s.flag();
    for (int i = 0; i <= lim; ++i) orders.push_back(down ? (start + lim+1 - i) % (lim+1) : (start + i) % (lim+1));
    for (int i = 0; i < 2; ++i) orders.push_back(s.choice(most+1));
    if (mo <= most) orders.push_back(mo);
    for (int o : orders) {
      const Dune::QuadratureRule<ct,dim>* r = nullptr;
      try { r = &Rules::rule(gt, o, fam(q)); }
      catch (const Dune::Exception& e) { c.fail("order " + std::to_string(o) + " up to the maximum was refused: " + e.what()); }
      c.check(r->order() >= o && r->type() == gt, "order or type of the rule served");
      if (o == mo && dim > 0) { c.nontrivial = true; c.cls("maximum served"); }
    }
  });
}
