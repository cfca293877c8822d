// V01
#include "bridge.hh"
#include <dune/geometry/generalvertexorder.hh>
#include <forward_list>
#include <list>
using namespace vt;
using Dune::GeometryType;

// ids of several types; values are drawn from a small set, dense ranges or extremes
template<class T> static T genId(Source& s, int style)
{
  if constexpr (std::is_same_v<T, std::string>) {
    static const char* words[] = {"", "a", "b", "aa", "ab", "B", "z", "\xff", "a\x01"};
    return style == 0 ? std::string(words[s.choice(9)]) : std::string(1 + s.choice(3), char('a' + s.choice(26)));
  } else if constexpr (std::is_floating_point_v<T>) {
    static const T v[] = {0, -1, 1, T(1e-300L), -std::numeric_limits<T>::max(), std::numeric_limits<T>::max(), T(0.5), T(-0.5), std::numeric_limits<T>::infinity()};
    return style == 0 ? v[s.choice(9)] : T(s.sreal(100));
  } else {
    using L = std::numeric_limits<T>;
    if (style == 0) { const T v[] = {0, 1, 2, T(-1), L::max(), L::min(), T(L::max()-1), T(L::min()+1), T(L::max()/2)}; return v[s.choice(9)]; }
    if (style == 1) return T(s.choice(4));
    return T(s.choice(~0ull));
  }
}
template<class T> static std::vector<T> genIds(Source& s, size_t n)
{
  int style = s.choice(3);
  std::vector<T> v;
  while (v.size() < n) {
    T x = genId<T>(s, style);
    bool dup = std::find(v.begin(), v.end(), x) != v.end();
    if (dup && style == 2 && s.choice(4)) continue;
    v.push_back(x);
  }
  if (style == 2 && s.flag()) std::sort(v.begin(), v.end());
  else if (style == 2 && s.flag()) std::sort(v.rbegin(), v.rend());
  return v;
}
template<class T> static std::vector<long> ranks(const std::vector<T>& v)
{
  std::vector<T> w(v); std::sort(w.begin(), w.end());
  std::vector<long> r; for (auto& x : v) r.push_back(std::lower_bound(w.begin(), w.end(), x) - w.begin());
  return r;
}
template<class T> static void describe(Ctx& c, const std::vector<T>& v) { c.desc << " ids"; for (auto& x : v) { if constexpr (sizeof(T) == 1) c.desc << " " << int(x); else c.desc << " " << x; } }

template<class F> static void withIds(int k, F&& f)
{
  switch (k) {
    case 0 : f(Tag<int>{}); break;
    case 1 : f(Tag<std::size_t>{}); break;
    case 2 : f(Tag<long long>{}); break;
    case 3 : f(Tag<signed char>{}); break;
    case 4 : f(Tag<unsigned short>{}); break;
    case 5 : f(Tag<double>{}); break;
    default : f(Tag<std::string>{});
  }
}

PROPERTY_PART(V01, reduce, "at least two different ids")
{
  withIds(s.stratum(7), [&](auto tag) {
    using T = typename decltype(tag)::type;
    auto v = genIds<T>(s, s.choice(20));
    describe(c, v);
    auto want = ranks(v);
    std::vector<long> out(v.size(), -7);
    Dune::reduceOrder(v.begin(), v.end(), out.begin());
    c.check(out == want, "reduced order differs");
    std::vector<int> app; Dune::reduceOrder(v.cbegin(), v.cend(), std::back_inserter(app));
    c.check(std::vector<long>(app.begin(), app.end()) == want, "reduced order by inserting differs");
    std::forward_list<T> fl(v.begin(), v.end()); std::list<unsigned> lo(v.size());
    Dune::reduceOrder(fl.begin(), fl.end(), lo.begin());
    c.check(std::vector<long>(lo.begin(), lo.end()) == want, "reduced order of a list differs");
    // reducing again changes nothing
    std::vector<long> twice(v.size()); Dune::reduceOrder(out.begin(), out.end(), twice.begin());
    c.check(twice == want, "reducing twice differs");
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) c.check((v[i] < v[j]) == (out[i] < out[j]), "order of entries ", i, " and ", j);
    c.nontrivial = std::set<long>(want.begin(), want.end()).size() >= 2;
    c.cls(std::set<long>(want.begin(), want.end()).size() == v.size() ? "distinct ids" : "repeated ids");
  });
}

static const int MAXDIM = 6;

template<int dim, class Index, class T>
static void order(Source& s, Ctx& c, unsigned topo)
{
  const auto& m = oracle::shape(dim, topo);
  GeometryType gt = label(s, dim, topo);
  auto v = genIds<T>(s, m.corners.size());
  c.desc << shapeName(dim, topo) << "/" << gt.id(); describe(c, v);
  auto want = ranks(v);
  using VO = Dune::GeneralVertexOrder<dim, Index>;
  VO made(gt, v.begin(), v.end());
  auto ids = v; for (auto& x : v) x = T{};              // the order keeps its own copy
  VO copy(made); VO vo = copy;
  c.check(vo.type() == gt, "type ", vo.type());
  c.equal(std::size_t(VO::dimension), std::size_t(dim), "dimension");
  for (int cd = 0; cd <= dim; ++cd)
    for (size_t e = 0; e < m.faces[cd].size(); ++e) {
      const auto& f = m.faces[cd][e];
      std::vector<long> local; for (int k : f.verts) local.push_back(want[k]);
      const int n = local.size();
      auto b = vo.begin(cd, e), end = vo.end(cd, e);
      c.equal(long(end - b), long(n), "number of vertices of sub-entity ", e, " codim ", cd);
      int i = 0;
      for (auto it = b; it != end; ++it, ++i) { c.check(i < n, "iteration too long"); c.equal(long(*it), local[i], "vertex ", i, " of sub-entity ", e, " codim ", cd); }
      c.equal(i, n, "length of the iteration");
      for (auto it = end; it != b; ) { --it; --i; c.equal(long(*it), local[i], "backwards: vertex ", i); }
      for (int r = 0; r < 3; ++r) {
        int p = s.choice(n), q = s.choice(n);
        auto x = b + p; auto y = b; y += q;
        c.equal(long(b[p]), local[p], "by index ", p);
        c.equal(long(*x), local[p], "by offset ", p);
        c.equal(long(x[q-p]), local[q], "by relative index");
        c.equal(long(y - x), long(q - p), "distance");
        c.check((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q), "comparison of positions ", p, " ", q);
        auto z = x; z -= p; c.check(z == b, "moving back");
        auto o = x++; c.equal(long(*o), local[p], "post increment"); c.equal(long(x - b), long(p+1), "after post increment");
        c.check(end - (n-p) == b + p, "from the end");
      }
      std::vector<Index> red(s.choice(5), Index(9));
      vo.getReduced(cd, e, red);
      std::vector<long> wr = ranks(local);
      c.check(std::vector<long>(red.begin(), red.end()) == wr, "reduced order of sub-entity ", e, " codim ", cd);
      std::vector<T> lid; for (int k : f.verts) lid.push_back(ids[k]);
      c.check(ranks(lid) == wr, "inconsistent model");
    }
  c.nontrivial = dim >= 2 && std::set<long>(want.begin(), want.end()).size() >= 2;
  c.cls("dim " + std::to_string(dim));
}

PROPERTY_PART(V01, order, "dimension >= 2 and at least two different ids")
{
  static const auto& all = shapes(0, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int d = kd; const unsigned t = kt;
  withDim<0,MAXDIM>(d, [&](auto dc) {
    constexpr int dim = decltype(dc)::value;
    switch (s.choice(5)) {
      case 0 : order<dim,std::size_t,int>(s, c, t); break;
      case 1 : order<dim,std::size_t,long long>(s, c, t); break;
      case 2 : order<dim,int,unsigned short>(s, c, t); break;
      case 3 : order<dim,unsigned char,std::size_t>(s, c, t); break;
      default : order<dim,int,std::string>(s, c, t);
    }
  });
}
