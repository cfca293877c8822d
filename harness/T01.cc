#include "typecommon.hh"

PROPERTY_PART(T01, pool, "at least three pairwise different labels, one of dimension >= 2, in the pool")
{
  int n = 2 + s.choice(8);
  std::vector<std::pair<Label,GeometryType>> pool;
  for (int i = 0; i < n; ++i) {
    GeometryType g; std::string how; Label l = gen(s, g, how);
    c.desc << l.name() << "[" << how << "] ";
    if (!pool.empty() && s.oneIn(4)) {          // a second writing of a pool member
      l = pool[s.choice(pool.size())].first;
      if (l.none) g = GeometryType(unsigned(s.choice(uint64_t(1) << std::min(l.dim, 8))), l.dim, true);
      else g = GeometryType(unsigned(l.steps | (l.dim > 0 ? s.choice(2) : 0)), l.dim);
      c.desc << "-> again " << l.name() << " ";
    }
    pool.emplace_back(l, g);
  }
  int distinct = 0; bool high = false;
  std::set<GeometryType> set; std::map<GeometryType,int> map;
  std::map<std::string, GeometryType> texts;
  for (size_t i = 0; i < pool.size(); ++i) {
    auto& [l, g] = pool[i];
    checkOne(c, l, g);
    bool seen = false; for (size_t j = 0; j < i; ++j) seen |= pool[j].first == l;
    distinct += !seen; high |= l.dim >= 2;
    c.check(set.insert(g).second == !seen, "set insertion of ", l.name(), " disagrees with equality");
    map[g] = i;
    std::ostringstream t; t << g;
    auto it = texts.emplace(t.str(), g).first;
    // named shapes are printed by name only: text equal implies same shape, unless 'other' carries a code
    c.check(it->second == g, "same text ", t.str(), " for different labels");
    c.cls(l.none ? "none" : l.simplex() ? "simplex" : l.cube() ? "cube" : "other");
  }
  c.equal(int(set.size()), distinct, "number of distinct labels in a set");
  for (auto& [l, g] : pool)
    for (auto& [m, h] : pool) {
      bool eq = l == m;
      c.check((g == h) == eq, l.name(), " == ", m.name(), " is ", g == h);
      c.check((g != h) == !eq, l.name(), " != ", m.name(), " is ", g != h);
      c.check(int(g < h) + int(h < g) + int(eq) == 1, "order of ", l.name(), " and ", m.name(), " is not a strict total order");
      if (eq) c.check(map[g] == map[h], "map lookup of ", l.name());
      for (auto& [o, k] : pool) { if (g < h && h < k) c.check(g < k, "order not transitive for ", l.name(), " ", m.name(), " ", o.name()); }
    }
  c.nontrivial = distinct >= 3 && high;
}

