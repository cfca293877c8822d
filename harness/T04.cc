// factories over type labels: run-time dispatch to compile-time code
#include "typecommon.hh"
#include <memory>
#include <dune/geometry/topologyfactory.hh>

namespace {
template<class Key> struct Made
{
  GeometryType type; Key key; bool compileTime; static int live, total;
  Made(GeometryType t, const Key& k) : type(t), key(k) { ++live; ++total; }
  Made(const Made&) = delete;
  ~Made() { --live; }
};
template<class Key> int Made<Key>::live = 0;
template<class Key> int Made<Key>::total = 0;

template<int d, class K> struct FactoryTraits
{
  static const unsigned int dimension = d;
  typedef K Key;
  typedef const Made<K> Object;
  struct Factory
  {
    template<GeometryType::Id id> static Object* createObject(const K& key)
    {
      static constexpr GeometryType t = id;
      static_assert(t.dim() == d, "dispatched to another dimension");
      return new Made<K>(t, key);
    }
  };
};

constexpr GeometryType::Id labelId(std::size_t code, int dim) { return GeometryType(static_cast<unsigned int>(code), static_cast<unsigned int>(dim)).toId(); }

// every compile-time label of a dimension as a table of function pointers
template<class F, int d, std::size_t... i> auto staticTable(std::index_sequence<i...>)
{
  using Fn = typename F::Object* (*)(const typename F::Key&);
  return std::array<Fn, sizeof...(i)>{{ [](const typename F::Key& k) -> typename F::Object* {
    return F::template create<labelId(i, d)>(k); }... }};
}

template<class Key> Key makeKey(long nonce, int k);
template<> [[maybe_unused]] std::pair<long,int> makeKey(long nonce, int k) { return {nonce, k}; }
template<> [[maybe_unused]] std::string makeKey(long nonce, int k) { return std::string(k % 5, 'x') + std::to_string(nonce) + ":" + std::to_string(k); }

template<int d, class Key> void program(Source& s, Ctx& c)
{
  using Plain = Dune::TopologyFactory<FactoryTraits<d, Key>>;
  using Single = Dune::TopologySingletonFactory<Plain>;
  using Object = const Made<Key>;
  static const auto plain = staticTable<Plain, d>(std::make_index_sequence<(1u << d)>());
  static const auto single = staticTable<Single, d>(std::make_index_sequence<(1u << d)>());
  static long nonce = 0;
  ++nonce;
  std::map<std::pair<unsigned,int>, Object*> known;
  std::vector<std::pair<Object*, std::pair<unsigned,int>>> mine;
  int singles = 0, live0 = Made<Key>::live, total0 = Made<Key>::total, made = 0, reused = 0;
  int n = s.range(2, 24), spread = s.choice(3); spread = spread == 0 ? 1 : spread == 1 ? 3 : 8;
  std::vector<unsigned> pool(s.choice(3) == 0 ? 1u << d : s.range(1, 3));
  for (std::size_t k = 0; k < pool.size(); ++k) pool[k] = pool.size() > 3 ? unsigned(k) : s.choice(1u << d);
  for (int k = 0; k < n; ++k) {
    unsigned code = pool[s.choice(pool.size())]; int key = s.choice(spread);
    int op = s.choice(5);
    GeometryType t(code, d);
    c.desc << (op == 0 ? " new" : op == 1 ? " new<>" : op == 2 ? " single" : op == 3 ? " single<>" : " release") << "(" << code << "," << key << ")";
    Key ky = makeKey<Key>(nonce, key);
    Object* o = nullptr;
    if (op == 4) {
      if (mine.empty()) continue;
      std::size_t j = s.choice(mine.size());
      Plain::release(mine[j].first); mine.erase(mine.begin()+j);
      if (!known.empty()) Single::release(known.begin()->second);
    } else {
      if (op == 0) o = Plain::create(t, ky); else if (op == 1) o = plain[code](ky); else if (op == 2) o = Single::create(t, ky); else o = single[code](ky);
      c.check(o != nullptr, "no object");
      if (op < 2) {
        for (auto& [p, q] : mine) c.check(p != o, "a plain factory handed out an object twice");
        for (auto& [q, p] : known) c.check(p != o, "a plain factory handed out a stored object");
        mine.push_back({o, {code, key}}); ++made;
      } else {
        auto it = known.find({code, key});
        if (it != known.end()) { c.check(it->second == o, "a second request for the same label and key gave another object"); ++reused; }
        else {
          bool other = false;                      // the other code of the same label may share the object
          for (auto& [q, p] : known) if (p == o) { c.check(q == std::make_pair(code ^ 1u, key), "one object for two labels or keys"); other = true; }
          known[{code, key}] = o;
          if (!other) { ++made; ++singles; }
        }
      }
    }
    c.equal(Made<Key>::total - total0, made, "number of objects built");
    c.equal(Made<Key>::live - live0, int(mine.size()) + singles, "number of objects alive");
    for (auto& [p, q] : mine) { c.check(p->type == GeometryType(q.first, d), "object built for ", p->type, " instead of code ", q.first); c.check(p->key == makeKey<Key>(nonce, q.second), "object built with another key"); }
    for (auto& [q, p] : known) { c.check(p->type == GeometryType(q.first, d), "stored object built for ", p->type, " instead of code ", q.first); c.check(p->key == makeKey<Key>(nonce, q.second), "stored object built with another key"); }
  }
  for (auto& [p, q] : mine) Plain::release(p);
  c.equal(Made<Key>::live - live0, singles, "objects alive after releasing all");
  c.cls("dim" + std::to_string(d));
  c.nontrivial = d >= 2 && made >= 2 && reused >= 1;
}
}

PROPERTY_PART(T04, program, "dimension >= 2, at least two objects built and one stored object asked for again")
{
  int dim = s.stratum(6); bool text = s.flag();
  c.desc << "dim " << dim << (text ? " text keys" : " pair keys");
  withDim<0,5>(dim, [&](auto d) { if (text) program<decltype(d)::value, std::string>(s, c); else program<decltype(d)::value, std::pair<long,int>>(s, c); });
}
