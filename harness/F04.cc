// F04
#include "refinecommon.hh"
#include <list>
#include <memory>

template<int dim, class CT> struct World
{
  using R = Dune::VirtualRefinement<dim,CT>;
  struct Answer { int index; Vec x; std::vector<int> vi; };
  struct Entry { R* ref; int n; int which; std::vector<Answer> vert, elem; };
  std::vector<Entry> entries;

  World()
  {
    auto add = [&](GeometryType a, GeometryType b, int which) {
      for (int n = 1; n <= (dim == 1 ? 17 : dim == 2 ? 9 : 6); ++n) {
        Entry e{&Dune::buildRefinement<dim,CT>(a, b), n, which, {}, {}};
        auto iv = Dune::refinementIntervals(n);
        auto ve = e.ref->vEnd(iv); auto ee = e.ref->eEnd(iv);
        for (auto it = e.ref->vBegin(iv); it != ve; ++it) e.vert.push_back({it.index(), toVec(it.coords()), {}});
        for (auto it = e.ref->eBegin(iv); it != ee; ++it) { auto vi = it.vertexIndices(); e.elem.push_back({it.index(), toVec(it.coords()), std::vector<int>(vi.begin(), vi.end())}); }
        entries.push_back(std::move(e));
      }
    };
    using namespace Dune::GeometryTypes;
    if constexpr (dim == 1) add(line, line, 0);
    else {
      add(simplex(dim), simplex(dim), 0); add(cube(dim), cube(dim), 1); add(cube(dim), simplex(dim), 2);
      if constexpr (dim == 3) { add(prism, simplex(3), 3); add(pyramid, simplex(3), 4); }
    }
  }
};

// pool of iterators of one kind together with the position they must be at
template<int dim, class CT, bool vertices>
static void program(Source& s, Ctx& c)
{
  static World<dim,CT> w;
  using R = Dune::VirtualRefinement<dim,CT>;
  using It = std::conditional_t<vertices, typename R::VertexIterator, typename R::ElementIterator>;
  struct Slot { std::unique_ptr<It> it; int entry; int pos; };
  std::vector<Slot> pool;
  auto answers = [&](int e) -> const auto& { if constexpr (vertices) return w.entries[e].vert; else return w.entries[e].elem; };
  auto fresh = [&](int e, bool end) {
    auto iv = Dune::refinementIntervals(w.entries[e].n);
    R& r = *w.entries[e].ref;
    if constexpr (vertices) return std::make_unique<It>(end ? r.vEnd(iv) : r.vBegin(iv));
    else return std::make_unique<It>(end ? r.eEnd(iv) : r.eBegin(iv));
  };
  auto query = [&](Slot& p) {
    const auto& a = answers(p.entry);
    if (p.pos >= int(a.size())) return;
    c.equal(p.it->index(), a[p.pos].index, "index at position ", p.pos);
    c.check(toVec(p.it->coords()) == a[p.pos].x, "coordinates ", str(toVec(p.it->coords())), " at position ", p.pos, " instead of ", str(a[p.pos].x));
    if constexpr (!vertices) { auto vi = p.it->vertexIndices(); c.check(std::vector<int>(vi.begin(), vi.end()) == a[p.pos].vi, "vertex indices at position ", p.pos); }
  };
  auto compare = [&](Slot& p, Slot& q) {
    if (w.entries[p.entry].which == w.entries[q.entry].which && p.entry != q.entry) return;   // other interval count: nothing promised
    bool same = p.entry == q.entry && p.pos == q.pos;
    c.equal(*p.it == *q.it, same, "equality of positions ", p.pos, " and ", q.pos, p.entry == q.entry ? "" : " of different refinements");
    c.equal(*p.it != *q.it, !same, "inequality of positions ", p.pos, " and ", q.pos);
  };
  int ops = s.range(1, s.thorough ? 80 : 40), copies = 0, assigns = 0;
  pool.push_back({fresh(0, false), 0, 0});
  c.desc << (vertices ? "vertices" : "elements") << " dim " << dim << " " << ctName<CT>() << ":";
  for (int k = 0; k < ops; ++k) {
    size_t i = s.choice(pool.size()), j = s.choice(pool.size());
    switch (s.choice(12)) {
      case 0 : case 1 : {   // advance
        int steps = 1 + (s.oneIn(4) ? s.choice(answers(pool[i].entry).size()) : s.choice(4));
        c.desc << " ++" << i << "x" << steps;
        for (int t = 0; t < steps && pool[i].pos < int(answers(pool[i].entry).size()); ++t) {
          It& r = ++*pool[i].it; ++pool[i].pos;
          c.check(&r == pool[i].it.get(), "pre-increment returns another object");
        }
        break; }
      case 2 : {            // post increment returns the old position
        if (pool[i].pos >= int(answers(pool[i].entry).size()) || pool.size() > 8) break;
        c.desc << " " << i << "++";
        Slot old{std::make_unique<It>((*pool[i].it)++), pool[i].entry, pool[i].pos};
        ++pool[i].pos; query(old); ++copies;
        pool.push_back(std::move(old));
        break; }
      case 3 :              // copy
        if (pool.size() > 8) break;
        c.desc << " copy" << i;
        pool.push_back({std::make_unique<It>(*pool[i].it), pool[i].entry, pool[i].pos}); ++copies;
        break;
      case 4 : {            // assign, possibly to itself
        c.desc << " " << i << "=" << j;
        It& r = (*pool[i].it = *pool[j].it);
        c.check(&r == pool[i].it.get(), "assignment returns another object");
        pool[i].entry = pool[j].entry; pool[i].pos = pool[j].pos; ++assigns;
        break; }
      case 5 :              // self assignment
        c.desc << " self" << i;
        { It& self = *pool[i].it; *pool[i].it = self; } ++assigns;
        break;
      case 6 : {            // new
        if (pool.size() > 8) break;
        int e = s.choice(w.entries.size()); bool end = s.flag();
        c.desc << " new" << e << (end ? "end" : "");
        pool.push_back({fresh(e, end), e, end ? int(answers(e).size()) : 0});
        break; }
      case 7 :              // destroy
        if (pool.size() > 1) { c.desc << " del" << i; pool.erase(pool.begin()+i); }
        break;
      case 8 : c.desc << " cmp" << i << "," << j; compare(pool[i], pool[j]); break;
      case 9 : c.desc << " ?" << i; query(pool[i]); break;
      case 10 : {           // swap the values
        c.desc << " swap" << i << "," << j;
        using std::swap; swap(*pool[i].it, *pool[j].it); std::swap(pool[i].entry, pool[j].entry); std::swap(pool[i].pos, pool[j].pos); ++assigns;
        break; }
      default : {           // through a container that reallocates
        c.desc << " vec" << i;
        std::vector<It> v; std::list<It> l;
        for (auto& p : pool) { v.push_back(*p.it); l.push_front(*p.it); }
        for (size_t t = 0; t < pool.size(); ++t) { Slot x{std::make_unique<It>(v[t]), pool[t].entry, pool[t].pos}; query(x); compare(x, pool[t]); }
        v.erase(v.begin());
        copies += pool.size();
      }
    }
  }
  for (size_t i = 0; i < pool.size(); ++i) { query(pool[i]); for (size_t j = 0; j < pool.size(); ++j) compare(pool[i], pool[j]); }
  // run one of them to the end
  { size_t i = s.choice(pool.size()); auto e = fresh(pool[i].entry, true); while (*pool[i].it != *e) { query(pool[i]); ++*pool[i].it; ++pool[i].pos; c.check(pool[i].pos <= int(answers(pool[i].entry).size()), "iteration does not end"); } c.equal(pool[i].pos, int(answers(pool[i].entry).size()), "length of the iteration"); }
  c.nontrivial = copies >= 1 && assigns >= 1;
  c.cls("dim " + std::to_string(dim));
}

CT_PART(F04, program, "the program copies at least once and assigns at least once")
{
  switch (s.stratum(6)) {
    case 0 : program<1,ct,true>(s, c); break;
    case 1 : program<1,ct,false>(s, c); break;
    case 2 : program<2,ct,true>(s, c); break;
    case 3 : program<2,ct,false>(s, c); break;
    case 4 : program<3,ct,true>(s, c); break;
    default : program<3,ct,false>(s, c); break;
  }
}

// compile-time iterators: copies are independent too
CT_PART(F04, static, "at least one copy is advanced")
{
  int k = s.stratum(numCombos);
  withCombo(k, [&](auto combo) {
    using C = decltype(combo); constexpr int dim = C::dim;
    using Ref = Dune::StaticRefinement<C::topo, ct, C::sub, dim>;
    int n = s.range(1, dim == 1 ? 9 : dim == 2 ? 4 : dim == 3 ? 3 : 2);
    auto iv = Dune::refinementIntervals(n);
    c.desc << shapeName(dim, C::topo) << " into " << shapeName(dim, C::sub) << " intervals " << n << " " << ctName<ct>();
    auto walk = [&](auto begin, auto end, auto total) {
      using It = std::decay_t<decltype(begin)>;
      int at = s.choice(total);
      It a(begin); for (int i = 0; i < at; ++i) ++a;
      It b(a);
      c.check(a == b && !(a != b), "a copy is not equal to its original");
      int before = a.index(); Vec x = toVec(a.coords());
      int steps = 1 + s.choice(total - at);
      for (int i = 0; i < steps; ++i) { ++b; c.check(a != b, "advanced copy equal to its original"); }
      c.equal(a.index(), before, "original changed by advancing its copy");
      c.check(toVec(a.coords()) == x, "original moved by advancing its copy");
      c.equal(b == end, at + steps == total, "end reached");
      if (at + steps < total) c.equal(b.index(), at + steps, "index of the advanced copy");
      It d(begin); for (int i = 0; i < at + steps; ++i) ++d;
      c.check(d == b, "same position reached in another way compares unequal");
      c.nontrivial = true;
    };
    if (s.flag()) walk(Ref::vBegin(iv), Ref::vEnd(iv), Ref::nVertices(iv));
    else walk(Ref::eBegin(iv), Ref::eEnd(iv), Ref::nElements(iv));
  });
}
