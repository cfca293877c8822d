#include "typecommon.hh"

namespace {
template<int dim> constexpr auto constLocal()
{
  constexpr std::size_t n = Dune::LocalGeometryTypeIndex::size(dim);
  std::array<std::size_t, 2*n> r{};
  for (std::size_t i = 0; i < n; ++i) {
    r[2*i] = Dune::LocalGeometryTypeIndex::index(Dune::LocalGeometryTypeIndex::type(dim, i));
    r[2*i+1] = Dune::GlobalGeometryTypeIndex::index(Dune::LocalGeometryTypeIndex::type(dim, i));
  }
  return r;
}
template<int dim> void checkConst(Ctx& c)
{
  static constexpr auto tab = constLocal<dim>();
  std::size_t rdim = std::stoi(std::to_string(dim));
  for (std::size_t i = 0; i < tab.size()/2; ++i) {
    c.equal(tab[2*i], i, "compile-time local index");
    c.equal(tab[2*i+1], Dune::GlobalGeometryTypeIndex::index(Dune::LocalGeometryTypeIndex::type(rdim, i)), "compile-time global index");
  }
}
}

PROPERTY_PART(T02, all, "dimension >= 2: the complete list of types of one dimension is numbered")
{
  using L = Dune::LocalGeometryTypeIndex; using G = Dune::GlobalGeometryTypeIndex;
  int dim = s.stratum(15);
  c.desc << "all types of dimension " << dim;
  c.mixKey(dim);
  std::size_t n = numShapes(dim);
  c.equal(L::size(dim), n+1, "number of types of dimension ", dim);
  std::vector<int> seenL(n+1, 0), seenG(n+1, 0);
  std::size_t below = 0; for (int d = 0; d < dim; ++d) below += numShapes(d) + 1;
  c.equal(G::offset(dim), below, "offset of dimension ", dim);
  c.equal(G::size(dim), below + n + 1, "global size up to dimension ", dim);
  auto visit = [&](const GeometryType& g, bool firstWriting) {
    std::size_t l = L::index(g), k = G::index(g);
    c.check(l <= n, "local index ", l, " out of range for ", g);
    c.check(k >= below && k < below+n+1, "global index ", k, " out of range for ", g);
    if (firstWriting) { c.check(!seenL[l]++, "local index ", l, " used twice"); c.check(!seenG[k-below]++, "global index ", k, " used twice"); }
    else c.check(seenL[l] == 1 && seenG[k-below] == 1, "second writing of ", g, " has another index");
    c.check(L::type(dim, l) == g, "type(index) gives ", L::type(dim, l), " for ", g);
    c.equal(int(L::type(dim, l).dim()), dim, "dimension of type(index)");
  };
  for (std::size_t k = 0; k < n; ++k) {
    GeometryType g(unsigned(2*k), dim); visit(g, true);
    if (dim > 0) { GeometryType h(unsigned(2*k+1), dim); visit(h, false); c.equal(L::index(h), L::index(g), "index of second writing"); c.equal(G::index(h), G::index(g), "global index of second writing"); }
  }
  visit(GT::none(dim), true);
  for (std::size_t i = 0; i <= n; ++i) { GeometryType g = L::type(dim, i); c.equal(L::index(g), i, "index(type(", i, "))"); c.check(g.isNone() == (g == GT::none(dim)), "shapeless flag"); }
  withDim<0,6>(dim, [&](auto d) { checkConst<decltype(d)::value>(c); });
  c.cls("dim" + std::to_string(dim));
  c.nontrivial = dim >= 2;
}

PROPERTY_PART(T02, pairs, "two different labels of dimensions >= 1")
{
  using L = Dune::LocalGeometryTypeIndex; using G = Dune::GlobalGeometryTypeIndex;
  std::vector<std::pair<Label,GeometryType>> v;
  for (int i = 0; i < 4; ++i) { GeometryType g; std::string how; auto l = gen(s, g, how); v.emplace_back(l, g); c.desc << l.name() << "[" << how << "] "; }
  for (auto& [l,g] : v) {
    c.check(L::index(g) < L::size(l.dim), "local index out of range for ", l.name());
    c.check(G::index(g) >= (l.dim ? G::size(l.dim-1) : 0) && G::index(g) < G::size(l.dim), "global index out of range for ", l.name());
    c.check(L::type(l.dim, L::index(g)) == g, "type of index of ", l.name());
    for (auto& [m,h] : v) {
      c.check((G::index(g) == G::index(h)) == (l == m), "global indices of ", l.name(), " and ", m.name());
      if (l.dim == m.dim) c.check((L::index(g) == L::index(h)) == (l == m), "local indices of ", l.name(), " and ", m.name());
      if (l.dim < m.dim) c.check(G::index(g) < G::index(h), "dimensions out of order: ", l.name(), " and ", m.name());
      if (!(l == m) && l.dim >= 1 && m.dim >= 1) c.nontrivial = true;
    }
  }
}

