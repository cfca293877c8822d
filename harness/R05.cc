// R05
#include "refcommon.hh"
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
static constexpr int MAXDIM = CT_MAX(6,4);

namespace {
template<int dim> static void lookupHistory(Source& s, Ctx& c)
{
  using RE = decltype(Dune::referenceElement<ct,dim>(GeometryType()));
  using REs = Dune::ReferenceElements<ct,dim>;
  static_assert(std::is_same_v<RE, typename REs::ReferenceElement>);
  struct Slot { RE re; unsigned id = 0; bool set = false; };
  std::vector<Slot> slots(6);
  int n = 4 + s.choice(16);
  std::set<unsigned> ids;
  for (int k = 0; k < n; ++k) {
    unsigned id = s.choice(1u << dim);
    auto& sl = slots[s.choice(slots.size())];
    int op = s.choice(11);
    c.desc << op << ":" << id << " ";
    GeometryType gt(id, dim);
    switch (op) {
      case 0 : sl = {REs::general(gt), id, true}; break;
      case 1 : sl = {REs::simplex(), Dune::GeometryTypes::simplex(dim).id(), true}; break;
      case 2 : sl = {REs::cube(), Dune::GeometryTypes::cube(dim).id(), true}; break;
      case 3 : sl = {Dune::referenceElement<ct,dim>(gt), id, true}; break;
      case 4 : sl = {Dune::referenceElement<ct>(gt, Dune::Dim<dim>()), id, true}; break;
      case 5 : sl = {Dune::referenceElement(ct(), gt, Dune::Dim<dim>()), id, true}; break;
      case 6 : {   // from an affine geometry
        Dune::FieldMatrix<ct,dim,dim> J(0); for (int i = 0; i < dim; ++i) J[i][i] = 1+i;
        Dune::AffineGeometry<ct,dim,dim> g(gt, Dune::FieldVector<ct,dim>(ct(1)), J);
        sl = {referenceElement(g), id, true}; break; }
      case 7 : {   // from a multilinear geometry
        std::vector<Dune::FieldVector<ct,dim>> cs; for (auto& v : oracle::shape(dim, id).corners) cs.push_back(toFV<ct,dim>(v));
        Dune::MultiLinearGeometry<ct,dim,dim> g(gt, cs);
        sl = {referenceElement(g), id, true}; break; }
      case 8 : {   // by iteration
        int cnt = 0;
        for (auto it = REs::begin(); it != REs::end(); ++it, ++cnt) if (it->type().id() == id) sl = {*it, id, true};
        c.equal(cnt, 1 << dim, "number of reference elements in the collection");
        c.check(sl.set && sl.id == id, "collection lacks ", gt); break; }
      case 9 : { auto& o = slots[s.choice(slots.size())]; Slot tmp = o; sl = tmp; break; }   // copy
      default : { RE empty; c.check(empty == RE(), "empty elements differ"); if (sl.set) c.check(sl.re != empty, "element equals the empty one"); sl.re = empty; sl.set = false; }
    }
    for (auto& a : slots) {
      if (!a.set) continue;
      ids.insert(a.id);
      c.check(a.re.type() == GeometryType(a.id, dim), "element for id ", a.id, " has type ", a.re.type());
      c.equal(a.re.size(dim), int(oracle::shape(dim, a.id).corners.size()), "corners of element ", a.id);
      c.check(a.re == REs::general(GeometryType(a.id, dim)) && !(a.re != REs::general(GeometryType(a.id, dim))), "element for id ", a.id, " differs from the general look-up");
      for (auto& b : slots) {
        if (!b.set) continue;
        bool same = (a.id == b.id), sameShape = (a.id >> 1) == (b.id >> 1);
        if (same) { c.check(a.re == b.re && !(a.re != b.re), "same label ", a.id, ", unequal elements"); c.equal(hash_value(a.re), hash_value(b.re), "hash of equal elements"); }
        if (!sameShape) c.check(a.re != b.re && !(a.re == b.re), "different shapes ", a.id, " ", b.id, " compare equal");
        if (a.re == b.re) c.equal(hash_value(a.re), hash_value(b.re), "hash of equal elements");
      }
      // sub-entity types looked up again
      if (dim > 0) {
        int i = s.choice(a.re.size(1));
        auto sub = Dune::referenceElement<ct,(dim > 0 ? dim-1 : 0)>(a.re.type(i, 1));
        c.equal(sub.size(dim-1), a.re.size(i, 1, dim), "corner number of sub-entity ", i);
        if (dim > 1) c.equal(sub.size(1), a.re.size(i, 1, 2), "facet number of sub-entity ", i);
      }
    }
  }
  c.nontrivial = ids.size() >= (dim >= 2 ? 2u : 1u) && n >= 6;
}
}
CT_PART(R05, lookup, "at least six look-ups/copies; two different shapes where the dimension has them")
{
  int k = s.stratum(5);
  c.desc << "dim " << k << ": ";
  withDim<0,MAXDIM>(k, [&](auto d) { lookupHistory<decltype(d)::value>(s, c); });
  c.cls("dim" + std::to_string(k));
}
