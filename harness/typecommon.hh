// model of geometry type labels
#pragma once
#include "config.h"
#include "bridge.hh"
#include <map>
#include <set>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
using namespace vt;
using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;

namespace {
// model of a label: construction steps (true = prism), first step meaningless
struct Label
{
  int dim = 0; bool none = false; uint64_t steps = 0;      // bit k: prism step to dimension k+1; bit 0 always 0
  bool operator==(const Label& o) const { return dim == o.dim && none == o.none && (none || steps == o.steps); }
  bool simplex() const { return !none && steps == 0; }
  bool cube() const { return !none && steps == allPrism(); }
  uint64_t allPrism() const { return dim <= 1 ? 0 : ((uint64_t(1) << dim) - 1) & ~uint64_t(1); }
  bool conical(int step) const { return step == 0 || !((steps >> step) & 1); }
  bool prismatic(int step) const { return step == 0 || ((steps >> step) & 1); }
  std::string name() const
  {
    if (none) return "none" + std::to_string(dim);
    std::string s = "pt"; for (int k = 0; k < dim; ++k) s += k == 0 ? "-" : ((steps >> k) & 1) ? "|" : "o"; return s;
  }
};

Label named(int k, GeometryType& g)
{
  switch (k) {
    case 0 : g = GT::vertex; return {0,false,0};
    case 1 : g = GT::line; return {1,false,0};
    case 2 : g = GT::triangle; return {2,false,0};
    case 3 : g = GT::quadrilateral; return {2,false,2};
    case 4 : g = GT::tetrahedron; return {3,false,0};
    case 5 : g = GT::pyramid; return {3,false,2};
    case 6 : g = GT::prism; return {3,false,4};
    default : g = GT::hexahedron; return {3,false,6};
  }
}

Label gen(Source& s, GeometryType& g, std::string& how)
{
  Label l;
  switch (s.choice(6)) {
    case 0 : l = named(s.choice(8), g); how = "named"; break;
    case 1 : { l.dim = s.choice(9); uint64_t code = s.choice(uint64_t(1) << l.dim); g = GeometryType(unsigned(code), unsigned(l.dim)); l.steps = code & ~uint64_t(1); how = "code"; break; }
    case 2 : { l.dim = s.choice(21); g = GT::simplex(l.dim); how = "simplex()"; break; }
    case 3 : { l.dim = s.choice(21); g = GT::cube(l.dim); l.steps = l.allPrism(); how = "cube()"; break; }
    case 4 : { l.dim = s.choice(9); l.none = true; g = GT::none(l.dim); how = "none()"; break; }
    default : { l.dim = s.choice(21); uint64_t code = s.choice(uint64_t(1) << l.dim); g = GeometryType(unsigned(code), unsigned(l.dim), false); l.steps = code & ~uint64_t(1); how = "code3"; }
  }
  if (s.choice(8) == 7) { g = GeometryType(); l = Label{0,true,0}; how = "default"; }
  int n = s.choice(5);
  for (int k = 0; k < n && l.dim < 24; ++k)
    switch (s.choice(4)) {
      case 0 : g = GT::conicalExtension(g); ++l.dim; how += "+cone"; break;
      case 1 : g = GT::prismaticExtension(g); if (l.dim > 0 && !l.none) l.steps |= uint64_t(1) << l.dim; ++l.dim; how += "+prism"; break;
      case 2 : g = GeometryType(g.toId()); how += "+id"; break;
      default : { GeometryType::Id id = g; GeometryType h = id; g = h; how += "+conv"; }
    }
  return l;
}

void checkOne(Ctx& c, const Label& l, const GeometryType& g)
{
  auto e = [&](bool got, bool want, const char* what) { c.check(got == want, what, " of ", l.name(), " is ", got); };
  c.equal(int(g.dim()), l.dim, "dim");
  e(g.isNone(), l.none, "isNone");
  if (!l.none) {
    e(g.isVertex(), l.dim == 0, "isVertex");
    e(g.isLine(), l.dim == 1, "isLine");
    c.equal(uint64_t(g.id()) >> 1, l.steps >> 1, "topology code");
  }
  e(g.isTriangle(), l.simplex() && l.dim == 2, "isTriangle");
  e(g.isQuadrilateral(), l.cube() && l.dim == 2, "isQuadrilateral");
  e(g.isTetrahedron(), l.simplex() && l.dim == 3, "isTetrahedron");
  e(g.isPyramid(), !l.none && l.dim == 3 && l.steps == 2, "isPyramid");
  e(g.isPrism(), !l.none && l.dim == 3 && l.steps == 4, "isPrism");
  e(g.isHexahedron(), l.cube() && l.dim == 3, "isHexahedron");
  e(g.isSimplex(), l.simplex(), "isSimplex");
  e(g.isCube(), l.cube(), "isCube");
  if (l.dim > 0) {
    e(g.isConical(), !l.none && l.conical(l.dim-1), "isConical");
    e(g.isPrismatic(), !l.none && l.prismatic(l.dim-1), "isPrismatic");
    for (int k = 0; k < l.dim; ++k) {
      e(g.isConical(k), !l.none && l.conical(k), "isConical(step)");
      e(g.isPrismatic(k), !l.none && l.prismatic(k), "isPrismatic(step)");
    }
  }
  // id round trip keeps everything
  GeometryType r(g.toId());
  c.check(r == g && !(r != g) && !(r < g) && !(g < r), "id round trip changes ", l.name());
  c.check(r.toId() == g.toId() && r.id() == g.id() && r.dim() == g.dim() && r.isNone() == g.isNone(), "id round trip loses information of ", l.name());
  std::ostringstream t; t << g;
  std::string kind = l.none ? "none" : l.simplex() ? "simplex" : l.cube() ? "cube" : (l.dim == 3 && l.steps == 2) ? "pyramid" : (l.dim == 3 && l.steps == 4) ? "prism" : "other";
  c.check(t.str().find(kind) != std::string::npos, "text ", t.str(), " of ", l.name());
  c.check(t.str().find(std::to_string(l.dim)) != std::string::npos, "text ", t.str(), " of ", l.name(), " lacks the dimension");
}
}

