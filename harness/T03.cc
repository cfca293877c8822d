#include "typecommon.hh"

PROPERTY_PART(T03, count, "dimension >= 2")
{
  int dim = s.stratum(6);
  unsigned count = s.choice(41);
  switch (s.choice(8)) {
    case 6 : count += unsigned(1 + s.choice(15)) << s.range(6, 28); break;      // right up to a multiple of a power of two
    case 7 : count = unsigned(s.choice(uint64_t(1) << 32)); break;
  }
  if (dim <= 1) count = dim+1;
  c.desc << "dim " << dim << " count " << count;
  c.mixKey(dim); c.mixKey(count);
  int hits = 0; unsigned topo = 0;
  if (dim <= 3) for (unsigned k = 0; k < numShapes(dim); ++k) if (oracle::shape(dim, 2*k).corners.size() == count) { ++hits; topo = 2*k; }
  c.cls(hits ? "valid" : dim <= 3 ? "invalid count" : "dim>3");
  bool threw = false; GeometryType g;
  try { g = Dune::geometryTypeFromVertexCount(dim, count); } catch (Dune::Exception&) { threw = true; }
  if (hits) {
    c.check(!threw, "valid count refused");
    c.check(g == GeometryType(topo, dim), "got ", g, " expected ", GeometryType(topo, dim));
    c.check(!g.isNone(), "shapeless label");
  } else c.check(threw, "no exception, got ", g);
  c.nontrivial = dim >= 2;
}
