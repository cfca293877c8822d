// helpers of the reference element properties
#pragma once
#include "config.h"
#include "bridge.hh"
#include "ctype.hh"
#include <dune/geometry/dimension.hh>
#include <dune/geometry/referenceelements.hh>
using namespace vt;
using Dune::GeometryType;

namespace {
inline GeometryType faceType(const oracle::Face& f) { return GeometryType(f.topo, f.dim); }
}
