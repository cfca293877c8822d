// Extension module of the Python checks: the C++ answers as plain lists, and
// the corner-based geometries bound to Python by the repository's own code.
#include <config.h>
#include <array>
#include <stdexcept>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/python/common/fvecmatregistry.hh>
#include <dune/python/geometry/multilineargeometry.hh>
#include <dune/python/pybind11/pybind11.h>
#include <dune/python/pybind11/stl.h>

namespace py = pybind11;
using Dune::GeometryType;

template<class V> static py::list plain(const V& v)
{
  py::list l;
  for (std::size_t i = 0; i < v.size(); ++i) l.append(double(v[i]));
  return l;
}
template<class M> static py::list plainMatrix(const M& m)
{
  py::list l;
  for (int i = 0; i < int(M::rows); ++i) { py::list r; for (int j = 0; j < int(M::cols); ++j) r.append(double(m[i][j])); l.append(r); }
  return l;
}

static py::dict typeInfo(const GeometryType& t)
{
  py::dict d;
  d["dim"] = unsigned(t.dim()); d["id"] = t.isNone() ? 0u : (t.id() & ~1u);
  d["isVertex"] = t.isVertex(); d["isLine"] = t.isLine(); d["isTriangle"] = t.isTriangle(); d["isQuadrilateral"] = t.isQuadrilateral();
  d["isTetrahedron"] = t.isTetrahedron(); d["isPyramid"] = t.isPyramid(); d["isPrism"] = t.isPrism(); d["isHexahedron"] = t.isHexahedron();
  d["isSimplex"] = t.isSimplex(); d["isCube"] = t.isCube(); d["isNone"] = t.isNone();
  return d;
}

template<int dim> static py::dict refElement(unsigned id)
{
  auto r = Dune::ReferenceElements<double,dim>::general(GeometryType(id, dim));
  py::dict d;
  py::list sizes, types, positions, subs;
  for (int c = 0; c <= dim; ++c) {
    sizes.append(r.size(c));
    py::list tc, pc, sc;
    for (int i = 0; i < r.size(c); ++i) {
      tc.append(r.type(i, c));
      pc.append(plain(r.position(i, c)));
      py::list si;
      for (int cc = 0; cc <= dim; ++cc) {
        py::list s;
        if (cc >= c) for (int ii = 0; ii < r.size(i, c, cc); ++ii) s.append(r.subEntity(i, c, ii, cc));
        si.append(s);
      }
      sc.append(si);
    }
    types.append(tc); positions.append(pc); subs.append(sc);
  }
  py::list normals;
  if constexpr (dim > 0) for (int i = 0; i < r.size(1); ++i) normals.append(plain(r.integrationOuterNormal(i)));
  d["sizes"] = sizes; d["types"] = types; d["positions"] = positions; d["subs"] = subs; d["normals"] = normals; d["volume"] = double(r.volume());
  return d;
}

template<int dim> static py::dict rule(unsigned id, int order)
{
  auto& q = Dune::QuadratureRules<double,dim>::rule(GeometryType(id, dim), order);
  py::dict d; py::list p, w;
  for (auto& x : q) { p.append(plain(x.position())); w.append(double(x.weight())); }
  d["points"] = p; d["weights"] = w; d["order"] = q.order(); d["type"] = q.type();
  return d;
}

template<int dim, int cdim> static py::dict geometry(unsigned id, const std::vector<std::vector<double>>& corners, const std::vector<double>& local, const std::vector<double>& off)
{
  std::vector<Dune::FieldVector<double,cdim>> v(corners.size());
  for (std::size_t i = 0; i < v.size(); ++i) for (int k = 0; k < cdim; ++k) v[i][k] = corners[i][k];
  Dune::MultiLinearGeometry<double,dim,cdim> g(GeometryType(id, dim), v);
  Dune::FieldVector<double,dim> x; for (int k = 0; k < dim; ++k) x[k] = local[k];
  py::dict d;
  d["affine"] = bool(g.affine()); d["type"] = g.type(); d["corners"] = int(g.corners()); d["center"] = plain(g.center()); d["volume"] = double(g.volume());
  py::list c; for (int i = 0; i < g.corners(); ++i) c.append(plain(g.corner(i))); d["corner"] = c;
  auto y = g.global(x);
  d["global"] = plain(y);
  d["jt"] = plainMatrix(Dune::FieldMatrix<double,dim,cdim>(g.jacobianTransposed(x)));
  if constexpr (cdim >= dim) {
    d["ie"] = double(g.integrationElement(x));
    Dune::FieldMatrix<double,cdim,dim> jit(0);
    auto m = g.jacobianInverseTransposed(x);
    for (int i = 0; i < cdim; ++i) for (int j = 0; j < dim; ++j) jit[i][j] = m[i][j];
    d["jit"] = plainMatrix(jit);
    for (int k = 0; k < cdim; ++k) y[k] += off[k];
    d["local"] = plain(g.local(y));
  }
  return d;
}

template<int dim, int cdim> static void reg(py::module& m)
{
  Dune::Python::registerFieldVecMat<Dune::FieldVector<double,dim>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldVector<double,cdim>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldMatrix<double,dim,cdim>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldMatrix<double,cdim,dim>>::apply();
  std::string n = std::to_string(dim) + "_" + std::to_string(cdim);
  m.attr(("Geometry_" + n).c_str()) = Dune::Python::registerMultiLinearGeometryType<double,dim,cdim>(m);
  m.def(("geometry_" + n).c_str(), &geometry<dim,cdim>);
}
template<int dim> static void regRef(py::module& m)
{
  m.def(("refElement_" + std::to_string(dim)).c_str(), &refElement<dim>);
  if constexpr (dim > 0) m.def(("rule_" + std::to_string(dim)).c_str(), &rule<dim>);
}

PYBIND11_MODULE(vtruth, m)
{
  m.def("typeInfo", &typeInfo);
  m.def("make", [](unsigned id, unsigned dim, bool none) { return none ? Dune::GeometryTypes::none(dim) : GeometryType(id, dim); });
  regRef<0>(m); regRef<1>(m); regRef<2>(m); regRef<3>(m); regRef<4>(m);
  reg<0,1>(m); reg<0,2>(m); reg<0,3>(m);
  reg<1,1>(m); reg<1,2>(m); reg<1,3>(m);
  reg<2,2>(m); reg<2,3>(m); reg<3,3>(m);
}
