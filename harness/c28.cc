// C28: the Python bindings.  pybind11 is replaced by a stand-in (pymock) that
// keeps the registered functions and calls them with dynamically typed values.
#include "vp.hh"
#include <algorithm>
#include <string>
#include <vector>
#include <python/dune/geometry/_geometry.cc>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/python/geometry/multilineargeometry.hh>
using namespace Dune;
namespace py = pybind11;

static py::object boxed(int v) { return py::int_(v); }
static py::object boxed(const py::object& o) { return o; }
static py::object boxed(const std::string& s) { return py::caster<std::string>::make(s); }
template<class T> requires (!std::is_base_of_v<py::object, T>) py::object boxed(const T& v) { return py::object(&py::Tag<T>::c, new T(v)); }
static py::object pair(int a, int b) { py::tuple t(2); t[0] = py::int_(a); t[1] = py::int_(b); return t; }

// calls as the interpreter makes them
template<class T, class... A> py::object method(const char* name, const T& self, const A&... a)
{
  return py::callTable(py::class_<T>::table(), name, false, {boxed(self), boxed(a)...});
}
template<class T> py::object property(const char* name, const T& self)
{
  return py::callTable(py::class_<T>::table(), name, true, {boxed(self)});
}
template<class T, class... A> py::object construct(const A&... a)
{
  return py::callTable(py::class_<T>::table(), "__init__", false, {boxed(a)...});
}
template<class... A> py::object function(const py::module& m, const char* name, const A&... a)
{
  return py::callTable(m.data()->table, name, false, {boxed(a)...});
}
static py::object attribute(const py::module& m, const char* name)
{
  for (auto& a : m.data()->attrs) if (a.first == name) return a.second;
  vp_fail("attribute of the module");
  return {};
}
template<class T> T as(const py::object& o) { return py::cast<T>(o); }

static GeometryType anyType(int last)
{
  unsigned dim = vp_choose("dim", 0, last);
  if (vp_choose("none", 0, 1)) return GeometryTypes::none(dim);
  unsigned topo = vp_int("topology", 0, (1ll << dim) - 1);
  return GeometryType(topo, dim);
}

// geometry types: properties, comparison
VP_ENTRY(predicates)
{
  py::module m;
  Python::registerGeometryType(m);
  GeometryType t = anyType(12);
  vp_check(as<bool>(property("isVertex", t)) == t.isVertex(), "isVertex");
  vp_check(as<bool>(property("isLine", t)) == t.isLine(), "isLine");
  vp_check(as<bool>(property("isTriangle", t)) == t.isTriangle(), "isTriangle");
  vp_check(as<bool>(property("isQuadrilateral", t)) == t.isQuadrilateral(), "isQuadrilateral");
  vp_check(as<bool>(property("isTetrahedron", t)) == t.isTetrahedron(), "isTetrahedron");
  vp_check(as<bool>(property("isPyramid", t)) == t.isPyramid(), "isPyramid");
  vp_check(as<bool>(property("isPrism", t)) == t.isPrism(), "isPrism");
  vp_check(as<bool>(property("isHexahedron", t)) == t.isHexahedron(), "isHexahedron");
  vp_check(as<bool>(property("isSimplex", t)) == t.isSimplex(), "isSimplex");
  vp_check(as<bool>(property("isCube", t)) == t.isCube(), "isCube");
  vp_check(as<bool>(property("isNone", t)) == t.isNone(), "isNone");
  vp_eqi(as<int>(property("dim", t)), t.dim(), "dim");
  vp_eqi(as<int>(property("dimension", t)), t.dim(), "dimension");
}
VP_ENTRY(compare)
{
  py::module m;
  Python::registerGeometryType(m);
  GeometryType s = anyType(6), t = anyType(6);
  bool eq = s == t;
  vp_check(as<bool>(method("__eq__", s, t)) == eq, "__eq__");
  vp_check(as<bool>(method("__ne__", s, t)) == !eq, "__ne__");
  long a = as<long>(method("__hash__", s)), b = as<long>(method("__hash__", t));
  vp_check(!eq || a == b, "equal types have equal hashes");
}

// names of geometry types
static GeometryType fromName(const std::string& s) { return as<GeometryType>(construct<GeometryType>(s)); }
VP_ENTRY(names)
{
  py::module m;
  Python::registerGeometryType(m);
  unsigned dim = vp_choose("dim", 0, vp_tier() ? 6 : 5);
  unsigned kind = vp_choose("topology", -1, (1 << dim) - 1);
  GeometryType t = int(kind) < 0 ? GeometryTypes::none(dim) : GeometryType(kind, dim);
  std::string s = as<std::string>(method("__str__", t));
  vp_check(fromName(s) == t, "name gives the type back");
  vp_check(as<bool>(method("__eq__", fromName(s), t)), "name gives an equal type");
  if (!t.isNone()) {
    std::string id = std::to_string(kind), d = std::to_string(dim);
    vp_check(fromName("general(" + id + "," + d + ")") == t, "general name");
    vp_check(fromName("general( " + id + " ,  " + d + " )") == t, "general name with blanks");
    if (t.isSimplex()) vp_check(fromName("simplex(" + d + ")") == t, "simplex name");
    if (t.isCube()) vp_check(fromName("cube( " + d + ")") == t, "cube name");
  }
  else
    vp_check(fromName("none(" + std::to_string(dim) + ")") == t, "none name");
}
static const char* const plain[] = {"vertex", "line", "triangle", "quadrilateral", "tetrahedron", "pyramid", "prism", "hexahedron"};
static GeometryType plainType(int i)
{
  using namespace GeometryTypes;
  switch (i) {
  case 0: return vertex;
  case 1: return line;
  case 2: return triangle;
  case 3: return quadrilateral;
  case 4: return tetrahedron;
  case 5: return pyramid;
  case 6: return prism;
  default: return hexahedron;
  }
}
// well-formed and malformed descriptions: composed of five pieces
VP_ENTRY(descriptions)
{
  py::module m;
  Python::registerGeometryType(m);
  static const char* const head[] = {"cube", "general", "vertex", "simplex", "none", "prism", "zeppelin", "", "cub", "vertey"};
  static const char* const piece[] = {"", "(", ")", ",", " ", "1", "2"};
  int h = vp_choose("head", 0, vp_tier() ? 9 : 3);
  std::string s = head[h];
  std::string rest;
  const int n = 4;
  int p[n+1];
  p[0] = vp_choose("piece", 0, 1);
  for (int i = 1; i < n; ++i) { p[i] = vp_choose("piece", 0, 6); vp_assume(p[i] != 1); }
  for (int i = 0; i < n; ++i) rest += piece[p[i]];
  s += rest;
  // what the arguments say
  bool ok = true, unclear = false;
  std::vector<int> args;
  if (!rest.empty()) {
    std::size_t end = rest.find(')');
    if (rest[0] != '(') { ok = false; }
    else if (end == std::string::npos) ok = false;
    else {
      int value = -1, digits = 0;
      bool gap = false, bad = false;
      for (std::size_t i = 1; i <= end; ++i) {
        char c = rest[i];
        if (c == ' ') { if (digits) gap = true; }
        else if (c == ',' || c == ')') {
          if (!digits) bad = true;
          args.push_back(value);
          value = -1; digits = 0; gap = false;
        }
        else {
          if (gap) { unclear = true; continue; }
          value = (digits ? 10*value : 0) + (c - '0');
          ++digits;
        }
      }
      if (bad) ok = false;
      // blanks within numbers and text behind the parenthesis: either answer
      if (end + 1 < rest.size()) unclear = true;
    }
  }
  bool thrown = false;
  GeometryType t;
  try { t = fromName(s); }
  catch (const Dune::Exception&) { thrown = true; }
  const std::size_t want = h == 0 || h == 3 || h == 4 ? 1 : h == 1 ? 2 : 0;
  if (h > 5) ok = false;
  if (args.size() != want) ok = false;
  if (ok && h == 1 && (args[1] > 30 || args[0] >= (1 << args[1]))) ok = false;
  vp_check(thrown == !ok || unclear, "description is rejected exactly if it is malformed");
  if (!thrown && ok && !unclear) {
    GeometryType e = h == 0 ? GeometryTypes::cube(args[0]) : h == 1 ? GeometryType(args[0], args[1]) : h == 2 ? GeometryTypes::vertex
                   : h == 3 ? GeometryTypes::simplex(args[0]) : h == 4 ? GeometryTypes::none(args[0]) : GeometryTypes::prism;
    vp_check(t == e, "type of the description");
  }
}

// general types by id and dimension, numbers of one or two digits
VP_ENTRY(generals)
{
  py::module m;
  Python::registerGeometryType(m);
  int dim = vp_choose("dim", 0, 6), id = vp_choose("id", 0, 70);
  vp_assume(id <= (1 << dim) + 2);
  std::string s = "general(" + std::to_string(id) + "," + std::to_string(dim) + ")";
  bool thrown = false;
  GeometryType t;
  try { t = fromName(s); }
  catch (const Dune::Exception&) { thrown = true; }
  vp_check(thrown == (id >= 1 << dim), "general type is rejected exactly if the id is too large");
  if (!thrown) vp_check(t == GeometryType(id, dim), "general type of id and dimension");
}

// the module
VP_ENTRY(moduleTypes)
{
  py::module m;
  pymock__geometry(m);
  int d = vp_int("dim", 0, 30);
  vp_check(as<GeometryType>(function(m, "simplex", d)) == GeometryTypes::simplex(d), "simplex");
  vp_check(as<GeometryType>(function(m, "cube", d)) == GeometryTypes::cube(d), "cube");
  vp_check(as<GeometryType>(function(m, "none", d)) == GeometryTypes::none(d), "none");
  for (int i = 0; i < 8; ++i) {
    vp_check(as<GeometryType>(attribute(m, plain[i])) == plainType(i), "predefined type");
    vp_check(fromName(plain[i]) == plainType(i), "name of a predefined type");
    vp_check(as<std::string>(method("__str__", plainType(i))) == plain[i], "string of a predefined type");
  }
}

// reference elements
template<int dim> using Element = Geo::ReferenceElement<Geo::ReferenceElementImplementation<double, dim>>;
template<int dim> py::module elements()
{
  py::module m;
  Python::registerGeometryType(m);
  Python::registerReferenceElementToModule<dim>(m);
  return m;
}
template<int dim> unsigned someTopology() { return dim == 0 ? 0 : 2*vp_choose("topology", 0, (1 << std::max(dim - 1, 0)) - 1) + 1; }
template<class V> void same(const py::object& o, const V& v, const char* label)
{
  V w = as<V>(o);
  for (std::size_t i = 0; i < V::dimension; ++i) vp_check(w[i] == v[i], label);
}
template<int dim> void element()
{
  using E = Element<dim>;
  py::module m = elements<dim>();
  GeometryType gt(someTopology<dim>(), dim);
  E re = ReferenceElements<double, dim>::general(gt);
  E self = as<E>(function(m, "general", gt));
  vp_check(self == re, "element of the type");
  vp_check(function(m, "general", GeometryTypes::none(dim)).tag == nullptr, "no element for none");
  vp_eqi(as<int>(property("dimension", self)), dim, "dimension");
  vp_eq(as<double>(property("volume", self)), re.volume(), "volume");
  same(property("center", self), re.position(0, 0), "center");
  py::tuple corners = as<py::tuple>(property("corners", self));
  vp_eqi(corners.size(), re.size(dim), "number of corners");
  for (int i = 0; i < re.size(dim); ++i) same(corners[i], re.position(i, dim), "corner");
  if constexpr (dim > 0) {
    py::tuple normals = as<py::tuple>(property("integrationOuterNormals", self));
    vp_eqi(normals.size(), re.size(1), "number of normals");
    for (int i = 0; i < re.size(1); ++i) {
      same(normals[i], re.integrationOuterNormal(i), "normal of the list");
      same(method("integrationOuterNormal", self, i), re.integrationOuterNormal(i), "normal");
    }
  }
  // a symbolic subentity
  int c = vp_choose("codim", 0, dim);
  vp_eqi(as<int>(method("size", self, c)), re.size(c), "size");
  py::tuple types = as<py::tuple>(method("types", self, c)), positions = as<py::tuple>(method("positions", self, c));
  vp_eqi(types.size(), re.size(c), "number of types");
  vp_eqi(positions.size(), re.size(c), "number of positions");
  for (int i = 0; i < re.size(c); ++i) {
    vp_check(as<GeometryType>(types[i]) == re.type(i, c), "type of the list");
    same(positions[i], re.position(i, c), "position of the list");
  }
  int i = vp_choose("subentity", 0, re.size(c) - 1);
  vp_check(as<GeometryType>(method("type", self, i, c)) == re.type(i, c), "type");
  vp_check(as<GeometryType>(method("type", self, pair(i, c))) == re.type(i, c), "type of a pair");
  same(method("position", self, i, c), re.position(i, c), "position");
  same(method("position", self, pair(i, c)), re.position(i, c), "position of a pair");
  for (int cc = c; cc <= dim; ++cc) {
    const int n = re.size(i, c, cc);
    vp_eqi(as<int>(method("size", self, i, c, cc)), n, "size of a subentity");
    vp_eqi(as<int>(method("size", self, pair(i, c), cc)), n, "size of a subentity given as pair");
    py::tuple a = as<py::tuple>(method("subEntities", self, i, c, cc)), b = as<py::tuple>(method("subEntities", self, pair(i, c), cc));
    vp_eqi(a.size(), n, "number of subentities");
    vp_eqi(b.size(), n, "number of subentities of a pair");
    for (int k = 0; k < n; ++k) {
      const int e = re.subEntity(i, c, k, cc);
      vp_eqi(as<int>(a[k]), e, "subentity of the list");
      vp_eqi(as<int>(b[k]), e, "subentity of the list of a pair");
      vp_eqi(as<int>(method("subEntity", self, i, c, k, cc)), e, "subentity");
      vp_eqi(as<int>(method("subEntity", self, pair(i, c), pair(k, cc))), e, "subentity of pairs");
    }
  }
}
template<class F> void rejected(F&& f, const char* label) { VP::throws<py::value_error>(f, label); }

// arguments out of range are rejected
template<int dim> void invalid()
{
  using E = Element<dim>;
  py::module m = elements<dim>();
  GeometryType gt(someTopology<dim>(), dim);
  E re = ReferenceElements<double, dim>::general(gt);
  static const int far[] = {-1000000, -1, 1, 1000000};
  int k = vp_choose("distance", 0, 3);
  // below the first or beyond the last
  auto off = [k](int size) { return k < 2 ? far[k] : size - 1 + far[k]; };
  rejected([&] { method("size", re, off(dim+1)); }, "codimension of size");
  rejected([&] { method("types", re, off(dim+1)); }, "codimension of types");
  rejected([&] { method("positions", re, off(dim+1)); }, "codimension of positions");
  rejected([&] { method("type", re, 0, off(dim+1)); }, "codimension of type");
  rejected([&] { method("position", re, pair(0, off(dim+1))); }, "codimension of position");
  rejected([&] { method("size", re, 0, off(dim+1), dim); }, "codimension of a subentity");
  if (dim > 0) rejected([&] { method("integrationOuterNormal", re, off(re.size(1))); }, "normal of no facet");
  int c = vp_choose("codim", 0, dim);
  const int i = off(re.size(c));
  rejected([&] { method("type", re, i, c); }, "index of type");
  rejected([&] { method("type", re, pair(i, c)); }, "index of type, pair");
  rejected([&] { method("position", re, i, c); }, "index of position");
  rejected([&] { method("position", re, pair(i, c)); }, "index of position, pair");
  rejected([&] { method("size", re, i, c, c); }, "index of size");
  rejected([&] { method("size", re, pair(i, c), c); }, "index of size, pair");
  rejected([&] { method("subEntities", re, i, c, c); }, "index of subEntities");
  rejected([&] { method("subEntities", re, pair(i, c), c); }, "index of subEntities, pair");
  rejected([&] { method("subEntity", re, i, c, 0, c); }, "index of subEntity");
  const int cc = k < 2 ? c - (k == 1 ? 1 : 100) : dim + far[k];
  rejected([&] { method("size", re, 0, c, cc); }, "relative codimension of size");
  rejected([&] { method("subEntities", re, 0, c, cc); }, "relative codimension of subEntities");
  rejected([&] { method("subEntity", re, 0, c, 0, cc); }, "relative codimension of subEntity");
  const int ii = off(re.size(0, c, dim));
  rejected([&] { method("subEntity", re, 0, c, ii, dim); }, "relative index of subEntity");
  rejected([&] { method("subEntity", re, pair(0, c), pair(ii, dim)); }, "relative index of subEntity, pair");
}

// quadrature rules
template<int dim> void rule(int last)
{
  using Rule = QuadratureRule<double, dim>;
  using Point = QuadraturePoint<double, dim>;
  py::module m = elements<dim>();
  GeometryType gt(someTopology<dim>(), dim);
  int p = vp_choose("order", 0, last);
  const Rule& r = QuadratureRules<double, dim>::rule(gt, p);
  Rule s = as<Rule>(function(m, "rule", gt, p));
  vp_eqi(as<int>(property("order", s)), r.order(), "order of the rule");
  vp_check(as<int>(property("order", s)) >= p, "at least the requested order");
  vp_check(as<GeometryType>(property("type", s)) == gt, "type of the rule");
  py::tuple points = as<py::tuple>(method("__iter__", s));
  vp_eqi(points.size(), r.size(), "number of points");
  py::tuple arrays = as<py::tuple>(method("get", s));
  const auto& x = *static_cast<py::ArrayData*>(arrays[0].ptr);
  const auto& w = *static_cast<py::ArrayData*>(arrays[1].ptr);
  const int n = r.size();
  vp_check(x.shape.size() == 2 && x.shape[0] == dim && x.shape[1] == n, "shape of the points");
  vp_check(w.shape.size() == 1 && w.shape[0] == n, "shape of the weights");
  for (int i = 0; i < n; ++i) {
    Point q = as<Point>(points[i]);
    same(property("position", q), r[i].position(), "position of a point");
    vp_check(as<double>(property("weight", q)) == r[i].weight(), "weight of a point");
    for (int k = 0; k < dim; ++k) vp_check(x.values[k*n + i] == r[i].position()[k], "entry of the points");
    vp_check(w.values[i] == r[i].weight(), "entry of the weights");
  }
}
template<int dim> void point()
{
  using Point = QuadraturePoint<double, dim>;
  elements<dim>();
  auto x = VP::vec<FieldVector<double, dim>>("x", -5, 5);
  double w = vp_real("w", -5, 5);
  Point q = as<Point>(construct<Point>(x, py::caster<double>::make(w)));
  VP::eqv(as<FieldVector<double, dim>>(property("position", q)), x, "position of a new point");
  vp_eq(as<double>(property("weight", q)), w, "weight of a new point");
}

// multilinear geometries
template<int m, int w> void geometry(int last)
{
  using G = MultiLinearGeometry<double, m, w>;
  py::module scope;
  Python::registerGeometryType(scope);
  Python::registerMultiLinearGeometryType<double, m, w>(scope);
  GeometryType gt(2*vp_choose("topology", 0, last) + 1, m);
  auto re = ReferenceElements<double, m>::general(gt);
  const int n = re.size(m);
  std::vector<FieldVector<double, w>> c(n);
  py::list l(n);
  for (int i = 0; i < n; ++i) {
    // corners of the reference element, disturbed
    for (int j = 0; j < w; ++j) {
      c[i][j] = j < m ? re.position(i, m)[j] : 0;
      if (m == 1 || (w == 2 && i > 0) || (i == 1 && j != 1)) c[i][j] += vp_real("c", -0.0625, 0.0625);
    }
    l[i] = boxed(c[i]);
  }
  G g(gt, c), h = as<G>(construct<G>(gt, l));
  FieldVector<double, m> x;
  for (int j = 0; j < m; ++j) x[j] = vp_choose("x", 0, 1)*0.25 + 0.125;
  vp_check(as<GeometryType>(property("type", h)) == gt, "type of the geometry");
  vp_eqi(as<int>(property("corners", h)), n, "number of corners of the geometry");
  VP::eqv(as<FieldVector<double, w>>(property("center", h)), g.center(), "center of the geometry");
  for (int i = 0; i < n; ++i) VP::eqv(as<FieldVector<double, w>>(method("corner", h, i)), c[i], "corner of the geometry");
  VP::eqv(as<FieldVector<double, w>>(method("toGlobal", h, x)), g.global(x), "global coordinate");
  VP::eqm(as<FieldMatrix<double, m, w>>(method("jacobianTransposed", h, x)), g.jacobianTransposed(x), "Jacobian transposed");
  VP::eqm(as<FieldMatrix<double, w, m>>(method("jacobianInverseTransposed", h, x)), g.jacobianInverseTransposed(x), "inverse of the Jacobian");
  vp_eq(as<double>(method("integrationElement", h, x)), g.integrationElement(x), "integration element");
}
// with fixed corners
template<int m, int w> void geometryConcrete(int last)
{
  using G = MultiLinearGeometry<double, m, w>;
  py::module scope;
  Python::registerGeometryType(scope);
  Python::registerMultiLinearGeometryType<double, m, w>(scope);
  GeometryType gt(2*vp_choose("topology", 0, last) + 1, m);
  auto re = ReferenceElements<double, m>::general(gt);
  const int n = re.size(m), moved = vp_choose("moved", 0, n - 1);
  std::vector<FieldVector<double, w>> c(n);
  py::list l(n);
  for (int i = 0; i < n; ++i) {
    c[i] = 0;
    for (int j = 0; j < w; ++j) c[i][j] = (j < m ? (j+1)*re.position(i, m)[j] : 0.5) + (i == moved ? 0.125*(j+1) : 0);
    l[i] = boxed(c[i]);
  }
  G g(gt, c), h = as<G>(construct<G>(gt, l));
  vp_check(as<bool>(property("affine", h)) == g.affine(), "affine");
  vp_eq(as<double>(property("volume", h)), g.volume(), "volume of the geometry");
  FieldVector<double, m> x;
  for (int j = 0; j < m; ++j) x[j] = 0.25;
  auto y = g.global(x);
  VP::eqv(as<FieldVector<double, m>>(method("toLocal", h, y)), g.local(y), "local coordinate");
}

VP_ENTRY(el0) { element<0>(); }
VP_ENTRY(el1) { element<1>(); }
VP_ENTRY(el2) { element<2>(); }
VP_ENTRY(el3) { element<3>(); }
VP_ENTRY(el4_T) { element<4>(); }
VP_ENTRY(inv0) { invalid<0>(); }
VP_ENTRY(inv1) { invalid<1>(); }
VP_ENTRY(inv2) { invalid<2>(); }
VP_ENTRY(inv3) { invalid<3>(); }
VP_ENTRY(rule1) { rule<1>(7); }
VP_ENTRY(rule2) { rule<2>(5); }
VP_ENTRY(rule3) { rule<3>(3); }
VP_ENTRY(point1) { point<1>(); }
VP_ENTRY(point3) { point<3>(); }
VP_ENTRY(geo11) { geometry<1, 1>(0); }
VP_ENTRY(geo12) { geometry<1, 2>(0); }
VP_ENTRY(geo22) { geometry<2, 2>(1); }
VP_ENTRY(geo23) { geometry<2, 3>(1); }
VP_ENTRY(fix11) { geometryConcrete<1, 1>(0); }
VP_ENTRY(fix22) { geometryConcrete<2, 2>(1); }
VP_ENTRY(fix23) { geometryConcrete<2, 3>(1); }
VP_ENTRY(fix33) { geometryConcrete<3, 3>(3); }
