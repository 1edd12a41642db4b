// C02: predicates and factories of geometry types against the chain of
// prism/cone constructions
#include "vp.hh"
#include <dune/geometry/type.hh>
using namespace Dune;

// shape by its construction: step s in 1..dim-1 is a prism iff bit s is set
// (step 0, the line, is both)
struct Shape {
  unsigned dim, id;
  bool prismStep(unsigned s) const { return (id >> s) & 1; }
  bool allCones() const { for (unsigned s = 1; s < dim; ++s) if (prismStep(s)) return false; return true; }
  bool allPrisms() const { for (unsigned s = 1; s < dim; ++s) if (!prismStep(s)) return false; return true; }
};

static Shape shape(int mindim, int maxdim)
{
  Shape s;
  s.dim = (unsigned) vp_choose("dim", mindim, maxdim);
  s.id = (unsigned) vp_u64("id");
  vp_assume(s.id < (1u << s.dim));
  return s;
}

VP_ENTRY(predicates)
{
  Shape s = shape(0, 30);
  GeometryType t(s.id, s.dim);
  unsigned i = s.id & ~1u;
  vp_check(t.dim() == s.dim && t.id() == s.id, "dimension and id");
  vp_check(!t.isNone(), "none");
  vp_check(t.isVertex() == (s.dim == 0), "vertex");
  vp_check(t.isLine() == (s.dim == 1), "line");
  vp_check(t.isTriangle() == (s.dim == 2 && i == 0), "triangle");
  vp_check(t.isQuadrilateral() == (s.dim == 2 && i == 2), "quadrilateral");
  vp_check(t.isTetrahedron() == (s.dim == 3 && i == 0), "tetrahedron");
  vp_check(t.isPyramid() == (s.dim == 3 && i == 2), "pyramid");
  vp_check(t.isPrism() == (s.dim == 3 && i == 4), "prism");
  vp_check(t.isHexahedron() == (s.dim == 3 && i == 6), "hexahedron");
  vp_check(t.isSimplex() == s.allCones(), "simplex");
  vp_check(t.isCube() == s.allPrisms(), "cube");
}

VP_ENTRY(steps)
{
  Shape s = shape(1, 30);
  GeometryType t(s.id, s.dim);
  int step = (int) vp_int("step", 0, s.dim - 1);
  vp_check(t.isConical(step) == (step == 0 || !s.prismStep(step)), "conical step");
  vp_check(t.isPrismatic(step) == (step == 0 || s.prismStep(step)), "prismatic step");
  vp_check(t.isConical() == t.isConical(s.dim - 1), "conical last step");
  vp_check(t.isPrismatic() == t.isPrismatic(s.dim - 1), "prismatic last step");
  int codim = (int) vp_int("codim", 0, s.dim - 1);
  vp_check(Impl::isPyramid(s.id, s.dim, codim) == t.isConical(s.dim - 1 - codim), "pyramid construction of a codimension");
  vp_check(Impl::isPrism(s.id, s.dim, codim) == t.isPrismatic(s.dim - 1 - codim), "prism construction of a codimension");
  unsigned base = Impl::baseTopologyId(s.id, s.dim, codim);
  vp_check(base < (1u << (s.dim - codim)), "base topology is valid");
  int k = (int) vp_int("k", 0, 29);
  vp_check(k >= int(s.dim) - codim || ((base >> k) & 1) == ((s.id >> k) & 1), "base topology keeps the first steps");
  vp_check(Impl::numTopologies(s.dim) == (1u << s.dim), "number of topologies");
}

VP_ENTRY(none)
{
  Shape s = shape(0, 30);
  int step = (int) vp_int("step", 0, 29);
  GeometryType t(s.id, s.dim, true);
  vp_check(t.isNone(), "none is none");
  vp_check(t.dim() == s.dim, "none keeps its dimension");
  vp_check(!t.isTriangle() && !t.isQuadrilateral() && !t.isTetrahedron() && !t.isPyramid() && !t.isPrism()
           && !t.isHexahedron() && !t.isSimplex() && !t.isCube(), "none is no named shape");
  vp_check(!t.isConical(step) && !t.isPrismatic(step), "none has no construction step");
  GeometryType n = GeometryTypes::none(s.dim);
  vp_check(n.isNone() && n.dim() == s.dim && n == t, "none factory");
}

VP_ENTRY(factories)
{
  unsigned dim = (unsigned) vp_choose("dim", 0, 30);
  GeometryType s = GeometryTypes::simplex(dim), c = GeometryTypes::cube(dim);
  vp_check(s.isSimplex() && !s.isNone() && s.dim() == dim, "simplex factory");
  vp_check(c.isCube() && !c.isNone() && c.dim() == dim, "cube factory");
  vp_check(s.id() < (1u << dim) && c.id() < (1u << dim), "factories return valid topology numbers");
  vp_check((s == c) == (dim < 2), "simplex and cube differ from dimension 2 on");
}

VP_ENTRY(named)
{
  using namespace GeometryTypes;
  vp_check(vertex.isVertex() && vertex.dim() == 0 && !vertex.isNone(), "vertex constant");
  vp_check(line.isLine() && line.dim() == 1 && !line.isNone(), "line constant");
  vp_check(triangle.isTriangle() && triangle == GeometryTypes::conicalExtension(line), "triangle constant");
  vp_check(quadrilateral.isQuadrilateral() && quadrilateral == prismaticExtension(line), "quadrilateral constant");
  vp_check(tetrahedron.isTetrahedron() && tetrahedron == conicalExtension(triangle), "tetrahedron constant");
  vp_check(pyramid.isPyramid() && pyramid == conicalExtension(quadrilateral), "pyramid constant");
  vp_check(prism.isPrism() && prism == prismaticExtension(triangle), "prism constant");
  vp_check(hexahedron.isHexahedron() && hexahedron == prismaticExtension(quadrilateral), "hexahedron constant");
}

VP_ENTRY(extensions)
{
  Shape s = shape(0, 29);
  bool none = vp_int("none", 0, 1);
  GeometryType t(s.id, s.dim, none);
  GeometryType p = GeometryTypes::prismaticExtension(t), c = GeometryTypes::conicalExtension(t);
  vp_check(p.dim() == s.dim + 1 && c.dim() == s.dim + 1, "extension raises the dimension by one");
  vp_check(p.isNone() == none && c.isNone() == none, "extension keeps none");
  if (!none) {
    vp_check(p.isPrismatic() && c.isConical(), "last step of an extension");
    if (s.dim > 0)
      vp_check(!p.isConical() && !c.isPrismatic(), "extensions differ above dimension 1");
    int k = (int) vp_int("k", 0, 28);
    if (k < (int) s.dim)
      vp_check(p.isPrismatic(k) == t.isPrismatic(k) && c.isPrismatic(k) == t.isPrismatic(k)
               && p.isConical(k) == t.isConical(k) && c.isConical(k) == t.isConical(k), "extension keeps the earlier steps");
    vp_check(Impl::getBase(p) == t && Impl::getBase(c) == t, "base of an extension");
    vp_check(p.id() < (2u << s.dim) && c.id() < (2u << s.dim), "extensions are valid topologies");
  }
}

// static dispatch
template<GeometryType::Id id> struct Record {
  static int apply(GeometryType& out, int& calls) { out = GeometryType(id); ++calls; return 17; }
};
template<int dim> void dispatch()
{
  unsigned id = (unsigned) vp_int("id", 0, (1 << dim) - 1);
  GeometryType out;
  int calls = 0;
  int r = Impl::IfGeometryType<Record, dim>::apply(GeometryType(id, dim), out, calls);
  vp_check(r == 17 && calls == 1, "dispatch calls the operation once and returns its result");
  vp_check(out == GeometryType(id, dim), "dispatch selects the requested type");
}
VP_ENTRY(dispatch0) { dispatch<0>(); }
VP_ENTRY(dispatch1) { dispatch<1>(); }
VP_ENTRY(dispatch2) { dispatch<2>(); }
VP_ENTRY(dispatch3) { dispatch<3>(); }
VP_ENTRY(dispatch4) { dispatch<4>(); }
VP_ENTRY(dispatch5) { dispatch<5>(); }
