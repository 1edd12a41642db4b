// C16: numbering of refined vertices and subelements.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "refmodel.hh"
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

static bool inside(unsigned topo, int dim, const double* p)
{
  const double e = 1e-9;
  unsigned t = topo >> 1;
  bool ok = true;
  for (int k = 0; k < dim; ++k) ok = ok && p[k] >= -e && p[k] <= 1 + e;
  if (dim == 2 && t == 0) ok = ok && p[0] + p[1] <= 1 + e;
  if (dim == 3 && t == 0) ok = ok && p[0] + p[1] + p[2] <= 1 + e;
  if (dim == 3 && t == 1) ok = ok && p[0] + p[2] <= 1 + e && p[1] + p[2] <= 1 + e;
  if (dim == 3 && t == 2) ok = ok && p[0] + p[1] <= 1 + e;
  return ok;
}

template<int dim> bool same(const FieldVector<double, dim>& a, const FieldVector<double, dim>& b)
{
  for (int k = 0; k < dim; ++k) if (a[k] - b[k] > 1e-9 || b[k] - a[k] > 1e-9) return false;
  return true;
}

template<unsigned topo, unsigned coerce, int dim> void number(int maxn)
{
  using R = StaticRefinement<topo, double, coerce, dim>;
  using X = FieldVector<double, dim>;
  const bool cubes = (coerce >> 1) != 0;
  int n;
  bool levels = vp_choose("levels", 0, 1);
  if (levels) { n = vp_choose("n", 0, maxn >= 4 ? 2 : maxn >= 2 ? 1 : 0); }
  else n = vp_choose("n", 1, maxn);
  RefinementIntervals tag = levels ? refinementLevels(n) : refinementIntervals(n);
  if (levels) n = 1 << n;
  vp_eqi(tag.intervals(), n, "number of intervals");

  std::vector<X> v;
  for (auto it = R::vBegin(tag); it != R::vEnd(tag); ++it) {
    vp_eqi(it.index(), v.size(), "vertex indices are consecutive");
    X x = it.coords();
    vp_check(inside(topo, dim, &x[0]), "vertex inside the element");
    auto g = it.geometry();
    vp_check(g.type() == GeometryTypes::vertex, "type of a vertex");
    vp_eqi(g.corners(), 1, "corners of a vertex");
    VP::eqv(g.corner(0), x, "geometry of a vertex is its point");
    VP::eqv(g.center(), x, "geometry of a vertex is its point");
    v.push_back(x);
    if (int(v.size()) > 4000) vp_fail("vertex iteration does not end");
  }
  vp_eqi(v.size(), R::nVertices(tag), "number of vertices");
  // triangulating refinements repeat the vertices shared by their Kuhn simplices
  if ((topo >> 1) == (coerce >> 1) && v.size() <= 100)
    for (std::size_t i = 0; i < v.size(); ++i)
      for (std::size_t j = 0; j < i; ++j) vp_check(!same<dim>(v[i], v[j]), "vertices are distinct");

  int count = 0;
  std::vector<int> used(v.size(), 0);
  for (auto it = R::eBegin(tag); it != R::eEnd(tag); ++it, ++count) {
    vp_eqi(it.index(), count, "element indices are consecutive");
    auto idx = it.vertexIndices();
    auto g = it.geometry();
    const int nc = cubes ? 1 << dim : dim + 1;
    vp_eqi(idx.size(), nc, "number of vertex indices");
    for (int i = 0; i < nc; ++i) {
      vp_check(idx[i] >= 0 && idx[i] < int(v.size()), "vertex index in range");
      used[idx[i]] = 1;
    }
    for (int i = 0; i < nc; ++i) {
      X c = g.corner(i);
      int found = 0;
      if (cubes) found = same<dim>(v[idx[i]], c);
      else for (int j = 0; j < nc; ++j) found += same<dim>(v[idx[j]], c);
      vp_eqi(found, 1, "vertex indices name the corners of the subelement");
    }
    if (count > 4000) vp_fail("element iteration does not end");
  }
  vp_eqi(count, R::nElements(tag), "number of subelements");
  for (std::size_t i = 0; i < v.size(); ++i) vp_check(used[i], "every vertex belongs to a subelement");

  // iterators are values and count as they are advanced
  auto a = R::eBegin(tag), b = a, e = R::eEnd(tag);
  int steps = vp_choose("steps", 0, count < 3 ? count : 3);
  for (int i = 0; i < steps; ++i) ++b;
  vp_check(a == R::eBegin(tag), "advancing a copy leaves the original alone");
  vp_eqi(b == a, steps == 0, "equality of element iterators");
  vp_eqi(b == e, steps == count, "end of the elements");
  auto va = R::vBegin(tag), vb = va;
  for (int i = 0; i < steps; ++i) ++vb;
  vp_check(va == R::vBegin(tag), "advancing a copy leaves the original alone");
  vp_eqi(vb == va, steps == 0, "equality of vertex iterators");
  vp_eqi(vb.index(), steps, "index after advancing");
}

VP_ENTRY(line) { number<0, 0, 1>(8); }
VP_ENTRY(line1) { number<1, 0, 1>(3); }
VP_ENTRY(tri) { number<0, 0, 2>(6); }
VP_ENTRY(tri1) { number<1, 1, 2>(2); }
VP_ENTRY(quad) { number<2, 2, 2>(6); }
VP_ENTRY(quadtri) { number<3, 1, 2>(5); }
VP_ENTRY(tet) { number<0, 0, 3>(4); }
VP_ENTRY(hex) { number<6, 7, 3>(4); }
VP_ENTRY(hextet) { number<7, 1, 3>(3); }
VP_ENTRY(pritet) { number<5, 1, 3>(3); }
VP_ENTRY(pyrtet) { number<3, 1, 3>(3); }
VP_ENTRY(tet_T) { number<0, 0, 3>(6); }
VP_ENTRY(hex_T) { number<6, 7, 3>(6); }
VP_ENTRY(hextet_T) { number<7, 1, 3>(4); }
VP_ENTRY(pritet_T) { number<5, 1, 3>(5); }
VP_ENTRY(pyrtet_T) { number<3, 1, 3>(5); }
