// C23: geometry type from dimension and vertex count.
#include "vp.hh"
#include "refmodel.hh"
#include <dune/geometry/utility/typefromvertexcount.hh>
using namespace Dune;

static RefModel M;

// the shapes of dimension dim, by number of corners
template<int dim> void valid()
{
  unsigned t = vp_choose("topo", 0, (1u << dim) - 1);
  M.build(t, dim);
  GeometryType gt;
  bool thrown = false;
  unsigned n = vp_int("vertices", 0, 0xffffffffLL);
  vp_assume(n == unsigned(M.nc));
  try { gt = geometryTypeFromVertexCount(dim, n); }
  catch (const Dune::Exception&) { thrown = true; }
  vp_check(!thrown, "accepted");
  if (thrown) return;
  vp_check(gt == GeometryType(t, dim), "type");
}

VP_ENTRY(valid0) { valid<0>(); }
VP_ENTRY(valid1) { valid<1>(); }
VP_ENTRY(valid2) { valid<2>(); }
VP_ENTRY(valid3) { valid<3>(); }

VP_ENTRY(any)
{
  unsigned dim = vp_int("dim", 0, 0xffffffffLL), n = vp_int("vertices", 0, 0xffffffffLL);
  bool thrown = false;
  GeometryType gt;
  try { gt = geometryTypeFromVertexCount(dim, n); }
  catch (const Dune::NotImplemented&) { thrown = true; }
  if (thrown) {
    vp_reach("rejected");
    vp_check(dim >= 2, "vertices and lines are never rejected");
    vp_check(!(dim == 2 && (n == 3 || n == 4)), "2d shapes are accepted");
    vp_check(!(dim == 3 && (n == 4 || n == 5 || n == 6 || n == 8)), "3d shapes are accepted");
    return;
  }
  vp_reach("accepted");
  vp_check(dim <= 3, "higher dimensions are rejected");
  unsigned d = vp_conc(dim);
  vp_check(gt.dim() == d && !gt.isNone(), "dimension of the type");
  if (d >= 2) {
    M.build(gt.id(), d);
    vp_check(n == unsigned(M.nc), "number of corners of the type");
  }
  // a number of vertices that fits the shape
}
