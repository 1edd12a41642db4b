// C03: geometry type indices
#include "vp.hh"
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
using namespace Dune;
using LI = LocalGeometryTypeIndex;
using GI = GlobalGeometryTypeIndex;

static GeometryType any(unsigned dim)
{
  unsigned id = (unsigned) vp_u64("id");
  bool none = vp_int("none", 0, 1);
  vp_assume(id < (1u << dim));
  return GeometryType(id, dim, none);
}

// number of distinct types of a dimension, 'none' included
static std::size_t count(unsigned dim) { return (dim == 0 ? 1 : std::size_t(1) << (dim - 1)) + 1; }

VP_ENTRY(local)
{
  unsigned dim = (unsigned) vp_int("dim", 0, 29);
  GeometryType a = any(dim), b = any(dim);
  std::size_t ia = LI::index(a), ib = LI::index(b);
  vp_check(LI::size(dim) == count(dim), "local size is the number of distinct types");
  vp_check(ia < count(dim), "local index in range");
  vp_check((ia == ib) == (a == b), "local index is injective");
  GeometryType back = LI::type(dim, ia);
  vp_check(back == a, "local type inverts index");
}

VP_ENTRY(local_inverse)
{
  unsigned dim = (unsigned) vp_int("dim", 0, 29);
  std::size_t i = vp_u64("i");
  vp_assume(i < count(dim));
  GeometryType t = LI::type(dim, i);
  vp_check(t.dim() == dim, "type of a local index has the dimension");
  vp_check(t.isNone() || t.id() < (1u << dim), "type of a local index is valid");
  vp_check(LI::index(t) == i, "index inverts local type");
}

VP_ENTRY(global)
{
  unsigned da = (unsigned) vp_int("da", 0, 29), db = (unsigned) vp_int("db", 0, 29);
  GeometryType a = any(da), b = any(db);
  std::size_t ia = GI::index(a), ib = GI::index(b);
  vp_check((ia == ib) == (a == b), "global index is injective");
  vp_check(!(da < db) || ia < ib, "global index is ordered by dimension");
  vp_check(ia < GI::size(da), "global index below the size for its dimension");
  vp_check(da == 0 || ia >= GI::size(da - 1), "global index above all lower dimensions");
  vp_check(ia == GI::offset(da) + LI::index(a), "global index is offset plus local index");
}

VP_ENTRY(global_size)
{
  unsigned dim = (unsigned) vp_int("dim", 0, 28);
  vp_check(GI::offset(0) == 0, "offset of dimension 0");
  vp_check(GI::size(0) == count(0), "size for dimension 0");
  vp_check(GI::size(dim + 1) == GI::size(dim) + count(dim + 1), "global size is the number of distinct types");
  vp_check(GI::offset(dim + 1) == GI::size(dim), "offset equals the size of the lower dimensions");
}
