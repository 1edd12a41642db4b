// C29: printed geometry types
#include "vp.hh"
#include <sstream>
#include <string>
#include <dune/geometry/type.hh>
using namespace Dune;

static std::string print(const GeometryType& t)
{
  std::ostringstream s;
  s << t;
  return s.str();
}

static GeometryType any(int last)
{
  int dim = vp_choose("dim", 0, last), topo = vp_choose("topology", -1, (1 << std::min(dim, 5)) - 1);
  // beyond dimension 5 the lowest and the highest of the numbers
  if (dim > 5 && topo >= 16) topo += (1 << dim) - 32;
  return topo < 0 ? GeometryTypes::none(dim) : GeometryType(topo, dim);
}

VP_ENTRY(printed)
{
  GeometryType t = any(vp_tier() ? 12 : 7);
  const std::string d = std::to_string(t.dim()), s = print(t);
  const unsigned h = t.id() >> 1, n = t.dim() == 0 ? 0 : (1u << (t.dim() - 1)) - 1;
  std::string e;
  if (t.isNone()) e = "(none, " + d + ")";
  else if (h == 0) e = "(simplex, " + d + ")";
  else if (h == n) e = "(cube, " + d + ")";
  else if (t.dim() == 3) e = h == 1 ? "(pyramid, 3)" : "(prism, 3)";
  else e = "(other [" + std::to_string(t.id()) + "], " + d + ")";
  vp_check(s == e, "printed type");
}

// output goes behind what is there, and the stream is handed on
VP_ENTRY(chained)
{
  GeometryType a = any(4), b = any(3);
  std::ostringstream s;
  s << "<" << a << b << ">";
  vp_check(s.str() == "<" + print(a) + print(b) + ">", "printed types in a row");
}

// different types have different texts
VP_ENTRY(distinct)
{
  GeometryType a = any(4), b = any(4);
  vp_check(a == b || print(a) != print(b), "text tells types apart");
}
