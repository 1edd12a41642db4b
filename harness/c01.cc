// C01: equality, ordering and id encoding of geometry types
#include "vp.hh"
#include <map>
#include <set>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
using namespace Dune;

struct Raw { unsigned id, dim; bool none; };

static Raw raw(int maxdim)
{
  Raw r;
  r.dim = (unsigned) vp_int("dim", 0, maxdim);
  r.id = (unsigned) vp_u64("id");
  r.none = vp_int("none", 0, 1);
  vp_assume(r.id < (1u << r.dim));
  return r;
}

static GeometryType make(const Raw& r) { return GeometryType(r.id, r.dim, r.none); }

// the shape is determined by dimension and construction bits 1..dim-1
static bool same(const Raw& a, const Raw& b)
{
  if (a.dim != b.dim || a.none != b.none) return false;
  return a.none || (a.id & ~1u) == (b.id & ~1u);
}

VP_ENTRY(equality)
{
  Raw ra = raw(30), rb = raw(30);
  GeometryType a = make(ra), b = make(rb);
  vp_check((a == b) == same(ra, rb), "equal exactly for the same shape and dimension");
  vp_check((a != b) == !same(ra, rb), "inequality is the negation of equality");
  vp_check(a == a, "reflexive");
}

VP_ENTRY(order)
{
  Raw ra = raw(30), rb = raw(30);
  GeometryType a = make(ra), b = make(rb);
  vp_check(!(a < a), "irreflexive");
  vp_check(int(a < b) + int(b < a) + int(same(ra, rb)) == 1, "exactly one of a<b, a==b, b<a");
}

VP_ENTRY(transitive)
{
  GeometryType a = make(raw(30)), b = make(raw(30)), c = make(raw(30));
  vp_check(!((a < b) && (b < c)) || (a < c), "order is transitive");
  vp_check(!((a == b) && (b == c)) || (a == c), "equality is transitive");
  vp_check(!(a == b) || ((a < c) == (b < c) && (c < a) == (c < b)), "order respects equality");
}

VP_ENTRY(id)
{
  Raw ra = raw(30), rb = raw(30);
  GeometryType a = make(ra), b = make(rb);
  GeometryType::Id ia = a.toId(), ib = b;
  GeometryType c(ia), d = ib;
  vp_check(c == a && d == b, "id round trip");
  vp_check(c.id() == ra.id && c.dim() == ra.dim && c.isNone() == ra.none, "id round trip keeps all data");
  bool ident = ra.id == rb.id && ra.dim == rb.dim && ra.none == rb.none;
  vp_check((ia == ib) == ident, "equal ids exactly for identically constructed types");
  vp_check(GeometryType(ra.id, ra.dim) == GeometryType(ra.id, ra.dim, false), "two-argument constructor is not none");
}

template<GeometryType::Id i> struct Holder { static constexpr GeometryType gt = i; };
static_assert(Holder<GeometryTypes::prism.toId()>::gt == GeometryTypes::prism);
static_assert(Holder<GeometryTypes::none(3).toId()>::gt.isNone());

// default-constructed type; use as map key
VP_ENTRY(container)
{
  GeometryType d;
  vp_check(d.isNone(), "default type is none");
  Raw ra = raw(8), rb = raw(8), rc = raw(8);
  std::map<GeometryType, int> m;
  m[make(ra)] = 1;
  m[make(rb)] = 2;
  m[make(rc)] = 3;
  int n = 1 + !same(ra, rb) + (!same(ra, rc) && !same(rb, rc));
  vp_check((int) m.size() == n, "map holds one entry per distinct type");
  vp_check(m[make(rc)] == 3, "map lookup of the last key");
  vp_check(m[make(ra)] == (same(ra, rc) ? 3 : same(ra, rb) ? 2 : 1), "map lookup of the first key");
}

// run-time/compile-time agreement for the types of one dimension
template<int dim> void constantFor()
{
  unsigned id = (unsigned) vp_int("id", 0, (1 << dim) - 1);
  GeometryType gt(id, dim);
  int calls = 0;
  GeometryType seen;
  Impl::toGeometryTypeIdConstant<dim>(gt, [&](auto c) {
    constexpr GeometryType k = decltype(c)::value;
    ++calls;
    seen = k;
    return 0;
  });
  vp_check(calls == 1, "dispatch calls the function exactly once");
  vp_check(seen == gt && !seen.isNone(), "dispatch passes the requested type");
}
VP_ENTRY(constant0) { constantFor<0>(); }
VP_ENTRY(constant1) { constantFor<1>(); }
VP_ENTRY(constant2) { constantFor<2>(); }
VP_ENTRY(constant3) { constantFor<3>(); }
VP_ENTRY(constant4) { constantFor<4>(); }
