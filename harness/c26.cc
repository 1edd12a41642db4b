// C26: two threads that use quadrature rules, reference elements and virtual
// refinements for the first time.  The schedule is decided by the solver; see
// engine/threads.py.
#include "vp.hh"
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

// what a thread asks for, and what it gets
struct Request
{
  int kind = 0;                  // 0 rule, 1 element, 2 refinement
  int dim = 0;
  unsigned id = 0;               // topology
  int order = 0;
  int family = 0;
  const void* object = nullptr;
  double measure = 0;            // sum of the weights, volume
  int count = 0;                 // points, corners, elements
  bool good = true;
};

template<int dim> static void rule(Request& r)
{
  const GeometryType t(r.id, dim);
  const auto& q = QuadratureRules<double, dim>::rule(t, r.order, QuadratureType::Enum(r.family));
  r.object = &q;
  r.count = q.size();
  for (const auto& p : q) {
    r.measure += p.weight();
    for (int k = 0; k < dim; ++k)
      if (!(p.position()[k] > -1e-12 && p.position()[k] < 1 + 1e-12)) r.good = false;
  }
  if (q.type() != t || q.order() < r.order) r.good = false;
}

template<int dim> static void element(Request& r)
{
  const GeometryType t(r.id, dim);
  auto e = r.order == 0 ? ReferenceElements<double, dim>::general(t)
           : t.isSimplex() ? ReferenceElements<double, dim>::simplex() : ReferenceElements<double, dim>::cube();
  r.count = e.size(dim);
  r.measure = e.volume();
  if (e.type() != t || e.size(0) != 1) r.good = false;
  for (int i = 0; i < e.size(dim); ++i)
    if (e.subEntity(0, 0, i, dim) != i) r.good = false;
  auto g = e.template geometry<0>(0);
  if (g.corners() != r.count) r.good = false;
}

template<int dim> static void refinement(Request& r)
{
  const GeometryType t(r.id, dim);
  auto& q = buildRefinement<dim, double>(t, t);
  r.object = &q;
  r.count = q.nElements(refinementIntervals(2));
  r.measure = r.count;
  auto it = q.vBegin(refinementIntervals(2));
  for (int k = 0; k < dim; ++k)
    if (it.coords()[k] != 0) r.good = false;
}

extern "C" void request(void* p)
{
  Request& r = *static_cast<Request*>(p);
  if (r.kind == 0) {
    if (r.dim == 0) rule<0>(r);
    else if (r.dim == 1) rule<1>(r);
    else if (r.dim == 2) rule<2>(r);
    else rule<3>(r);
  }
  else if (r.kind == 1) {
    if (r.dim == 0) element<0>(r);
    else if (r.dim == 1) element<1>(r);
    else if (r.dim == 2) element<2>(r);
    else element<3>(r);
  }
  else {
    if (r.dim == 1) refinement<1>(r);
    else if (r.dim == 2) refinement<2>(r);
    else refinement<3>(r);
  }
}

static double volume(int dim, unsigned id)
{
  double v = 1;
  for (int k = 1; k < dim; ++k)
    if (((id >> k) & 1) == 0) v /= k + 1;
  return v;
}

static int corners(int dim, unsigned id)
{
  int n = 1;
  for (int k = 0; k < dim; ++k)
    n = (k == 0 || ((id >> k) & 1)) ? 2 * n : n + 1;
  return n;
}

static bool same(const Request& a, const Request& b)
{
  return a.kind == b.kind && a.dim == b.dim && a.id >> 1 == b.id >> 1 && a.order == b.order && a.family == b.family;
}

static void validate(const Request& r)
{
  vp_check(r.good, "a thread sees a complete object");
  if (r.kind == 2)
    vp_eqi(r.count, 1 << r.dim, "number of elements seen by a thread");
  else {
    vp_near(r.measure, volume(r.dim, r.id), 1e-9, "measure seen by a thread");
    if (r.kind == 1) vp_eqi(r.count, corners(r.dim, r.id), "corners seen by a thread");
    else vp_check(r.count > 0, "rule seen by a thread has points");
  }
  // a later request yields the same object
  Request s = r;
  s.object = nullptr; s.measure = 0; s.count = 0; s.good = true;
  request(&s);
  vp_check(s.object == r.object, "later request yields the object of the first use");
  vp_eqi(s.count, r.count, "later request yields the same counts");
}

static void both(Request& a, Request& b)
{
  vp_threads(request, &a, request, &b);
  if (same(a, b)) {
    vp_check(a.object == b.object, "both threads obtain the same object");
    vp_eqi(a.count, b.count, "both threads see the same counts");
  }
  validate(a);
  validate(b);
}

static const int nfam = 4;
static int family(int k)
{
  return k == 0 ? QuadratureType::GaussLegendre : k == 1 ? QuadratureType::GaussLobatto
         : k == 2 ? QuadratureType::GaussRadauLeft : QuadratureType::GaussRadauRight;
}

// the same element type: the same or different orders and families
VP_ENTRY(rules)
{
  Request a, b;
  a.dim = b.dim = vp_choose("dim", 1, 3);
  a.id = b.id = a.dim == 1 ? 0 : 2 * vp_choose("topology", 0, (1 << (a.dim - 1)) - 1);
  a.order = vp_choose("order a", 0, vp_tier() ? 6 : 3);
  b.order = vp_choose("order b", 0, vp_tier() ? 6 : 3);
  if (a.order > b.order) vp_skip();
  if (a.dim == 1) {
    a.family = family(vp_choose("family a", 0, nfam - 1));
    b.family = family(vp_choose("family b", 0, nfam - 1));
  }
  both(a, b);
}

// different element types and dimensions: rules in terms of each other, shared tables
VP_ENTRY(mixed)
{
  Request a, b;
  a.dim = vp_choose("dim a", 0, 3);
  b.dim = vp_choose("dim b", 0, 3);
  if (a.dim > b.dim) vp_skip();
  a.id = a.dim <= 1 ? 0 : 2 * vp_choose("topology a", 0, (1 << (a.dim - 1)) - 1);
  b.id = b.dim <= 1 ? 0 : 2 * vp_choose("topology b", 0, (1 << (b.dim - 1)) - 1);
  a.order = b.order = vp_choose("order", 1, vp_tier() ? 4 : 2);
  both(a, b);
}

// reference elements
VP_ENTRY(elements)
{
  Request a, b;
  a.kind = b.kind = 1;
  a.dim = vp_choose("dim a", 0, 3);
  b.dim = vp_choose("dim b", 0, 3);
  if (a.dim > b.dim || b.dim - a.dim > 1 + vp_tier()) vp_skip();
  a.id = vp_choose("topology a", 0, (1 << a.dim) - 1);
  b.id = vp_choose("topology b", 0, (1 << b.dim) - 1);
  if (vp_tier() == 0 && a.dim == 3 && (a.id & 1)) vp_skip();
  if (vp_tier() == 0 && b.dim == 3 && (b.id & 1)) vp_skip();
  const bool special = a.id >> 1 == 0 || (a.id | 1) == (1u << a.dim) - 1;
  if (special) a.order = vp_choose("accessor", 0, 1);
  both(a, b);
}

// virtual refinements among each other and against the other kinds
VP_ENTRY(refinements)
{
  Request a, b;
  a.kind = vp_choose("kind a", 0, 2);
  b.kind = 2;
  a.dim = vp_choose("dim a", 1, 3);
  b.dim = vp_choose("dim b", 1, 3);
  a.id = vp_choose("simplex a", 0, 1) ? 0 : (1u << a.dim) - 2;
  b.id = vp_choose("simplex b", 0, 1) ? 0 : (1u << b.dim) - 2;
  if (a.dim == 1 && a.id == 0 && b.dim == 1) vp_skip();
  a.order = a.kind == 0;
  both(a, b);
}

// rules against reference elements
VP_ENTRY(kinds)
{
  Request a, b;
  b.kind = 1;
  a.dim = vp_choose("dim a", 1, 3);
  b.dim = vp_choose("dim b", 1, 3);
  a.id = a.dim <= 1 ? 0 : 2 * vp_choose("topology a", 0, (1 << (a.dim - 1)) - 1);
  b.id = b.dim <= 1 ? 0 : 2 * vp_choose("topology b", 0, (1 << (b.dim - 1)) - 1);
  a.order = 2;
  both(a, b);
}
