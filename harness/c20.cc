// C20: the cache of quadrature rules is history independent.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/type.hh>
#include "quadmodel.hh"
using namespace Dune;

struct Request
{
  unsigned topo;
  int p, q;
  bool operator==(const Request& o) const { return topo == o.topo && p == o.p && q == o.q; }
};

template<class ct, int dim> const QuadratureRule<ct, dim>& get(const Request& r)
{
  return QuadratureRules<ct, dim>::rule(GeometryType(r.topo, dim), r.p, QuadratureType::Enum(r.q));
}

// contents of a rule at one time
template<int dim> struct Snapshot
{
  const QuadratureRule<double, dim>* where;
  const QuadraturePoint<double, dim>* data;
  int order;
  GeometryType type;
  std::vector<double> v;
  explicit Snapshot(const QuadratureRule<double, dim>& r) : where(&r), data(r.data()), order(r.order()), type(r.type())
  {
    for (auto&& x : r) {
      for (int k = 0; k < dim; ++k) v.push_back(x.position()[k]);
      v.push_back(x.weight());
    }
  }
  void same(const Snapshot& o) const
  {
    vp_check(where == o.where, "the same request yields the same object");
    vp_check(data == o.data, "the points of a rule stay where they are");
    vp_eqi(order, o.order, "the order of a rule never changes");
    vp_check(type == o.type, "the type of a rule never changes");
    vp_eqi(v.size(), o.v.size(), "the number of points of a rule never changes");
    for (std::size_t i = 0; i < v.size(); ++i)
      vp_check(v[i] == o.v[i], "the points of a rule never change");
  }
};

// the rules of another coordinate type have a cache of their own, whose
// history is a different one
template<int dim> void fresh(const Snapshot<dim>& s, const Request& r)
{
  vp_check(s.type == GeometryType(r.topo, dim), "type of the rule");
  vp_check(s.order >= r.p, "order of the rule");
  auto& f = get<float, dim>(r);
  vp_eqi(s.order, f.order(), "order does not depend on earlier requests");
  vp_check(s.type == f.type(), "type does not depend on earlier requests");
  vp_eqi(s.v.size(), f.size()*(dim + 1), "number of points does not depend on earlier requests");
  std::size_t n = 0;
  for (auto&& x : f) {
    for (int k = 0; k < dim; ++k) vp_near(s.v[n++], x.position()[k], 1e-5, "points do not depend on earlier requests");
    vp_near(s.v[n++], x.weight(), 1e-5, "weights do not depend on earlier requests");
  }
}

static Request choose(const char* nt, const char* np, const char* nq, int dim, int lo, int hi, int step, int families)
{
  Request r;
  r.topo = vp_choose(nt, 0, (1 << dim) - 1);
  r.p = lo + step*vp_choose(np, 0, (hi - lo)/step);
  r.q = vp_choose(nq, 0, families - 1);
  return r;
}

template<int dim> void pair(const Request& a, const Request& b)
{
  Snapshot<dim> a1(get<double, dim>(a));
  Snapshot<dim> b1(get<double, dim>(b));
  Snapshot<dim> a2(get<double, dim>(a));
  a2.same(a1);
  Snapshot<dim> b2(get<double, dim>(b));
  b2.same(b1);
  Snapshot<dim> a3(*a1.where);
  a3.same(a1);
  // rules of different types, orders or families are different objects unless
  // they have the same contents
  fresh<dim>(b1, b);
  fresh<dim>(a1, a);
}

VP_ENTRY(one)
{
  Request a = choose("ta", "pa", "qa", 1, 0, 3, 1, 7);
  pair<1>(a, choose("tb", "pb", "qb", 1, 0, 3, 1, 7));
}
// the same order in one family, high orders
VP_ENTRY(one_high)
{
  int q = vp_choose("q", 0, 6);
  int hi = q < 4 ? 60 : 30;
  Request a = { unsigned(vp_choose("ta", 0, 1)), int(vp_choose("pa", hi - 4, hi)), q };
  Request b = { unsigned(vp_choose("tb", 0, 1)), int(vp_choose("pb", hi - 4, hi)), q };
  pair<1>(a, b);
}
VP_ENTRY(two)
{
  static const int some[3] = { 0, 1, 4 };
  Request a = choose("ta", "pa", "qa", 2, 1, 3, 1, 3);
  Request b = choose("tb", "pb", "qb", 2, 1, 3, 1, 3);
  a.q = some[a.q];
  b.q = some[b.q];
  pair<2>(a, b);
}
// triangle orders of every pair of tables
VP_ENTRY(triangles)
{
  Request a = { 0, int(vp_choose("pa", 0, 15)), 0 };
  Request b = { 0, int(vp_choose("pb", 0, 15)), 0 };
  pair<2>(a, b);
}
VP_ENTRY(three)
{
  Request a = choose("ta", "pa", "qa", 3, 1, 2, 1, 1);
  Request b = choose("tb", "pb", "qb", 3, 1, 2, 1, 1);
  pair<3>(a, b);
}
VP_ENTRY(tetrahedra)
{
  Request a = { 0, int(vp_choose("pa", 0, 8)), 0 };
  Request b = { 0, int(vp_choose("pb", 0, 8)), 0 };
  pair<3>(a, b);
}
VP_ENTRY(points)
{
  Request a = { 0, int(vp_choose("pa", 0, 20)), int(vp_choose("qa", 0, 6)) };
  Request b = { 0, int(vp_choose("pb", 0, 5)), int(vp_choose("qb", 0, 6)) };
  Snapshot<0> a1(get<double, 0>(a));
  Snapshot<0> b1(get<double, 0>(b));
  Snapshot<0> a2(get<double, 0>(a));
  a2.same(a1);
  vp_eqi(a1.v.size(), 1, "a point has one quadrature point");
  vp_eqi(b1.v.size(), 1, "a point has one quadrature point");
  vp_eq(a1.v[0], 1, "weight of the point");
  vp_eq(b1.v[0], 1, "weight of the point");
  vp_check(a1.type == GeometryType(0u, 0), "type of the rule");
}
// rules of higher dimension are built from those of lower dimension
template<int d1, int d2> void nested(int hi)
{
  bool first = vp_choose("first", 0, 1);
  int q = vp_choose("q", 0, 6);
  Request a = { unsigned(vp_choose("ta", 0, (1 << d1) - 1)), int(vp_choose("pa", 1, hi)), q };
  Request b = { unsigned(vp_choose("tb", 0, (1 << d2) - 1)), int(vp_choose("pb", 1, hi)), q };
  if (first) get<double, d2>(b);
  Snapshot<d1> a1(get<double, d1>(a));
  Snapshot<d2> b1(get<double, d2>(b));
  Snapshot<d1> a2(get<double, d1>(a));
  a2.same(a1);
  Snapshot<d2> b2(get<double, d2>(b));
  b2.same(b1);
  if (first) fresh<d1>(a1, a);
  fresh<d2>(b1, b);
  fresh<d1>(a1, a);
}
VP_ENTRY(nested12) { nested<1, 2>(3); }
VP_ENTRY(nested13) { nested<1, 3>(1); }
VP_ENTRY(nested23) { nested<2, 3>(1); }
// three requests of the same family
VP_ENTRY(triple)
{
  int q = vp_choose("q", 0, 6);
  Request r[3];
  for (int i = 0; i < 3; ++i) {
    r[i].topo = vp_choose("topology", 0, 1);
    r[i].p = vp_choose("p", 0, 4);
    r[i].q = q;
  }
  Snapshot<1> s0(get<double, 1>(r[0]));
  Snapshot<1> s1(get<double, 1>(r[1]));
  Snapshot<1> s2(get<double, 1>(r[2]));
  Snapshot<1>(get<double, 1>(r[0])).same(s0);
  Snapshot<1>(get<double, 1>(r[1])).same(s1);
  Snapshot<1>(get<double, 1>(r[2])).same(s2);
  fresh<1>(s2, r[2]);
  fresh<1>(s1, r[1]);
  fresh<1>(s0, r[0]);
}
