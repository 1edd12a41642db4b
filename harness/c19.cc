// C19: quadrature requests are honoured or rejected.
#include "vp.hh"
#include <limits>
#include <dune/common/fvector.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/type.hh>
#include "quadmodel.hh"
using namespace Dune;

template<int dim> void look(const QuadratureRule<double, dim>& r, unsigned topo, int p, int q)
{
  vp_check(r.type() == GeometryType(topo, dim), "type of the rule");
  vp_check(r.order() >= p, "order of the rule");
  vp_check(r.size() > 0, "rule has points");
  double vol = 0;
  for (std::size_t i = 0; i < r.size(); ++i) {
    double x[3];
    for (int k = 0; k < dim; ++k) x[k] = r[i].position()[k];
    vp_check(QuadModel::inside(topo, dim, x, 1e-12), "points lie inside the element");
    vol += r[i].weight();
  }
  const int zero[3] = { 0, 0, 0 };
  // the weighted Gauss-Jacobi families integrate against a weight function
  if (q != 1 && q != 2)
    vp_near(vol, QuadModel::monomial(topo, dim, zero), 1e-12, "sum of the weights");
}

// every order of type int; the rules of orders between lo and hi are built
template<int dim> void request(int q, int lo, int hi)
{
  unsigned t = vp_choose("topology", 0, (1 << dim) - 1);
  GeometryType gt(t, dim);
  auto qt = QuadratureType::Enum(q);
  const long long max = QuadratureRules<double, dim>::maxOrder(gt, qt);
  // no table ends before these orders
  vp_check(max >= (q < 4 ? 59 : 28), "advertised order");
  const int least = std::numeric_limits<int>::min(), most = std::numeric_limits<int>::max();
  // single orders first, so that a failure is found early
  int region = vp_choose("region", 0, 5);
  int p = region == 0 ? int(max) + 1 : region == 1 ? -1 : region == 2 ? most : region == 3 ? least
        : region == 4 ? vp_int("p", least, most) : vp_int("p", lo, hi);
  if (p < 0) {
    vp_reach("negative order");
    bool thrown = false;
    try { QuadratureRules<double, dim>::rule(gt, p, qt); } catch (const Exception&) { thrown = true; }
    vp_check(thrown, "negative orders are rejected");
    return;
  }
  if (p > max) {
    bool thrown = false;
    try { QuadratureRules<double, dim>::rule(gt, p, qt); }
    catch (const QuadratureOrderOutOfRange&) { thrown = true; }
    vp_check(thrown, "orders beyond the advertised one are rejected");
    return;
  }
  if (region == 4) vp_skip();
  vp_assume(p >= lo && p <= hi);
  look<dim>(QuadratureRules<double, dim>::rule(gt, p, qt), t, p, q);
}

// selecting the shape by its name
template<int dim> void name(int b, unsigned topo, int maxp)
{
  auto qt = QuadratureType::Enum(vp_choose("type", 0, 6));
  int p = vp_choose("p", 0, maxp);
  auto& r = QuadratureRules<double, dim>::rule(GeometryType::BasicType(b), p, qt);
  look<dim>(r, topo, p, qt);
  auto& s = QuadratureRules<double, dim>::rule(GeometryType(topo, dim), p, qt);
  vp_eqi(r.order(), s.order(), "order of a rule selected by name");
  vp_eqi(r.size(), s.size(), "points of a rule selected by name");
  for (std::size_t i = 0; i < r.size(); ++i) {
    VP::eqv(r[i].position(), s[i].position(), "points of a rule selected by name");
    vp_eq(r[i].weight(), s[i].weight(), "weights of a rule selected by name");
  }
}

// default family and the fields of a point
VP_ENTRY(defaults)
{
  int p = vp_choose("p", 0, 12);
  unsigned t = vp_choose("topology", 0, 3);
  GeometryType gt(t, 2);
  vp_check(&QuadratureRules<double, 2>::rule(gt, p) == (&QuadratureRules<double, 2>::rule(gt, p, QuadratureType::GaussLegendre)), "default family");
  vp_eqi(QuadratureRules<double, 2>::maxOrder(gt), QuadratureRules<double, 2>::maxOrder(gt, QuadratureType::GaussLegendre), "default family");
  for (auto&& q : QuadratureRules<double, 2>::rule(gt, p)) {
    auto [x, w] = q;
    VP::eqv(x, q.position(), "structured binding of a point");
    vp_eq(w, q.weight(), "structured binding of a point");
  }
}
VP_ENTRY(empty)
{
  QuadratureRule<double, 2> r;
  vp_eqi(r.size(), 0, "an empty rule");
  vp_eqi(r.order(), -1, "an empty rule");
}

VP_ENTRY(line) { int q = vp_choose("type", 0, 6); request<1>(q, 0, q == 3 ? 60 : 127); }
VP_ENTRY(two) { request<2>(vp_choose("type", 0, 6), 0, 12); }
VP_ENTRY(three) { request<3>(vp_choose("type", 0, 6), 0, 3); }
VP_ENTRY(top2)
{
  int q = vp_choose("type", 0, 6);
  if (q == 3) vp_skip();
  request<2>(q, q < 3 ? 60 : 29, 127);
}
VP_ENTRY(top3)
{
  int q = vp_choose("type", 4, 6);
  request<3>(q, 29, 127);
}
VP_ENTRY(names1) { name<1>(GeometryType::simplex, 0, 3); }
VP_ENTRY(names1c) { name<1>(GeometryType::cube, 1, 3); }
VP_ENTRY(names2) { name<2>(GeometryType::simplex, 0, 3); }
VP_ENTRY(names2c) { name<2>(GeometryType::cube, 3, 3); }
VP_ENTRY(names3) { name<3>(GeometryType::simplex, 0, 3); }
VP_ENTRY(names3c) { name<3>(GeometryType::cube, 7, 2); }
VP_ENTRY(names3p) { name<3>(GeometryType::prism, 5, 3); }
VP_ENTRY(names3y) { name<3>(GeometryType::pyramid, 3, 3); }
