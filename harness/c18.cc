// C18: quadrature rules integrate all polynomials up to their order.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/type.hh>
#include "quadmodel.hh"
using namespace Dune;

static const double TOL = 1e-12;

// powers of the coordinates of all points
template<int dim> struct Powers
{
  int n, deg;
  std::vector<double> v;
  template<class R> Powers(const R& r, int deg_) : n(r.size()), deg(deg_), v(r.size()*dim*(deg_ + 1))
  {
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < dim; ++k) {
        double x = 1, y = r[i].position()[k];
        for (int d = 0; d <= deg; ++d) { v[(i*dim + k)*(deg + 1) + d] = x; x *= y; }
      }
  }
  double operator()(int i, int k, int d) const { return v[(i*dim + k)*(deg + 1) + d]; }
};

template<int dim, class R> double moment(const R& r, const Powers<dim>& pw, const int* e)
{
  double s = 0;
  for (int i = 0; i < pw.n; ++i) {
    double t = r[i].weight();
    for (int k = 0; k < dim; ++k) if (e[k]) t *= pw(i, k, e[k]);
    s += t;
  }
  return s;
}

template<int dim, class R> void common(const R& r, unsigned topo, int p)
{
  vp_check(r.type() == GeometryType(topo, dim), "type of the rule");
  vp_check(r.order() >= p, "order of the rule");
  vp_check(r.size() > 0, "rule has points");
  for (std::size_t i = 0; i < r.size(); ++i) {
    double x[4];
    for (int k = 0; k < dim; ++k) x[k] = r[i].position()[k];
    vp_check(QuadModel::inside(topo, dim, x, TOL), "points lie inside the element");
  }
}

// every polynomial of degree <= order
template<int dim> void full(unsigned topo, int p, QuadratureType::Enum qt)
{
  auto& r = QuadratureRules<double, dim>::rule(GeometryType(topo, dim), p, qt);
  common<dim>(r, topo, p);
  const int deg = r.order();
  Powers<dim> pw(r, deg);
  double err = 0;
  int e[4];
  for (e[0] = 0; e[0] <= deg; ++e[0])
    for (e[1] = 0; e[1] <= (dim > 1 ? deg - e[0] : 0); ++e[1])
      for (e[2] = 0; e[2] <= (dim > 2 ? deg - e[0] - e[1] : 0); ++e[2])
       for (e[3] = 0; e[3] <= (dim > 3 ? deg - e[0] - e[1] - e[2] : 0); ++e[3]) {
        double c = vp_real("c", -1, 1);
        err += c*(moment<dim>(r, pw, e) - QuadModel::monomial(topo, dim, e));
      }
  vp_near(err, 0, TOL, "polynomials up to the order are integrated");
}

// a family of polynomials of the highest degree
template<int dim> void top(unsigned topo, int p, QuadratureType::Enum qt)
{
  auto& r = QuadratureRules<double, dim>::rule(GeometryType(topo, dim), p, qt);
  common<dim>(r, topo, p);
  const int deg = r.order();
  Powers<dim> pw(r, deg);
  double err = 0;
  auto add = [&](int a, int b, int c, int d = 0) {
    int e[4] = { a, b, c, d };
    double f = vp_real("c", -1, 1);
    err += f*(moment<dim>(r, pw, e) - QuadModel::monomial(topo, dim, e));
  };
  add(0, 0, 0);
  add(deg, 0, 0);
  add(0, deg, 0);
  add(deg - deg/2, deg/2, 0);
  if (dim >= 3) {
    add(0, 0, deg);
    add(0, deg - deg/2, deg/2);
    add(deg - 2*(deg/3), deg/3, deg/3);
  }
  if (dim == 4) {
    add(0, 0, 0, deg);
    add(0, deg - deg/2, 0, deg/2);
    add(0, 0, deg - deg/2, deg/2);
    add(deg - 3*(deg/4), deg/4, deg/4, deg/4);
  }
  vp_near(err, 0, TOL, "polynomials of the highest degree are integrated");
}

// rules on the line with weight function (2(1-x))^alpha
static void line(QuadratureType::Enum qt, int alpha, int maxp)
{
  int p = vp_choose("p", 0, maxp);
  unsigned t = vp_choose("topology", 0, 1);
  auto& r = QuadratureRules<double, 1>::rule(GeometryType(t, 1), p, qt);
  common<1>(r, t, p);
  const int deg = r.order();
  Powers<1> pw(r, deg);
  double err = 0, scale = alpha == 2 ? 4 : alpha == 1 ? 2 : 1;
  for (int e = 0; e <= deg; ++e) {
    double c = vp_real("c", -1, 1);
    err += c*(moment<1>(r, pw, &e) - scale*QuadModel::line(e, alpha));
  }
  vp_near(err, 0, TOL, "polynomials up to the order are integrated");
  int left = 0, right = 0;
  for (std::size_t i = 0; i < r.size(); ++i) {
    double x = r[i].position()[0];
    if (x < 1e-15) ++left;
    if (x > 1 - 1e-15) ++right;
  }
  if (qt == QuadratureType::GaussLobatto || qt == QuadratureType::GaussRadauLeft)
    vp_eqi(left, 1, "the left end is a point of the rule");
  if (qt == QuadratureType::GaussLobatto || qt == QuadratureType::GaussRadauRight)
    vp_eqi(right, 1, "the right end is a point of the rule");
}

static const QuadratureType::Enum plain[5] = { QuadratureType::GaussLegendre, QuadratureType::GaussJacobi_n_0,
  QuadratureType::GaussLobatto, QuadratureType::GaussRadauLeft, QuadratureType::GaussRadauRight };
// highest order checked; Gauss-Jacobi rules beyond 60 are computed by LAPACK
static const int highest[5] = { 61, 60, 31, 30, 30 };

// degree: orders up to full are checked with all polynomials, up to last with a family
template<int dim> void multi(int from, int fullTo, int last)
{
  unsigned t = vp_choose("topology", 0, (1 << dim) - 1);
  int q = vp_choose("type", 0, 4);
  // Gauss-Jacobi rules with exponent three are computed by LAPACK
  if (dim == 4 && q == 1 && t < 8) vp_skip();
  // the highest order is reduced by the weight of the conical product
  int hi = highest[q];
  GeometryType gt(t, dim);
  int adv = QuadratureRules<double, dim>::maxOrder(gt, plain[q]);
  if (adv < hi) hi = adv;
  vp_check(adv >= (q < 2 ? 59 : 28) - (dim == 4), "advertised order");
  if (last < hi) hi = last;
  if (from > hi) vp_skip();
  int p = vp_choose("p", from, hi);
  if (p <= fullTo) full<dim>(t, p, plain[q]);
  else top<dim>(t, p, plain[q]);
}

VP_ENTRY(gauss) { line(QuadratureType::GaussLegendre, 0, 61); }
VP_ENTRY(jacobi1) { line(QuadratureType::GaussJacobi_1_0, 1, 61); }
VP_ENTRY(jacobi2) { line(QuadratureType::GaussJacobi_2_0, 2, 61); }
VP_ENTRY(jacobin) { line(QuadratureType::GaussJacobi_n_0, 0, 60); }
VP_ENTRY(lobatto) { line(QuadratureType::GaussLobatto, 0, 31); }
VP_ENTRY(radaul) { line(QuadratureType::GaussRadauLeft, 0, 30); }
VP_ENTRY(radaur) { line(QuadratureType::GaussRadauRight, 0, 30); }
VP_ENTRY(point)
{
  unsigned t = vp_choose("topology", 0, 0);
  int p = vp_int("p", 0, 2147483647);
  auto& r = QuadratureRules<double, 0>::rule(GeometryType(t, 0), p, QuadratureType::Enum(vp_choose("type", 0, 6)));
  vp_check(r.type() == GeometryTypes::vertex, "type of the rule");
  vp_eqi(r.size(), 1, "points of the rule");
  vp_eq(r[0].weight(), 1, "weight of the rule");
  vp_check(r.order() >= p, "order of the rule");
}
VP_ENTRY(two) { multi<2>(0, 14, 40); }
VP_ENTRY(three) { multi<3>(0, 7, 14); }
VP_ENTRY(four) { multi<4>(0, 3, 5); }
VP_ENTRY(four_T) { multi<4>(4, 5, 10); }
VP_ENTRY(two_T) { multi<2>(15, 24, 61); }
VP_ENTRY(three_T) { multi<3>(8, 10, 30); }
