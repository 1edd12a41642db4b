// C21: composite quadrature keeps the order of its base rule.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/type.hh>
#include "quadmodel.hh"
using namespace Dune;

static const bool warm = [] {
  ReferenceElements<double, 1>::simplex();
  ReferenceElements<double, 2>::simplex();
  ReferenceElements<double, 3>::simplex();
  return true;
}();

template<int dim> int factorial() { return dim == 3 ? 6 : dim == 2 ? 2 : 1; }

static int power(int n, int d) { return d == 0 ? 1 : n*power(n, d - 1); }

template<int dim> double mono(const FieldVector<double, dim>& x, const int* e)
{
  double r = 1;
  for (int k = 0; k < dim; ++k)
    for (int d = 0; d < e[k]; ++d) r *= x[k];
  return r;
}

static RefinementIntervals intervals(int maxn, int& n)
{
  if (vp_choose("levels", 0, 1)) {
    int l = vp_choose("level", 0, maxn >= 8 ? 3 : maxn >= 4 ? 2 : 1);
    n = 1 << l;
    return refinementLevels(l);
  }
  n = vp_choose("intervals", 1, maxn);
  return refinementIntervals(n);
}

// every polynomial up to the order of the base rule
template<int dim> void exact(int maxp, int maxn)
{
  int n;
  auto iv = intervals(maxn, n);
  int q = vp_choose("type", 0, 4);
  static const QuadratureType::Enum plain[5] = { QuadratureType::GaussLegendre, QuadratureType::GaussJacobi_n_0,
    QuadratureType::GaussLobatto, QuadratureType::GaussRadauLeft, QuadratureType::GaussRadauRight };
  int p = vp_choose("p", 0, maxp);
  auto& base = QuadratureRules<double, dim>::rule(GeometryTypes::simplex(dim), p, plain[q]);
  CompositeQuadratureRule<double, dim> r(base, iv);
  vp_check(r.type() == GeometryTypes::simplex(dim), "type of the rule");
  vp_check(r.order() >= p, "order of the rule");
  vp_check(r.order() <= base.order(), "order of the rule");
  vp_eqi(r.size(), base.size()*power(n, dim), "number of points");
  const int deg = base.order();
  double err = 0;
  int e[3];
  for (e[0] = 0; e[0] <= deg; ++e[0])
    for (e[1] = 0; e[1] <= (dim > 1 ? deg - e[0] : 0); ++e[1])
      for (e[2] = 0; e[2] <= (dim > 2 ? deg - e[0] - e[1] : 0); ++e[2]) {
        double c = vp_real("c", -1, 1), s = 0;
        for (auto&& x : r) s += x.weight()*mono<dim>(x.position(), e);
        err += c*(s - QuadModel::monomial(0, dim, e));
      }
  vp_near(err, 0, 1e-10, "polynomials up to the order are integrated");
  for (auto&& x : r) {
    double y[3];
    for (int k = 0; k < dim; ++k) y[k] = x.position()[k];
    vp_check(QuadModel::inside(0, dim, y, 1e-10), "points lie inside the element");
  }
}

// a base rule of arbitrary points and weights
template<int dim> struct Base : QuadratureRule<double, dim>
{
  Base(int order) : QuadratureRule<double, dim>(GeometryTypes::simplex(dim), order) {}
  void add(const double* b, const int* perm, double w)
  {
    FieldVector<double, dim> x;
    for (int k = 0; k < dim; ++k) x[k] = b[perm[k]];
    this->emplace_back(x, w);
  }
};

template<int dim> using Refine = StaticRefinement<GeometryTypes::simplex(dim).id(), double, GeometryTypes::simplex(dim).id(), dim>;

// all permutations of the barycentric coordinates b carry the weight w: the
// functional does not depend on the numbering of the corners of a subelement
template<int dim> void orbit(Base<dim>& base, const double* b, double w)
{
  int p[4];
  if (dim == 1) { p[0] = 0; base.add(b, p, w); p[0] = 1; base.add(b, p, w); return; }
  for (p[0] = 0; p[0] <= dim; ++p[0])
    for (p[1] = 0; p[1] <= dim; ++p[1])
      if (p[0] != p[1]) {
        if (dim == 2) base.add(b, p, w);
        else
          for (p[2] = 0; p[2] <= dim; ++p[2])
            if (p[2] != p[0] && p[2] != p[1]) base.add(b, p, w);
      }
}

template<int dim> void symbolic(int maxn, int maxdeg)
{
  int n;
  auto iv = intervals(maxn, n);
  double b[4], last = 1;
  for (int k = 0; k < dim; ++k) { b[k] = vp_real("b", 0, 1); last -= b[k]; }
  b[dim] = last;
  double w = vp_real("w", -2, 2), w2 = vp_real("w2", -2, 2);
  int order = vp_int("order", 0, 100);
  Base<dim> base(order);
  orbit<dim>(base, b, w);
  // the barycentre has a weight of its own
  double c[4] = { 1.0/(dim + 1), 1.0/(dim + 1), 1.0/(dim + 1), 1.0/(dim + 1) };
  int id[4] = { 0, 1, 2, 3 };
  base.add(c, id, w2);
  CompositeQuadratureRule<double, dim> r(base, iv);
  vp_check(r.type() == GeometryTypes::simplex(dim), "type of the rule");
  vp_eqi(r.order(), order, "order of the rule");
  vp_eqi(r.size(), base.size()*power(n, dim), "number of points");
  double total = 0, sum = 0;
  for (auto&& x : r) total += x.weight();
  for (auto&& x : base) sum += x.weight();
  vp_eq(total, sum, "total weight");
  int e[3];
  for (e[0] = 0; e[0] <= maxdeg; ++e[0])
    for (e[1] = 0; e[1] <= (dim > 1 ? maxdeg - e[0] : 0); ++e[1])
      for (e[2] = 0; e[2] <= (dim > 2 ? maxdeg - e[0] - e[1] : 0); ++e[2]) {
        double s = 0, t = 0;
        for (auto&& x : r) s += x.weight()*mono<dim>(x.position(), e);
        for (auto el = Refine<dim>::eBegin(iv); el != Refine<dim>::eEnd(iv); ++el) {
          auto g = el.geometry();
          for (auto&& x : base) {
            FieldVector<double, dim> y(0);
            double l0 = 1;
            for (int k = 0; k < dim; ++k) { l0 -= x.position()[k]; y.axpy(x.position()[k], g.corner(k + 1)); }
            y.axpy(l0, g.corner(0));
            t += x.weight()/power(n, dim)*mono<dim>(y, e);
          }
        }
        vp_eq(s, t, "sum of the rules on the subelements");
      }
}

VP_ENTRY(line) { exact<1>(9, 8); }
VP_ENTRY(triangle) { exact<2>(5, 4); }
VP_ENTRY(tetrahedron) { exact<3>(3, 2); }
VP_ENTRY(line_any) { symbolic<1>(8, 4); }
VP_ENTRY(triangle_any) { symbolic<2>(4, 3); }
VP_ENTRY(tetrahedron_any) { symbolic<3>(2, 2); }
VP_ENTRY(triangle_T) { exact<2>(9, 8); }
VP_ENTRY(tetrahedron_T) { exact<3>(5, 4); }
