// C13: local finite-element geometry.
#ifdef VOLUME
#include "c13v.hh"
#else
#include "vp.hh"
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "gram.hh"
#include "lfe.hh"
#include "mlfamily.hh"
#include "mlmodel.hh"
using namespace Dune;

static const double B = 10;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int m> FieldVector<double, m> point(unsigned topo)
{
  FieldVector<double, m> x;
  double p[3] = {0, 0, 0};
  for (int k = 0; k < m; ++k) x[k] = p[k] = vp_real("x", 0, 1);
  mlInside(topo, m, p);
  if (m == 3 && (topo >> 1) == 1) vp_assume_ge(1 - 1e-3, p[2]);
  return x;
}

template<class Geo, class LFE, class C> void expansion(const Geo& g, const LFE& fe, unsigned topo, const C& c)
{
  constexpr int m = Geo::mydimension, w = Geo::coorddimension;
  using X = FieldVector<double, m>;
  using V = FieldVector<double, w>;
  auto image = [&](const X& x) {
    auto v = fe.localBasis().values(x);
    V y(0);
    for (int i = 0; i < v.n; ++i) for (int j = 0; j < w; ++j) y[j] += v.N[i]*c[i][j];
    return y;
  };
  vp_check(g.type() == GeometryType(topo, m), "type");
  vp_check(referenceElement(g).type() == g.type(), "reference element");
  vp_eqi(g.order(), fe.localBasis().order(), "order");
  vp_eqi(g.coefficients().size(), fe.size(), "number of coefficients");
  for (std::size_t i = 0; i < fe.size(); ++i) VP::eqv(g.coefficients()[i], c[i], "coefficient");
  RefModel r;
  r.build(topo, m);
  vp_eqi(g.corners(), r.nc, "number of corners");
  X bary(0);
  for (int i = 0; i < r.nc; ++i) {
    X p;
    for (int k = 0; k < m; ++k) { p[k] = r.corner[i][k]; bary[k] += double(r.corner[i][k])/r.nc; }
    if (m == 3 && (topo >> 1) == 1 && i == 4) continue;     // the test basis is singular at the apex
    VP::eqv(g.corner(i), image(p), "corner");
  }
  VP::eqv(g.center(), image(bary), "center");
  X x = point<m>(topo);
  VP::eqv(g.global(x), image(x), "global");
  auto v = fe.localBasis().values(x);
  auto jac = g.jacobian(x);
  auto jt = g.jacobianTransposed(x);
  for (int j = 0; j < w; ++j)
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int i = 0; i < v.n; ++i) s += v.D[i][k]*c[i][j];
      vp_eq(jac[j][k], s, "jacobian");
      vp_eq(jt[k][j], s, "jacobianTransposed");
    }
}

template<int m, int w, bool quadratic> void expand(unsigned topo)
{
  using LFE = TestLFE<m, quadratic>;
  using V = FieldVector<double, w>;
  using Geo = LocalFiniteElementGeometry<LFE, w>;
  LFE fe(topo);
  std::vector<V> c(fe.size());
  for (auto& v : c) v = VP::vec<V>("c", -B, B);
  GeometryType gt(topo, m);
  int how = vp_choose("how", 0, 3);
  if (how == 0) expansion(Geo(gt, fe, c), fe, topo, c);
  else if (how == 1) expansion(Geo(ReferenceElements<double, m>::general(gt), fe, c), fe, topo, c);
  else if (how == 2) { Geo h(gt, fe, c), g; g = h; Geo k(g); expansion(k, fe, topo, c); }
  else {
    // coefficients interpolated from a parametrization
    V b = VP::vec<V>("b", -B, B);
    FieldVector<double, w> A[3];
    for (int k = 0; k < m; ++k) A[k] = VP::vec<V>("A", -B, B);
    auto f = [&](const FieldVector<double, m>& x) {
      V y = b;
      for (int k = 0; k < m; ++k) for (int j = 0; j < w; ++j) y[j] += A[k][j]*x[k]*(quadratic && k == 0 ? x[0] : 1);
      return y;
    };
    std::vector<V> ci;
    fe.localInterpolation().interpolate(f, ci);
    expansion(Geo(gt, fe, f), fe, topo, ci);
  }
}

// linear bases: the same as the multilinear geometry, inverse Jacobians
template<int m, int w> void linear(unsigned topo, bool flat)
{
  using LFE = TestLFE<m, false>;
  using V = FieldVector<double, w>;
  V o = VP::vec<V>("o", -B, B), a[3], d[4];
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) J[k] = VP::vec<V>("J", -B, B);
  FieldVector<double, m> x;
  double p[3] = {0, 0, 0}, q[4], dq[4][3];
  for (int k = 0; k < m; ++k) x[k] = p[k] = vp_real("x", 0, 1);
  mlInside(topo, m, p);
  const unsigned t = topo >> 1;
  if ((m == 2 && t == 0) || (m == 3 && t == 2)) vp_assume_ge(1 - 1e-3, p[1]);
  if (m == 3 && t == 0) vp_assume_ge(1 - 1e-3, p[1] + p[2]);
  if (m == 3 && t == 1) vp_assume_ge(1 - 1e-3, p[2]);
  int n = flat ? 0 : mlMonomials(topo, m, p, q, dq);
  for (int j = 0; j < 4; ++j) d[j] = 0;
  for (int j = 0; j < n; ++j) d[j] = VP::vec<V>("d", -B, B);
  if (n) vp_assume_ge(d[0][vp_choose("comp", 0, w-1)], 0.01);
  for (int k = 0; k < m; ++k) {
    a[k] = J[k];
    for (int j = 0; j < n; ++j) for (int i = 0; i < w; ++i) a[k][i] -= dq[j][k]*d[j][i];
  }
  Gram<m, w> G(J);
  G.regular();
  auto c = mlCorners<m, w>(topo, o, a, d);
  GeometryType gt(topo, m);
  LocalFiniteElementGeometry<LFE, w> g(gt, LFE(topo), c);
  MultiLinearGeometry<double, m, w> ml(gt, c);
  VP::eqv(g.global(x), ml.global(x), "global like the multilinear geometry");
  VP::eqm(g.jacobian(x), ml.jacobian(x), "jacobian like the multilinear geometry");
  VP::eqm(g.jacobianTransposed(x), J, "jacobianTransposed");
  auto ji = g.jacobianInverse(x);
  auto jit = g.jacobianInverseTransposed(x);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < w; ++j) vp_eq(ji[i][j], jit[j][i], "jacobianInverse is the transpose");
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int j = 0; j < w; ++j) s += ji[i][j]*J[k][j];
      vp_eq(s, i == k, "jacobianInverse is a left inverse");
    }
    for (int j = 0; j < w; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += G.G[i][k]*ji[k][j];
      vp_eq(s, J[i][j], "jacobianInverse is the pseudo-inverse");
    }
  }
  double mu = g.integrationElement(x);
  vp_check(mu > 0, "integration element positive");
  vp_eq(mu*mu, G.det(), "integration element squared is the Gram determinant");
}

// the affinity flag
template<int m, int w> void flag(unsigned topo)
{
  using LFE = TestLFE<m, false>;
  using V = FieldVector<double, w>;
  V o = VP::vec<V>("o", -B, B), a[3], d[4];
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) J[k] = a[k] = VP::vec<V>("a", -B, B);
  Gram<m, w> G(J);
  G.regular();
  for (auto& v : d) v = 0;
  auto c = mlCorners<m, w>(topo, o, a, d);
  // displace the corners that are not corners of the reference simplex
  RefModel r;
  r.build(topo, m);
  int free[8], n = 0;
  for (int i = 0; i < r.nc; ++i) {
    int s = 0;
    for (int k = 0; k < m; ++k) s += r.corner[i][k];
    if (s > 1) free[n++] = i;
  }
  int which = vp_choose("which", 0, n);
  if (which < n) {
    for (int i = 0; i < n; ++i) c[free[i]] += VP::vec<V>("d", -B, B);
    int j = vp_choose("comp", 0, w-1);
    double v = c[free[which]][j] - o[j];
    for (int k = 0; k < m; ++k) if (r.corner[free[which]][k]) v -= a[k][j];
    if (vp_choose("sign", 0, 1)) vp_assume_ge(v, 1e-2);
    else vp_assume_ge(-1e-2, v);
  }
  LocalFiniteElementGeometry<LFE, w> g(GeometryType(topo, m), LFE(topo), c);
  for (int k = 0; k < 2; ++k) {
    auto h = g;
    bool is = k ? h.affine() : g.affine();
    if (which == n) vp_check(is, "affine map reported affine");
    else vp_check(!is, "non-affine map not reported affine");
  }
}

VP_ENTRY(l11) { expand<1, 1, false>(1); }
VP_ENTRY(l13) { expand<1, 3, false>(1); }
VP_ENTRY(tri22) { expand<2, 2, false>(1); }
VP_ENTRY(tri23) { expand<2, 3, false>(0); }
VP_ENTRY(quad22) { expand<2, 2, false>(3); }
VP_ENTRY(quad23) { expand<2, 3, false>(3); }
VP_ENTRY(tet) { expand<3, 3, false>(1); }
VP_ENTRY(pyr) { expand<3, 3, false>(3); }
VP_ENTRY(pri) { expand<3, 3, false>(5); }
VP_ENTRY(hex) { expand<3, 3, false>(7); }
VP_ENTRY(q11) { expand<1, 1, true>(1); }
VP_ENTRY(q12) { expand<1, 2, true>(1); }
VP_ENTRY(q22) { expand<2, 2, true>(1); }
VP_ENTRY(q23) { expand<2, 3, true>(1); }
VP_ENTRY(q33) { expand<3, 3, true>(1); }

VP_ENTRY(ml11) { linear<1, 1>(1, true); }
VP_ENTRY(ml12) { linear<1, 2>(1, true); }
VP_ENTRY(mltri) { linear<2, 2>(1, true); }
VP_ENTRY(mltri3) { linear<2, 3>(1, true); }
VP_ENTRY(mlquad) { linear<2, 2>(3, false); }
VP_ENTRY(mlquad3) { linear<2, 3>(3, false); }
VP_ENTRY(mltet) { linear<3, 3>(1, true); }
VP_ENTRY(mlpyr) { linear<3, 3>(3, false); }
VP_ENTRY(mlpri) { linear<3, 3>(5, false); }
VP_ENTRY(mlhex) { linear<3, 3>(7, false); }

VP_ENTRY(fline) { flag<1, 2>(1); }
VP_ENTRY(ftri) { flag<2, 2>(1); }
VP_ENTRY(fquad) { flag<2, 2>(3); }
VP_ENTRY(fquad3) { flag<2, 3>(3); }
VP_ENTRY(fpri) { flag<3, 3>(5); }
VP_ENTRY(fhex) { flag<3, 3>(7); }
VP_ENTRY(fquadratic)
{
  using V = FieldVector<double, 2>;
  TestLFE<2, true> fe(1);
  std::vector<V> c(fe.size());
  for (auto& v : c) v = VP::vec<V>("c", -B, B);
  LocalFiniteElementGeometry<TestLFE<2, true>, 2> g(GeometryTypes::simplex(2), fe, c);
  vp_check(!g.affine(), "higher order parametrization not reported affine");
}
#endif
