// C10: multilinear geometry: inverse map, inverse Jacobian, integration element.
#include "vp.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "gram.hh"
#include "mlfamily.hh"
#include "mlmodel.hh"
using namespace Dune;

static const double B = 10;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

// a point of the reference element: a corner, a point of the edge between the two
// last corners of a tetrahedron, or any point keeping a distance of 1e-3 from them
template<int m> void mlPoint(unsigned topo, FieldVector<double, m>& x, double* p)
{
  const unsigned t = topo >> 1;
  const bool tri = m == 2 && t == 0, tet = m == 3 && t == 0, prism = m == 3 && t == 2;
  int where = vp_choose("where", 0, tet ? 2 : 1);
  if (where == 1) {
    RefModel r;
    r.build(topo, m);
    int i = vp_choose("corner", 0, r.nc - 1);
    for (int k = 0; k < m; ++k) p[k] = r.corner[i][k];
  } else if (where == 2) {
    p[0] = 0;
    p[1] = 1 - p[2];
    vp_assume_ge(p[2], 1e-3);
    vp_assume_ge(1 - 1e-3, p[2]);
  } else {
    mlInside(topo, m, p);
    if (tri || prism) vp_assume_ge(1 - 1e-3, p[1]);
    if (tet) vp_assume_ge(1 - 1e-3, p[1] + p[2]);
  }
  for (int k = 0; k < m; ++k) x[k] = p[k];
}

template<class Geo, int m, int w>
void regularPoint(unsigned topo, bool flat)
{
  using V = FieldVector<double, w>;
  V o = VP::vec<V>("o", -B, B), a[3], d[4];
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) J[k] = VP::vec<V>("J", -B, B);
  FieldVector<double, m> x;
  double p[3] = {0, 0, 0}, q[4], dq[4][3];
  for (int k = 0; k < m; ++k) x[k] = p[k] = vp_real("x", 0, 1);
  if (m == 3 && (topo >> 1) == 1) {
    // pyramid: point (u(1-z), v(1-z), z)
    vp_assume_ge(1 - 1e-3, p[2]);
    for (int k = 0; k < 2; ++k) x[k] = p[k] = p[k]*(1 - p[2]);
  } else mlPoint<m>(topo, x, p);
  int n = flat ? 0 : mlMonomials(topo, m, p, q, dq);
  for (int j = 0; j < 4; ++j) d[j] = 0;
  for (int j = 0; j < n; ++j) d[j] = VP::vec<V>("d", -B, B);
  if (n) { int j = vp_choose("comp", 0, w-1); vp_assume_ge(d[0][j], 0.01); }
  for (int k = 0; k < m; ++k) {
    a[k] = J[k];
    for (int j = 0; j < n; ++j) for (int i = 0; i < w; ++i) a[k][i] -= dq[j][k]*d[j][i];
  }
  Gram<m, w> G(J);
  G.regular();
  auto c = mlCorners<m, w>(topo, o, a, d);
  Geo g(GeometryType(topo, m), c);
  auto jt = g.jacobianTransposed(x);
  VP::eqm(jt, J, "jacobianTransposed");
  auto jit = g.jacobianInverseTransposed(x);
  auto ji = g.jacobianInverse(x);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < w; ++j) vp_eq(ji[i][j], jit[j][i], "jacobianInverse is the transpose");
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int j = 0; j < w; ++j) s += ji[i][j]*J[k][j];
      vp_eq(s, i == k, "jacobianInverse is a left inverse");
    }
    for (int j = 0; j < w; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += G.G[i][k]*ji[k][j];
      vp_eq(s, J[i][j], "jacobianInverse is the pseudo-inverse");
    }
  }
  double mu = g.integrationElement(x);
  vp_check(mu > 0, "integration element positive");
  vp_eq(mu*mu, G.det(), "integration element squared is the Gram determinant");
  vp_eq(jit.detInv(), mu, "determinant stored with the inverse");
  vp_eq(jit.det()*mu, 1, "determinant stored with the inverse");
  if (n == 0) {
    vp_check(g.affine(), "affine map reported affine");
    RefModel r;
    r.build(topo, m);
    vp_eq(g.volume(), mu*r.volume(), "volume of an affine element");
    VP::eqv(g.local(g.global(x)), x, "local inverts global");
  } else
    vp_check(!g.affine(), "non-affine map not reported affine");
}

// the affinity flag for all maps of the shape
template<class Geo, int m, int w> void flag(unsigned topo)
{
  using V = FieldVector<double, w>;
  V o = VP::vec<V>("o", -B, B), a[3], d[4];
  for (int k = 0; k < m; ++k) a[k] = VP::vec<V>("a", -B, B);
  int n = mlMonomialCount(topo, m);
  int which = vp_choose("which", 0, n);
  for (int j = 0; j < n; ++j) {
    if (which == n) d[j] = 0;
    else d[j] = VP::vec<V>("d", -B, B);
  }
  if (which < n) {
    double v = d[which][vp_choose("comp", 0, w-1)];
    if (vp_choose("sign", 0, 1)) vp_assume_ge(v, 1e-2);
    else vp_assume_ge(-1e-2, v);
  }
  auto c = mlCorners<m, w>(topo, o, a, d);
  Geo g(GeometryType(topo, m), c);
  bool is = g.affine();
  if (which == n) vp_check(is, "affine map reported affine");
  else vp_check(!is, "non-affine map not reported affine");
}

// Newton's method on maps A(x, y + k x y) (+ z) reaches the preimage
template<class Geo, int m, int w> void newton(unsigned topo)
{
  using V = FieldVector<double, w>;
  V o = VP::vec<V>("o", -1, 1), a[3], d[4];
  for (int k = 0; k < m; ++k) {
    a[k] = 0;
    a[k][k] = vp_real("a", 0.5, 2);
  }
  double kappa = vp_real("kappa", 0.1, 1);
  for (int j = 0; j < 4; ++j) d[j] = 0;
  if (m == 2) for (int i = 0; i < w; ++i) d[0][i] = kappa*a[1][i];
  else for (int i = 0; i < w; ++i) d[topo >> 1 == 3 ? 1 : 0][i] = kappa*a[2][i];
  auto c = mlCorners<m, w>(topo, o, a, d);
  Geo g(GeometryType(topo, m), c);
  FieldVector<double, m> p = VP::vec<FieldVector<double, m>>("p", 0, 1);
  if (m == 3 && (topo >> 1) == 2) vp_assume_ge(1 - 1e-3, p[1]);
  V y = g.global(p);
  auto x = g.local(y);
  VP::eqv(g.global(x), y, "local returns a preimage");
}

template<int m, int w> using Plain = MultiLinearGeometry<double, m, w>;
template<int m, int w> using Cached = CachedMultiLinearGeometry<double, m, w>;

#define POINT(n, m, w, topo, flat) \
  VP_ENTRY(n) { regularPoint<Plain<m, w>, m, w>(topo, flat); } \
  VP_ENTRY(c##n) { regularPoint<Cached<m, w>, m, w>(topo, flat); }

POINT(line11, 1, 1, vp_choose("bit", 0, 1), true)
POINT(line12, 1, 2, 1, true)
POINT(line13, 1, 3, 0, true)
POINT(tri22, 2, 2, vp_choose("bit", 0, 1), true)
POINT(tri23, 2, 3, 1, true)
POINT(tet, 3, 3, vp_choose("bit", 0, 1), true)
POINT(flat22, 2, 2, 3, true)
POINT(flat23, 2, 3, 3, true)
POINT(flatpyr, 3, 3, 3, true)
POINT(flatpri, 3, 3, 5, true)
POINT(flathex, 3, 3, 7, true)
POINT(quad22, 2, 2, 3, false)
POINT(quad23, 2, 3, 2, false)
POINT(pyr, 3, 3, 3, false)
POINT(pri, 3, 3, 5, false)
POINT(hex, 3, 3, 7, false)

VP_ENTRY(fline) { flag<Plain<1, 2>, 1, 2>(1); }
VP_ENTRY(ftri) { flag<Plain<2, 2>, 2, 2>(1); }
VP_ENTRY(fquad) { flag<Plain<2, 2>, 2, 2>(3); }
VP_ENTRY(fquad3) { flag<Plain<2, 3>, 2, 3>(3); }
VP_ENTRY(fpyr) { flag<Plain<3, 3>, 3, 3>(3); }
VP_ENTRY(fpri) { flag<Plain<3, 3>, 3, 3>(5); }
VP_ENTRY(fhex) { flag<Plain<3, 3>, 3, 3>(7); }
VP_ENTRY(cfhex) { flag<Cached<3, 3>, 3, 3>(6); }

VP_ENTRY(nquad) { newton<Plain<2, 2>, 2, 2>(3); }
VP_ENTRY(npri) { newton<Plain<3, 3>, 3, 3>(5); }
VP_ENTRY(nhex) { newton<Cached<3, 3>, 3, 3>(7); }
