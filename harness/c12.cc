// C12: mapped geometry.
#ifdef VOLUME
#include "c12v.hh"
#else
#include "vp.hh"
#include <array>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "gram.hh"
#include "mlmodel.hh"
#include "quadmap.hh"
#include "refmodel.hh"
using namespace Dune;

static const double B = 10;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

// composition: all mappings and inner geometries of the family
template<int n, int w, class Inner>
void compose(const Inner& in, bool quadratic)
{
  constexpr int m = Inner::mydimension;
  using Map = QuadMap<n, w>;
  using Geo = MappedGeometry<Map, Inner>;
  Map f = Map::draw(B, quadratic);
  bool flag = vp_choose("affine", 0, 1);
  Geo g0(f, in, flag);
  Geo g = g0;                                      // a copy answers like the original
  Map other = f;
  other.b = 7;
  g0 = Geo(other, in, !flag);
  static_assert(Geo::mydimension == m && Geo::coorddimension == w);
  vp_eqi(g.affine(), flag, "affinity flag");
  vp_check(g.type() == in.type(), "type");
  vp_check(referenceElement(g).type() == in.type(), "reference element");
  vp_eqi(g.corners(), in.corners(), "number of corners");
  for (int i = 0; i < in.corners(); ++i) VP::eqv(g.corner(i), f.value(in.corner(i)), "corner");
  VP::eqv(g.center(), f.value(in.center()), "center");
  FieldVector<double, m> x = VP::vec<FieldVector<double, m>>("x", 0, 1);
  auto z = in.global(x);
  VP::eqv(g.global(x), f.value(z), "global");
  auto D = f.deriv(z);
  auto J = in.jacobianTransposed(x);
  auto jac = g.jacobian(x);
  auto jt = g.jacobianTransposed(x);
  for (int i = 0; i < w; ++i)
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int j = 0; j < n; ++j) {
        double e = 0;
        // row k of the inner transposed Jacobian, which may be of any matrix type
        FieldVector<double, m> ek(0);
        ek[k] = 1;
        FieldVector<double, n> col(0);
        J.mtv(ek, col);
        e = col[j];
        s += D[i][j]*e;
      }
      vp_eq(jac[i][k], s, "jacobian");
      vp_eq(jt[k][i], s, "jacobianTransposed");
    }
}

template<int m, int n, int w> void overAffine(bool quadratic)
{
  FieldVector<double, n> o = VP::vec<FieldVector<double, n>>("o", -B, B);
  FieldMatrix<double, m, n> J;
  for (int k = 0; k < m; ++k) J[k] = VP::vec<FieldVector<double, n>>("J", -B, B);
  Gram<m, n> G(J);
  G.regular();
  AffineGeometry<double, m, n> in(GeometryTypes::simplex(m), o, J);
  compose<n, w>(in, quadratic);
}

template<int m, int w> void overCube(bool quadratic)
{
  FieldVector<double, m> lo = VP::vec<FieldVector<double, m>>("lo", -B, B), up = lo;
  for (int k = 0; k < m; ++k) up[k] += vp_real("len", 0.01, B);
  AxisAlignedCubeGeometry<double, m, m> in(lo, up);
  compose<m, w>(in, quadratic);
}

template<int w> void overQuad(bool quadratic)
{
  std::vector<FieldVector<double, 2>> c(4);
  for (auto& v : c) v = VP::vec<FieldVector<double, 2>>("c", -B, B);
  MultiLinearGeometry<double, 2, 2> in(GeometryTypes::cube(2), c);
  compose<2, w>(in, quadratic);
}

// inverse Jacobian and integration element: inner geometry a fixed affine one,
// mapping with given derivative at the image point
template<int m, int n, int w> void inverse(bool quadratic)
{
  FieldVector<double, n> o(1);
  FieldMatrix<double, m, n> J0(0);
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) { J0[k][k] = k + 1; if (k + 1 < n) J0[k][k+1] = -2; }
  AffineGeometry<double, m, n> in(GeometryTypes::simplex(m), o, J0);
  FieldVector<double, m> x = VP::vec<FieldVector<double, m>>("x", 0, 1);
  using Map = QuadMap<n, w>;
  Map f = Map::draw(B, quadratic);
  auto z = in.global(x);
  // the Jacobian J of the composition is given, and with it the derivative D of
  // the mapping at z (up to free directions)
  for (int k = 0; k < m; ++k) J[k] = VP::vec<FieldVector<double, w>>("J", -B, B);
  auto D = f.A;
  for (int i = 0; i < w; ++i)
    for (int k = m-1; k >= 0; --k) D[i][k] = (J[k][i] + (k + 1 < n ? 2*D[i][k+1] : 0))/(k + 1);
  f.A = 0;
  auto N = f.deriv(z);
  for (int i = 0; i < w; ++i) for (int j = 0; j < n; ++j) f.A[i][j] = D[i][j] - N[i][j];
  Gram<m, w> G(J);
  G.regular();
  MappedGeometry<Map, AffineGeometry<double, m, n>> g(f, in);
  vp_check(!g.affine(), "affinity flag");
  VP::eqm(g.jacobianTransposed(x), J, "jacobianTransposed");
  auto jit = g.jacobianInverseTransposed(x);
  auto ji = g.jacobianInverse(x);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < w; ++j) vp_eq(ji[i][j], jit[j][i], "jacobianInverse is the transpose");
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int j = 0; j < w; ++j) s += ji[i][j]*J[k][j];
      vp_eq(s, i == k, "jacobianInverse is a left inverse");
    }
    for (int j = 0; j < w; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += G.G[i][k]*ji[k][j];
      vp_eq(s, J[i][j], "jacobianInverse is the pseudo-inverse");
    }
  }
  double mu = g.integrationElement(x);
  vp_check(mu > 0, "integration element positive");
  vp_eq(mu*mu, G.det(), "integration element squared is the Gram determinant");
}

// mappings that own storage: temporaries may be moved from
struct OwnD
{
  std::vector<double> a;
  FieldMatrix<double, 1, 1> operator()(const FieldVector<double, 1>& x) const { FieldMatrix<double, 1, 1> d; d = 0; if (a.size() == 2) d = a[0] + 2*a[1]*x[0]; return d; }
};
struct OwnMap
{
  std::vector<double> a;
  FieldVector<double, 1> operator()(const FieldVector<double, 1>& x) const { FieldVector<double, 1> y(0); if (a.size() == 2) y = (a[0] + a[1]*x[0])*x[0]; return y; }
  friend OwnD derivative(const OwnMap& m) { return OwnD{m.a}; }
};
void owning()
{
  using Inner = AffineGeometry<double, 1, 1>;
  using Geo = MappedGeometry<OwnMap, Inner>;
  std::vector<double> a(2);
  a[0] = vp_real("a0", 1, B);
  a[1] = vp_real("a1", 1, B);
  FieldVector<double, 1> o(1), x = VP::vec<FieldVector<double, 1>>("x", 0, 1);
  FieldMatrix<double, 1, 1> J;
  J = 2;
  Inner in(GeometryTypes::line, o, J);
  int how = vp_choose("how", 0, 4);
  OwnMap f{a};
  Geo g(OwnMap{std::vector<double>(2, 3.0)}, in);
  if (how == 0) g = Geo(f, in);
  else if (how == 1) g = Geo(std::move(f), Inner(in));
  else if (how == 2) g = Geo(OwnMap{a}, in, true);
  else if (how == 3) { Geo h(OwnMap{a}, in); g = std::move(h); h = Geo(OwnMap{std::vector<double>(2, 5.0)}, in); }
  else { Geo h(f, in); Geo k(h); f.a[0] = 7; g = k; }
  double z = 1 + 2*x[0];
  vp_eqi(g.affine(), how == 2, "affinity flag");
  vp_eq(g.global(x)[0], (a[0] + a[1]*z)*z, "global of an owning mapping");
  vp_eq(g.corner(1)[0], (a[0] + a[1]*3)*3, "corner of an owning mapping");
  vp_eq(g.jacobian(x)[0][0], 2*(a[0] + 2*a[1]*z), "jacobian of an owning mapping");
  vp_eq(g.jacobianInverse(x)[0][0]*g.jacobian(x)[0][0], 1, "inverse jacobian of an owning mapping");
  vp_eq(g.integrationElement(x), 2*(a[0] + 2*a[1]*z), "integration element of an owning mapping");
}

VP_ENTRY(owned) { owning(); }
VP_ENTRY(aff11) { overAffine<1, 1, 1>(true); }
VP_ENTRY(aff12) { overAffine<1, 1, 2>(true); }
VP_ENTRY(aff123) { overAffine<1, 2, 3>(true); }
VP_ENTRY(aff22) { overAffine<2, 2, 2>(true); }
VP_ENTRY(aff23) { overAffine<2, 2, 3>(true); }
VP_ENTRY(aff233) { overAffine<2, 3, 3>(true); }
VP_ENTRY(aff33) { overAffine<3, 3, 3>(true); }
VP_ENTRY(lin22) { overAffine<2, 2, 2>(false); }
VP_ENTRY(lin33) { overAffine<3, 3, 3>(false); }
VP_ENTRY(cube1) { overCube<1, 1>(true); }
VP_ENTRY(cube2) { overCube<2, 2>(true); }
VP_ENTRY(cube23) { overCube<2, 3>(true); }
VP_ENTRY(cube3) { overCube<3, 3>(true); }
VP_ENTRY(quad2) { overQuad<2>(true); }
VP_ENTRY(quad3) { overQuad<3>(true); }

VP_ENTRY(inv11) { inverse<1, 1, 1>(true); }
VP_ENTRY(inv12) { inverse<1, 1, 2>(true); }
VP_ENTRY(inv13) { inverse<1, 2, 3>(true); }
VP_ENTRY(inv22) { inverse<2, 2, 2>(true); }
VP_ENTRY(inv23) { inverse<2, 2, 3>(true); }
VP_ENTRY(inv33) { inverse<3, 3, 3>(true); }
#endif
