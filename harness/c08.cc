// C08: axis-aligned cube geometry.
#include "vp.hh"
#include <bitset>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/diagonalmatrix.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

static const double B = 50;

template<class M> double entry(const M& A, int i, int j)
{
  // dense entry of a dense or diagonal matrix
  if constexpr (requires { A.diagonal(); }) return i == j ? A.diagonal()[i] : 0;
  else return A[i][j];
}

// the box [lo, lo+ext] on the axes of the mask
template<int m, int w>
void verify(const AxisAlignedCubeGeometry<double, m, w>& g, const double* lo, const double* ext, unsigned mask, bool deep)
{
  using Geo = AxisAlignedCubeGeometry<double, m, w>;
  int axis[5], n = 0;
  for (int i = 0; i < w; ++i) if ((mask >> i) & 1) axis[n++] = i;
  vp_check(g.affine(), "affine");
  vp_check(g.type() == GeometryTypes::cube(m), "type");
  if (deep) {
    auto re = referenceElement(g);
    vp_check(re.type() == GeometryTypes::cube(m), "reference element");
    for (int k = 0; k < (1 << m); ++k)
      VP::eqv(g.global(re.position(k, m)), g.corner(k), "corner is the image of the reference corner");
  }
  vp_eqi(g.corners(), 1 << m, "number of corners");
  for (int k = 0; k < (1 << m); ++k) {
    auto c = g.corner(k);
    double p[5];
    for (int i = 0; i < w; ++i) p[i] = lo[i];
    for (int a = 0; a < m; ++a) if ((k >> a) & 1) p[axis[a]] += ext[axis[a]];
    for (int i = 0; i < w; ++i) vp_eq(c[i], p[i], "corner");
  }
  auto c = g.center();
  for (int i = 0; i < w; ++i) vp_eq(c[i], lo[i] + (((mask >> i) & 1) ? ext[i]/2 : 0), "center");
  typename Geo::LocalCoordinate x = VP::vec<typename Geo::LocalCoordinate>("x", -B, B);
  auto y = g.global(x);
  double p[5];
  for (int i = 0; i < w; ++i) p[i] = lo[i];
  double vol = 1;
  for (int a = 0; a < m; ++a) { p[axis[a]] += x[a]*ext[axis[a]]; vol *= ext[axis[a]]; }
  for (int i = 0; i < w; ++i) vp_eq(y[i], p[i], "global");
  VP::eqv(g.local(y), x, "local inverts global");
  typename Geo::GlobalCoordinate z = VP::vec<typename Geo::GlobalCoordinate>("z", -B, B);
  auto l = g.local(z);
  for (int a = 0; a < m; ++a) vp_eq(l[a]*ext[axis[a]], z[axis[a]] - lo[axis[a]], "local is the projection");
  auto jt = g.jacobianTransposed(x);
  auto j = g.jacobian(x);
  auto jit = g.jacobianInverseTransposed(x);
  auto ji = g.jacobianInverse(x);
  for (int a = 0; a < m; ++a)
    for (int i = 0; i < w; ++i) {
      double d = axis[a] == i ? ext[i] : 0, di = axis[a] == i ? 1/ext[i] : 0;
      vp_eq(entry(jt, a, i), d, "jacobianTransposed");
      vp_eq(entry(j, i, a), d, "jacobian");
      vp_eq(entry(jit, i, a), di, "jacobianInverseTransposed");
      vp_eq(entry(ji, a, i), di, "jacobianInverse");
    }
  vp_eq(g.integrationElement(x), vol, "integrationElement");
  vp_eq(g.volume(), vol, "volume");
}

template<int m, int w> void box()
{
  double lo[5], ext[5];
  FieldVector<double, w> lower, upper;
  for (int i = 0; i < w; ++i) {
    lo[i] = lower[i] = vp_real("lo", -B, B);
    ext[i] = vp_real("ext", 0, B);
    vp_assume_pos(ext[i]);
    upper[i] = lower[i] + ext[i];
  }
  using Geo = AxisAlignedCubeGeometry<double, m, w>;
  unsigned mask = vp_choose("axes", 0, (1 << w) - 1);
  int n = 0;
  for (int i = 0; i < w; ++i) n += (mask >> i) & 1;
  if (n != m) vp_skip();
  int how = vp_choose("how", 0, 3);
  if (how == 0) {
    Geo g(lower, upper, std::bitset<w>(mask));
    verify<m, w>(g, lo, ext, mask, true);
  }
  else if (how == 1) {
    if constexpr (m == w) {
      Geo g(lower, upper);
      verify<m, w>(g, lo, ext, mask, false);
    }
    else if constexpr (m == 0) {
      Geo g(lower);
      verify<m, w>(g, lo, ext, mask, false);
    }
    else vp_skip();
  }
  else if (how == 2) {
    Geo h(lower, upper, std::bitset<w>(mask)), g;
    g = h;
    verify<m, w>(g, lo, ext, mask, false);
  }
  else {
    // assignment over a geometry with other corners and axes
    Geo h(lower, upper, std::bitset<w>(mask));
    unsigned other = 0;
    for (int i = w-1, k = 0; i >= 0 && k < m; --i, ++k) other |= 1u << i;
    FieldVector<double, w> l2(0.), u2(3.);
    Geo g(l2, u2, std::bitset<w>(other));
    g = h;
    Geo k(g);
    verify<m, w>(k, lo, ext, mask, false);
  }
}

VP_ENTRY(b01) { box<0, 1>(); }
VP_ENTRY(b02) { box<0, 2>(); }
VP_ENTRY(b03) { box<0, 3>(); }
VP_ENTRY(b11) { box<1, 1>(); }
VP_ENTRY(b12) { box<1, 2>(); }
VP_ENTRY(b13) { box<1, 3>(); }
VP_ENTRY(b14) { box<1, 4>(); }
VP_ENTRY(b22) { box<2, 2>(); }
VP_ENTRY(b23) { box<2, 3>(); }
VP_ENTRY(b24) { box<2, 4>(); }
VP_ENTRY(b33) { box<3, 3>(); }
VP_ENTRY(b34) { box<3, 4>(); }
VP_ENTRY(b44) { box<4, 4>(); }
VP_ENTRY(b04_T) { box<0, 4>(); }
VP_ENTRY(b15_T) { box<1, 5>(); }
VP_ENTRY(b25_T) { box<2, 5>(); }
VP_ENTRY(b35_T) { box<3, 5>(); }
VP_ENTRY(b45_T) { box<4, 5>(); }
