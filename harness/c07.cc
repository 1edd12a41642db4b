// C07: affine geometry.
#include "vp.hh"
#include <array>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

static const double B = 50;

// k x k determinant by cofactors of the leading block of a symmetric matrix
template<class M> double lead(const M& G, int k)
{
  if (k == 1) return G[0][0];
  if (k == 2) return G[0][0]*G[1][1] - G[0][1]*G[1][0];
  if (k == 4) {
    double d = 0;
    for (int c = 0; c < 4; ++c) {
      double H[4][4];
      for (int i = 1; i < 4; ++i)
        for (int j = 0, n = 0; j < 4; ++j)
          if (j != c) H[i-1][n++] = G[i][j];
      d += (c % 2 ? -1 : 1) * G[0][c] * lead(H, 3);
    }
    return d;
  }
  return G[0][0]*(G[1][1]*G[2][2] - G[1][2]*G[2][1])
       - G[0][1]*(G[1][0]*G[2][2] - G[1][2]*G[2][0])
       + G[0][2]*(G[1][0]*G[2][1] - G[1][1]*G[2][0]);
}

template<int m, int w> struct Gram
{
  double G[4][4];
  Gram(const FieldMatrix<double, m, w>& J)
  {
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) {
        double s = 0;
        for (int k = 0; k < w; ++k) s += J[i][k]*J[j][k];
        G[i][j] = s;
      }
  }
  double det() const { if constexpr (m == 0) return 1; else return lead(G, m); }
  void regular() const { for (int k = 1; k <= m; ++k) vp_assume_pos(lead(G, k)); }
};

// volume of the reference element built by the prism/cone construction
template<int m> double refVolume(unsigned topo)
{
  double v = 1;
  for (int d = 1; d <= m; ++d)
    if (!((topo >> (d-1)) & 1) || d == 1) v /= (d == 1 ? 1 : d);
  return v;
}

// the reference corners: a line is 0,1; a prism lists bottom then top; a cone
// lists base then apex
template<int m> int refCorners(unsigned topo, double c[][4])
{
  int n = 1;
  for (int k = 0; k < 4; ++k) c[0][k] = 0;
  for (int d = 0; d < m; ++d) {
    bool prism = d == 0 || ((topo >> d) & 1);
    if (prism) {
      for (int i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) c[n+i][k] = c[i][k]; c[n+i][d] = 1; }
      n *= 2;
    } else {
      for (int k = 0; k < 4; ++k) c[n][k] = 0;
      c[n][d] = 1;
      ++n;
    }
  }
  return n;
}

template<int m, int w>
void verify(const AffineGeometry<double, m, w>& g, unsigned topo, const FieldVector<double, w>& o,
            const FieldMatrix<double, m, w>& J, const Gram<m, w>& G)
{
  using Geo = AffineGeometry<double, m, w>;
  static_assert(Geo::mydimension == m && Geo::coorddimension == w);
  vp_check(g.affine(), "affine");
  vp_check(g.type() == GeometryType(topo, m), "type");
  vp_check(referenceElement(g).type() == g.type(), "reference element");
  typename Geo::LocalCoordinate x = VP::vec<typename Geo::LocalCoordinate>("x", -B, B);
  auto image = [&](const double* p) {
    FieldVector<double, w> r = o;
    for (int j = 0; j < w; ++j) for (int i = 0; i < m; ++i) r[j] += J[i][j]*p[i];
    return r;
  };
  double xx[4] = {0, 0, 0, 0};
  for (int i = 0; i < m; ++i) xx[i] = x[i];
  auto y = g.global(x);
  VP::eqv(y, image(xx), "global");
  double c[16][4];
  int nc = refCorners<m>(topo, c);
  vp_eqi(g.corners(), nc, "number of corners");
  double bary[4] = {0, 0, 0, 0};
  for (int i = 0; i < nc; ++i) {
    VP::eqv(g.corner(i), image(c[i]), "corner");
    for (int k = 0; k < m; ++k) bary[k] += c[i][k]/nc;
  }
  VP::eqv(g.center(), image(bary), "center");
  VP::eqm(g.jacobianTransposed(x), J, "jacobianTransposed");
  auto jac = g.jacobian(x);
  for (int i = 0; i < m; ++i) for (int j = 0; j < w; ++j) vp_eq(jac[j][i], J[i][j], "jacobian");
  auto jit = g.jacobianInverseTransposed(x);
  auto ji = g.jacobianInverse(x);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < w; ++j) vp_eq(ji[i][j], jit[j][i], "jacobianInverse is the transpose");
    for (int k = 0; k < m; ++k) {
      double s = 0;
      for (int j = 0; j < w; ++j) s += ji[i][j]*J[k][j];
      vp_eq(s, i == k, "jacobianInverse is a left inverse");
    }
  }
  // pseudo-inverse: J^T = G * J^{-1}
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < w; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += G.G[i][k]*ji[k][j];
      vp_eq(s, J[i][j], "jacobianInverse is the pseudo-inverse");
    }
  double mu = g.integrationElement(x);
  vp_check(mu > 0, "integration element positive");
  vp_eq(mu*mu, G.det(), "integration element squared is the Gram determinant");
  vp_eq(g.volume(), mu*refVolume<m>(topo), "volume");
  VP::eqv(g.local(y), x, "local inverts global");
  if (w > m) {
    FieldVector<double, w> z = VP::vec<FieldVector<double, w>>("z", -B, B);
    auto l = g.local(z);
    double ll[4] = {0, 0, 0, 0};
    for (int i = 0; i < m; ++i) ll[i] = l[i];
    auto r = image(ll);
    for (int i = 0; i < m; ++i) {
      double s = 0;
      for (int j = 0; j < w; ++j) s += J[i][j]*(z[j] - r[j]);
      vp_eq(s, 0, "local is the least-squares preimage");
    }
  }
}

// the largest matrices have a band of entries that are not zero
template<int m, int w> double entry(int i, int j)
{
  if (m == 3 && w == 4 && j > i+1) return 0;
  if (m == 4 && (j > i || j + 1 < i)) return 0;
  double v = vp_real("J", -B, B);
  if (m == 4 && i == j) vp_assume_pos(v);
  return v;
}

template<int m, int w> void matrixCase()
{
  unsigned topo = m == 0 ? 0 : 2*vp_choose("topo", 0, (1u << (m > 0 ? m-1 : 0)) - 1) + 1;
  FieldVector<double, w> o = VP::vec<FieldVector<double, w>>("o", -B, B);
  FieldMatrix<double, m, w> J;
  for (int i = 0; i < m; ++i) for (int j = 0; j < w; ++j) J[i][j] = entry<m, w>(i, j);
  Gram<m, w> G(J);
  G.regular();
  int how = vp_choose("how", 0, 2);
  using Geo = AffineGeometry<double, m, w>;
  GeometryType gt(topo, m);
  if (how == 0) { Geo g(gt, o, J); verify<m, w>(g, topo, o, J, G); }
  else if (how == 1) { Geo g(ReferenceElements<double, m>::general(gt), o, J); verify<m, w>(g, topo, o, J, G); }
  else { Geo h(gt, o, J), g; g = h; Geo k(g); verify<m, w>(k, topo, o, J, G); }
}

template<int m, int w> void cornerCase()
{
  // every set of corners is of this form
  std::array<FieldVector<double, w>, m+1> c;
  c[0] = VP::vec<FieldVector<double, w>>("c", -B, B);
  FieldMatrix<double, m, w> J;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < w; ++j) {
      J[i][j] = entry<m, w>(i, j);
      c[i+1][j] = c[0][j] + J[i][j];
    }
  Gram<m, w> G(J);
  G.regular();
  using Geo = AffineGeometry<double, m, w>;
  // in two dimensions the first three corners determine a parallelogram as well
  GeometryType gt = m == 2 && vp_choose("shape", 0, 1) ? GeometryTypes::cube(m) : GeometryTypes::simplex(m);
  unsigned topo = gt.id();
  if (vp_choose("how", 0, 1)) { Geo g(gt, c); verify<m, w>(g, topo, c[0], J, G); }
  else {
    Geo g(ReferenceElements<double, m>::general(gt), c);
    for (int i = 0; i <= m; ++i) VP::eqv(g.corner(i), c[i], "given corner");
    verify<m, w>(g, topo, c[0], J, G);
  }
}

VP_ENTRY(m01) { matrixCase<0, 1>(); }
VP_ENTRY(m03) { matrixCase<0, 3>(); }
VP_ENTRY(m11) { matrixCase<1, 1>(); }
VP_ENTRY(m12) { matrixCase<1, 2>(); }
VP_ENTRY(m13) { matrixCase<1, 3>(); }
VP_ENTRY(m22) { matrixCase<2, 2>(); }
VP_ENTRY(m23) { matrixCase<2, 3>(); }
VP_ENTRY(m24) { matrixCase<2, 4>(); }
VP_ENTRY(m33) { matrixCase<3, 3>(); }
VP_ENTRY(m34_T) { matrixCase<3, 4>(); }
VP_ENTRY(c02) { cornerCase<0, 2>(); }
VP_ENTRY(c11) { cornerCase<1, 1>(); }
VP_ENTRY(c13) { cornerCase<1, 3>(); }
VP_ENTRY(c22) { cornerCase<2, 2>(); }
VP_ENTRY(c23) { cornerCase<2, 3>(); }
VP_ENTRY(c33) { cornerCase<3, 3>(); }
VP_ENTRY(m44) { matrixCase<4, 4>(); }
VP_ENTRY(c44) { cornerCase<4, 4>(); }
