// C27: rounding.  Each result, computed with rounding, is compared with its
// exact value; see engine/rounding.py.
#include "vp.hh"
#include <array>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/type.hh>
using namespace Dune;

#define APART __attribute__((noinline))

// unit of the tolerances: a few hundred rounding errors of numbers of size one
template<class ct> constexpr double unit() { return sizeof(ct) == 4 ? 3e-5 : 1e-13; }

template<class V> APART V box(const char* name, double lo, double hi)
{
  V v;
  for (std::size_t i = 0; i < V::dimension; ++i) v[i] = vp_real(name, lo, hi);
  return v;
}

// evaluations; kept in functions of their own so that they are not mixed with exact operations
template<class G, class X, class Y> APART void evalGlobal(const G& g, const X& x, Y& y) { y = g.global(x); }
template<class G, class X, class Y> APART void evalLocal(const G& g, const Y& y, X& x) { x = g.local(y); }
template<class G, class X, class J> APART void evalJT(const G& g, const X& x, J& j) { j = g.jacobianTransposed(x); }
template<class G, class X, class J> APART void evalJI(const G& g, const X& x, J& j) { j = g.jacobianInverseTransposed(x); }
template<class G, class X> APART void evalMu(const G& g, const X& x, double& a, double& b) { a = g.integrationElement(x); b = g.volume(); }
template<class G, class Y> APART void evalCorner(const G& g, int i, Y& y) { y = g.corner(i); }
template<class G, class Y> APART void evalCenter(const G& g, Y& y) { y = g.center(); }
template<class G, class... A> APART void build(G& g, const A&... a) { g = G(a...); }

// an affine geometry without its inverse
template<class ct, int m, int w> void affine()
{
  using Geo = AffineGeometry<ct, m, w>;
  unsigned topo = m == 1 ? 1 : 2*vp_choose("topology", 0, (1 << (m-1)) - 1) + 1;
  auto o = box<FieldVector<ct, w>>("o", -10, 10);
  auto x = box<FieldVector<ct, m>>("x", -1, 2);
  FieldMatrix<ct, m, w> J;
  for (int i = 0; i < m; ++i) for (int j = 0; j < w; ++j) J[i][j] = vp_real("J", i == j ? 3 : -1, i == j ? 5 : 1);
  GeometryType gt(topo, m);
  Geo g(gt, o, J);
  const double tol = 40*unit<ct>();
  FieldVector<ct, w> y;
  vp_rounding(1);
  evalGlobal(g, x, y);
  vp_rounding(0);
  for (int j = 0; j < w; ++j) {
    double e = o[j];
    for (int i = 0; i < m; ++i) e += double(J[i][j])*double(x[i]);
    vp_round(y[j], e, tol, "affine global");
  }
  auto re = ReferenceElements<double, m>::general(gt);
  for (int k = 0; k < re.size(m); ++k) {
    vp_rounding(1);
    evalCorner(g, k, y);
    vp_rounding(0);
    for (int j = 0; j < w; ++j) {
      double e = o[j];
      for (int i = 0; i < m; ++i) e += double(J[i][j])*re.position(k, m)[i];
      vp_round(y[j], e, tol, "affine corner");
    }
  }
}

// cofactor determinant
template<class M> double det(const M& A, int n)
{
  if (n == 1) return A[0][0];
  if (n == 2) return A[0][0]*A[1][1] - A[0][1]*A[1][0];
  return A[0][0]*(A[1][1]*A[2][2] - A[1][2]*A[2][1])
       - A[0][1]*(A[1][0]*A[2][2] - A[1][2]*A[2][0])
       + A[0][2]*(A[1][0]*A[2][1] - A[1][1]*A[2][0]);
}

// the inverse: diagonally dominant Jacobians
template<class ct, int m> void affineInverse()
{
  using Geo = AffineGeometry<ct, m, m>;
  FieldVector<ct, m> o = box<FieldVector<ct, m>>("o", -2, 2), y = box<FieldVector<ct, m>>("y", -4, 4), x;
  FieldMatrix<ct, m, m> J, K;
  double A[3][3];
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j) { J[i][j] = vp_real("J", i == j ? 1.5 : -0.5, i == j ? 2.5 : 0.5); A[i][j] = J[i][j]; }
  const double D = det(A, m);
  vp_assume_ge(D, 1);
  const double tol = 4000*unit<ct>();
  double mu, vol;
  Geo g;
  vp_rounding(1);
  build(g, GeometryTypes::cube(m), o, J);
  evalLocal(g, y, x);
  evalJI(g, x, K);
  evalMu(g, x, mu, vol);
  vp_rounding(0);
  vp_round(mu, D, tol, "affine integration element");
  vp_round(vol, D, tol, "affine volume");
  // K = A^{-T}... by cofactors of the transposed: K[i][j] = C_ji / D with J = rows
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j) {
      double C[3][3];
      for (int a = 0, r = 0; a < m; ++a) {
        if (a == j) continue;
        for (int b = 0, c = 0; b < m; ++b) if (b != i) C[r][c++] = A[a][b];
        ++r;
      }
      double cof = ((i + j) % 2 ? -1 : 1)*(m == 1 ? 1 : det(C, m - 1));
      vp_round(K[i][j], cof/D, tol, "affine inverse");
    }
}

template<int m> void cube()
{
  using Geo = AxisAlignedCubeGeometry<double, m, m>;
  FieldVector<double, m> lo = box<FieldVector<double, m>>("lower", -10, 10), up = box<FieldVector<double, m>>("upper", -10, 10);
  FieldVector<double, m> x = box<FieldVector<double, m>>("x", -1, 2), y = box<FieldVector<double, m>>("y", -10, 10), z, l;
  double v = 1;
  for (int i = 0; i < m; ++i) { vp_assume_ge(up[i] - lo[i], 0.25); v *= up[i] - lo[i]; }
  Geo g(lo, up);
  FieldMatrix<double, m, m> J;
  typename Geo::JacobianTransposed JT;
  typename Geo::JacobianInverseTransposed JI;
  double mu, vol;
  vp_rounding(1);
  evalGlobal(g, x, z);
  evalLocal(g, y, l);
  evalJT(g, x, JT);
  evalJI(g, x, JI);
  evalMu(g, x, mu, vol);
  vp_rounding(0);
  const double tol = 1e-11;
  for (int i = 0; i < m; ++i) {
    const double h = up[i] - lo[i];
    vp_round(z[i], lo[i] + x[i]*h, tol, "cube global");
    vp_round(l[i], (y[i] - lo[i])/h, 100*tol, "cube local");
    vp_round(JT.diagonal(i), h, tol, "cube Jacobian");
    vp_round(JI.diagonal(i), 1/h, tol, "cube inverse");
  }
  vp_round(mu, v, 1000*tol, "cube integration element");
  vp_round(vol, v, 1000*tol, "cube volume");
}

// the basis functions of the corners in a point: built with the element
template<int m> int shape(unsigned topo, const double* x, double* N)
{
  // prism: N(x') (1-t), N(x') t; cone: (1-t) N(x'/(1-t)), t
  int n = 1;
  N[0] = 1;
  for (int d = 0; d < m; ++d) {
    if (d == 0 || ((topo >> d) & 1)) {
      for (int i = 0; i < n; ++i) { N[n+i] = N[i]*x[d]; N[i] = N[i]*(1 - x[d]); }
      n *= 2;
    }
    else {
      // only over simplices: the first corner gives way
      N[0] -= x[d];
      N[n++] = x[d];
    }
  }
  return n;
}

template<class ct, template<class, int, int> class G, int m, int w> void multilinear(unsigned topo)
{
  using Geo = G<ct, m, w>;
  using X = FieldVector<ct, m>;
  using Y = FieldVector<ct, w>;
  auto x = box<X>("x", 0, 1);
  // points of the element, not too close to the apex of a cone
  if (m > 1 && !((topo >> 1) & 1)) vp_assume_ge(1, x[0] + x[1]);
  if (m > 2 && !((topo >> 2) & 1)) vp_assume_ge(1, x[0] + x[1] + x[2]);
  for (int d = 1; d < m; ++d) if (!((topo >> d) & 1)) vp_assume_ge(0.875, x[d]);
  if (m > 2 && !((topo >> 1) & 3)) vp_assume_ge(0.875, x[1] + x[2]);
  std::vector<Y> c;
  GeometryType gt(topo, m);
  auto re = ReferenceElements<double, m>::general(gt);
  for (int k = 0; k < re.size(m); ++k) c.push_back(box<Y>("c", -10, 10));
  Geo g(gt, c);
  Y y, z;
  FieldMatrix<ct, m, w> J;
  vp_rounding(1);
  evalGlobal(g, x, y);
  evalJT(g, x, J);
  evalCenter(g, z);
  vp_rounding(0);
  double xx[3], N[8], P[8];
  for (int i = 0; i < m; ++i) xx[i] = x[i];
  int n = shape<m>(topo, xx, N);
  // the proven bound of two nested divisions is wider
  const double tol = m > 2 && !((topo >> 1) & 3) ? 1e-7 : 400*unit<ct>();
  double b[3];
  for (int i = 0; i < m; ++i) b[i] = re.position(0, 0)[i];
  shape<m>(topo, b, P);
  for (int j = 0; j < w; ++j) {
    double e = 0, f = 0;
    for (int k = 0; k < n; ++k) { e += N[k]*double(c[k][j]); f += P[k]*double(c[k][j]); }
    vp_round(y[j], e, tol, "multilinear global");
    vp_round(z[j], f, tol, "multilinear center");
  }
  // the map is linear in every variable: the derivative is a difference
  for (int i = 0; i < m; ++i) {
    double lo[3], hi[3], A[8], B[8];
    for (int k = 0; k < m; ++k) lo[k] = hi[k] = xx[k];
    lo[i] = 0; hi[i] = 1;
    shape<m>(topo, lo, A);
    shape<m>(topo, hi, B);
    for (int j = 0; j < w; ++j) {
      double e = 0;
      for (int k = 0; k < n; ++k) e += (B[k] - A[k])*double(c[k][j]);
      vp_round(J[i][j], e, tol, "multilinear Jacobian");
    }
  }
}
template<class ct, int m, int w> using Plain = MultiLinearGeometry<ct, m, w>;
template<class ct, int m, int w> using Cached = CachedMultiLinearGeometry<ct, m, w>;

// reference elements: barycentres, volumes and normals
template<class ct, int m> APART void buildElement(Geo::Impl::ReferenceElementContainer<ct, m>*& p) { p = new Geo::Impl::ReferenceElementContainer<ct, m>; }
template<class ct, int m> void element()
{
  Geo::Impl::ReferenceElementContainer<ct, m>* all;
  vp_rounding(1);
  buildElement<ct, m>(all);
  vp_rounding(0);
  unsigned topo = 2*vp_choose("topology", 0, (1 << (m-1)) - 1) + 1;
  auto re = (*all)(GeometryType(topo, m));
  double v = 1;
  for (int d = 1; d < m; ++d) if (!((topo >> d) & 1)) v /= d + 1;
  vp_round(re.volume(), v, unit<ct>(), "reference volume");
  for (int c = 0; c <= m; ++c)
    for (int i = 0; i < re.size(c); ++i)
      for (int k = 0; k < m; ++k) {
        double e = 0;
        int n = re.size(i, c, m);
        for (int j = 0; j < n; ++j) e += double(re.position(re.subEntity(i, c, j, m), m)[k]);
        vp_round(re.position(i, c)[k], e/n, unit<ct>(), "barycentre");
      }
}

// refinement: coordinates of the vertices are multiples of 1/n
template<unsigned topo, unsigned coerce, int m> APART void coords(int n, std::vector<double>& out)
{
  using R = StaticRefinement<topo, double, coerce, m>;
  auto tag = refinementIntervals(n);
  for (auto it = R::vBegin(tag); it != R::vEnd(tag); ++it)
    for (int k = 0; k < m; ++k) out.push_back(it.coords()[k]);
}
template<unsigned topo, unsigned coerce, int m> void refined(int last)
{
  int n = vp_choose("intervals", 1, last);
  std::vector<double> v;
  vp_rounding(1);
  coords<topo, coerce, m>(n, v);
  vp_rounding(0);
  for (double x : v) {
    int k = int(x*n + 0.5);
    vp_round(x, double(k)/n, 1e-14, "refined coordinate");
  }
}

VP_ENTRY(aff11) { affine<double, 1, 1>(); }
VP_ENTRY(aff12) { affine<double, 1, 2>(); }
VP_ENTRY(aff22) { affine<double, 2, 2>(); }
VP_ENTRY(aff23) { affine<double, 2, 3>(); }
VP_ENTRY(aff33) { affine<double, 3, 3>(); }
VP_ENTRY(inv11) { affineInverse<double, 1>(); }
VP_ENTRY(inv22) { affineInverse<double, 2>(); }
VP_ENTRY(cube1) { cube<1>(); }
VP_ENTRY(cube2) { cube<2>(); }
VP_ENTRY(cube3) { cube<3>(); }
VP_ENTRY(line) { multilinear<double, Plain, 1, 2>(1); }
VP_ENTRY(tri) { multilinear<double, Plain, 2, 2>(1); }
VP_ENTRY(quad) { multilinear<double, Plain, 2, 3>(3); }
VP_ENTRY(tet) { multilinear<double, Plain, 3, 3>(1); }
VP_ENTRY(pri) { multilinear<double, Plain, 3, 3>(5); }
VP_ENTRY(hex) { multilinear<double, Plain, 3, 3>(7); }
VP_ENTRY(ctri) { multilinear<double, Cached, 2, 2>(1); }
VP_ENTRY(ctet) { multilinear<double, Cached, 3, 3>(1); }
VP_ENTRY(el1) { element<double, 1>(); }
VP_ENTRY(el2) { element<double, 2>(); }
VP_ENTRY(el3) { element<double, 3>(); }
VP_ENTRY(el4) { element<double, 4>(); }
VP_ENTRY(fel3) { element<float, 3>(); }
VP_ENTRY(ref1) { refined<1, 1, 1>(20); }
VP_ENTRY(ref2) { refined<0, 0, 2>(10); }
VP_ENTRY(ref22) { refined<3, 3, 2>(10); }
VP_ENTRY(ref23) { refined<3, 0, 2>(7); }
VP_ENTRY(ref3) { refined<0, 0, 3>(6); }
VP_ENTRY(ref33) { refined<7, 7, 3>(6); }
VP_ENTRY(ref3p) { refined<3, 0, 3>(4); }
VP_ENTRY(ref3w) { refined<5, 0, 3>(4); }
