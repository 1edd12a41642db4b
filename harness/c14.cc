// C14: iterative inverse maps of mapped and finite-element geometries.
#include "vp.hh"
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "gram.hh"
#include "lfe.hh"
#include "quadmap.hh"
using namespace Dune;

static const double B = 5;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

// 1: returned, 0: threw
template<class Geo, class Opts>
int solve(const Geo& g, const typename Geo::GlobalCoordinate& y, typename Geo::LocalCoordinate& x, const Opts* opts)
{
  try { x = opts ? g.local(y, *opts) : g.local(y); }
  catch (const Dune::Exception&) { return 0; }
  return 1;
}

template<class Geo>
void within(const Geo& g, const typename Geo::GlobalCoordinate& y, const typename Geo::LocalCoordinate& x, double tol)
{
  auto v = g.global(x);
  double s = 0;
  for (int j = 0; j < Geo::coorddimension; ++j) s += (v[j] - y[j])*(v[j] - y[j]);
  const double slack = vp_native() ? 1.001 : 1;        // round-off of the native run
  vp_check(s <= slack*tol*tol, "image of the returned point within the tolerance");
}

// geometries of the family: a mapped geometry over an affine one and a
// finite-element geometry with the same map
template<int m, int w, bool quadratic, class F>
void both(const FieldVector<double, w>& o, const FieldVector<double, w>* a, const FieldVector<double, w>& q, F&& f)
{
  if (vp_choose("kind", 0, 1)) {
    FieldVector<double, m> z(0);
    FieldMatrix<double, m, m> E(0);
    for (int k = 0; k < m; ++k) E[k][k] = 1;
    AffineGeometry<double, m, m> in(GeometryTypes::simplex(m), z, E);
    QuadMap<m, w> map;
    map.b = o;
    for (int i = 0; i < w; ++i)
      for (int j = 0; j < m; ++j) {
        map.A[i][j] = a[j][i];
        for (int k = 0; k < m; ++k) map.Q[i][j][k] = quadratic && j == 0 && k == 0 ? q[i] : 0;
      }
    MappedGeometry<QuadMap<m, w>, AffineGeometry<double, m, m>> g(map, in);
    f(g);
  } else {
    TestLFE<m, quadratic> fe(0);
    LocalFiniteElementGeometry<TestLFE<m, quadratic>, w> g(GeometryTypes::simplex(m), fe, [&](const FieldVector<double, m>& x) {
      FieldVector<double, w> y = o;
      for (int j = 0; j < w; ++j) {
        for (int k = 0; k < m; ++k) y[j] += a[k][j]*x[k];
        if (quadratic) y[j] += q[j]*x[0]*x[0];
      }
      return y;
    });
    f(g);
  }
}

using Opts = Impl::GaussNewtonOptions<double>;
static const double defTol = 1.4901161193847656e-08;

template<int m, int w> void affine()
{
  using V = FieldVector<double, w>;
  using X = FieldVector<double, m>;
  V o = VP::vec<V>("o", -B, B), a[3];
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) a[k] = J[k] = VP::vec<V>("J", -B, B);
  Gram<m, w> G(J);
  G.regular();
  int start = vp_choose("start", 0, 1);
  X p(1.0/(m+1));                      // the starting point
  if (!start && m < 3) p = VP::vec<X>("p", -B, B);
  if (!start && m == 3) p[vp_choose("dir", 0, 2)] = vp_real("p", -B, B);
  both<m, w, false>(o, a, o, [&](const auto& g) {
    V y = o;
    for (int j = 0; j < w; ++j) for (int k = 0; k < m; ++k) y[j] += a[k][j]*p[k];
    X x;
    Opts opts;
    opts.maxIt = vp_choose("maxIt", 1, 2);
    opts.absTol = vp_choose("tol", 0, 1) ? 1e-3 : 1e-9;
    bool def = vp_choose("default", 0, 1);
    if (!solve(g, y, x, def ? nullptr : &opts)) vp_fail("inverse of a regular affine map fails");
    else within(g, y, x, def ? defTol : opts.absTol);
  });
}

// any affine map, any target: a wrong point is never returned
template<int m, int w> void anyAffine()
{
  using V = FieldVector<double, w>;
  using X = FieldVector<double, m>;
  V o = VP::vec<V>("o", -B, B), a[3];
  bool rank1 = m == 2 && vp_choose("rank1", 0, 1);
  for (int k = 0; k < m; ++k) a[k] = VP::vec<V>("J", -B, B);
  if (rank1) { double s = vp_real("s", -2, 2); a[1] = a[0]; a[1] *= s; }
  else if (m == 2) {
    FieldMatrix<double, m, w> J;
    for (int k = 0; k < m; ++k) J[k] = a[k];
    Gram<m, w>(J).regular();
  }
  V y = VP::vec<V>("y", -B, B);
  both<m, w, false>(o, a, o, [&](const auto& g) {
    X x;
    Opts opts;
    opts.maxIt = 2;
    opts.maxInnerIt = 2;
    opts.absTol = 1e-3;
    if (solve(g, y, x, &opts)) within(g, y, x, opts.absTol);
    else vp_reach("rejected");
  });
}

// quadratic curves
template<int w> void quadratic(int its)
{
  using V = FieldVector<double, w>;
  using X = FieldVector<double, 1>;
  V o(0), q(0), a[1];
  a[0] = 0;
  a[0][0] = vp_real("a", -B, B);
  q[w-1] = vp_real("q", -B, B);
  V y = VP::vec<V>("y", -B, B);
  both<1, w, true>(o, a, q, [&](const auto& g) {
    X x;
    Opts opts;
    opts.maxIt = its;
    opts.maxInnerIt = vp_choose("inner", 1, 2);
    opts.absTol = 1e-3;
    if (solve(g, y, x, &opts)) within(g, y, x, opts.absTol);
    else vp_reach("rejected");
  });
}

VP_ENTRY(a11) { affine<1, 1>(); }
VP_ENTRY(a12) { affine<1, 2>(); }
VP_ENTRY(a13) { affine<1, 3>(); }
VP_ENTRY(a22) { affine<2, 2>(); }
VP_ENTRY(a23) { affine<2, 3>(); }
VP_ENTRY(a33) { affine<3, 3>(); }
VP_ENTRY(any11) { anyAffine<1, 1>(); }
VP_ENTRY(any12) { anyAffine<1, 2>(); }
VP_ENTRY(any22) { anyAffine<2, 2>(); }
VP_ENTRY(q11) { quadratic<1>(1); }
VP_ENTRY(q12) { quadratic<2>(1); }
