// C09: multilinear geometry: interpolation and Jacobian.
#include "vp.hh"
#include <array>
#include <functional>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "mlmodel.hh"
#include "refmodel.hh"
using namespace Dune;

static const double B = 10;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int m, int w, class Geo>
void verify(const Geo& g, unsigned topo, const std::vector<FieldVector<double, w>>& c, bool apex)
{
  vp_check(g.type() == GeometryType(topo, m), "type");
  vp_check(referenceElement(g).type() == g.type(), "reference element");
  RefModel r;
  r.build(topo, m);
  vp_eqi(g.corners(), r.nc, "number of corners");
  double bary[3] = {0, 0, 0};
  FieldVector<double, m> p;
  for (int i = 0; i < r.nc; ++i) {
    for (int k = 0; k < m; ++k) p[k] = r.corner[i][k];
    VP::eqv(g.corner(i), c[i], "given corner");
    VP::eqv(g.global(p), c[i], "image of a reference corner");
    for (int k = 0; k < m; ++k) bary[k] += double(r.corner[i][k])/r.nc;
  }
  auto image = [&](const MLModel& M) {
    FieldVector<double, w> y(0);
    for (int i = 0; i < M.n; ++i) for (int j = 0; j < w; ++j) y[j] += M.N[i]*c[i][j];
    return y;
  };
  VP::eqv(g.center(), image(MLModel(topo, m, bary)), "center");
  double x[3] = {0, 0, 0};
  for (int k = 0; k < m; ++k) p[k] = x[k] = vp_real("x", 0, 1);
  mlInside(topo, m, x);
  if (apex) vp_assume_ge(1 - 1e-3, x[m-1]);
  MLModel M(topo, m, x);
  VP::eqv(g.global(p), image(M), "global");
  auto jt = g.jacobianTransposed(p);
  auto jac = g.jacobian(p);
  for (int k = 0; k < m; ++k)
    for (int j = 0; j < w; ++j) {
      double s = 0;
      for (int i = 0; i < M.n; ++i) s += M.D[i][k]*c[i][j];
      vp_eq(jt[k][j], s, "jacobianTransposed");
      vp_eq(jac[j][k], s, "jacobian");
    }
}

template<int m, int w> std::vector<FieldVector<double, w>> draw(unsigned topo)
{
  RefModel r;
  r.build(topo, m);
  std::vector<FieldVector<double, w>> c(r.nc);
  for (int i = 0; i < r.nc; ++i) c[i] = VP::vec<FieldVector<double, w>>("c", -B, B);
  return c;
}

template<int m> constexpr bool pyramid(unsigned topo) { return m == 3 && (topo >> 1) == 1; }

template<int m, int w> void plain(unsigned topo)
{
  auto c = draw<m, w>(topo);
  GeometryType gt(topo, m);
  using Geo = MultiLinearGeometry<double, m, w>;
  int how = vp_choose("how", 0, 2);
  if (how == 0) { Geo g(gt, c); verify<m, w>(g, topo, c, pyramid<m>(topo)); }
  if (how == 1) { Geo g(ReferenceElements<double, m>::general(gt), c); verify<m, w>(g, topo, c, pyramid<m>(topo)); }
  if (how == 2) { auto c2 = c; for (auto& v : c2) v = 1; Geo h(gt, c), g(gt, c2); g = h; Geo k(g); verify<m, w>(k, topo, c, pyramid<m>(topo)); }
}

// the cached geometry of a shape: for simplices all corner positions, otherwise
// the exactly affine and the clearly non-affine ones
template<int m, int w> void cached(unsigned topo)
{
  RefModel r;
  r.build(topo, m);
  std::vector<FieldVector<double, w>> c;
  if (topo < 2) c = draw<m, w>(topo);
  else {
    c.resize(r.nc);
    auto o = VP::vec<FieldVector<double, w>>("o", -B, B);
    FieldVector<double, w> J[3];
    for (int k = 0; k < m; ++k) J[k] = VP::vec<FieldVector<double, w>>("J", -B, B);
    for (int i = 0; i < r.nc; ++i) {
      c[i] = o;
      for (int k = 0; k < m; ++k) if (r.corner[i][k]) c[i] += J[k];
    }
    if (vp_choose("bent", 0, 1)) {
      // move corner 3 of a quadrilateral side (corner 4 of a prism) away from its affine position
      int i = (topo >> 1) == 2 && m == 3 ? 4 : 3, j = vp_choose("dir", 0, w-1);
      double d = vp_real("d", 0.01, B);
      c[i][j] += d;
    }
  }
  GeometryType gt(topo, m);
  using Geo = CachedMultiLinearGeometry<double, m, w>;
  if (vp_choose("how", 0, 1)) { Geo g(gt, c); verify<m, w>(g, topo, c, pyramid<m>(topo)); }
  else { Geo g(ReferenceElements<double, m>::general(gt), c); verify<m, w>(g, topo, c, pyramid<m>(topo)); }
}

// geometry types and corner storage fixed at compile time
template<unsigned id, int w> struct FixedTraits : MultiLinearGeometryTraits<double>
{
  template<int m, int> struct CornerStorage { typedef std::array<FieldVector<double, w>, (1u << m)> Type; };
  template<int dim> struct hasSingleGeometryType { static const bool v = true; static const unsigned int topologyId = id; };
};
template<int w> struct RefTraits : MultiLinearGeometryTraits<double>
{
  template<int, int> struct CornerStorage { typedef std::reference_wrapper<std::vector<FieldVector<double, w>>> Type; };
};

template<int m, int w, unsigned id> void fixed()
{
  auto c = draw<m, w>(id);
  std::array<FieldVector<double, w>, (1u << m)> a;
  for (std::size_t i = 0; i < c.size(); ++i) a[i] = c[i];
  MultiLinearGeometry<double, m, w, FixedTraits<id, w>> g(GeometryType(id, m), a);
  verify<m, w>(g, id, c, pyramid<m>(id));
}

template<int m, int w> void byref(unsigned topo)
{
  auto c = draw<m, w>(topo);
  MultiLinearGeometry<double, m, w, RefTraits<w>> g(GeometryType(topo, m), std::ref(c));
  verify<m, w>(g, topo, c, pyramid<m>(topo));
}

// restricted to a subentity the map is the multilinear map of its corners
template<int m, int w, int codim> void restricted(unsigned topo)
{
  auto c = draw<m, w>(topo);
  MultiLinearGeometry<double, m, w> g(GeometryType(topo, m), c);
  auto re = ReferenceElements<double, m>::general(GeometryType(topo, m));
  int i = vp_choose("sub", 0, re.size(codim) - 1);
  std::vector<FieldVector<double, w>> sc;
  for (int k = 0; k < re.size(i, codim, m); ++k) sc.push_back(c[re.subEntity(i, codim, k, m)]);
  GeometryType st = re.type(i, codim);
  MultiLinearGeometry<double, m-codim, w> s(st, sc);
  FieldVector<double, m-codim> x;
  double xx[3] = {0, 0, 0};
  for (int k = 0; k < m-codim; ++k) x[k] = xx[k] = vp_real("x", 0, 1);
  mlInside(st.id(), m-codim, xx);
  auto y = re.template geometry<codim>(i).global(x);
  if (pyramid<m>(topo)) vp_assume_ge(1 - 1e-3, y[m-1]);
  VP::eqv(s.global(x), g.global(y), "restriction to a subentity");
}

VP_ENTRY(p01) { plain<0, 1>(0); }
VP_ENTRY(p03) { plain<0, 3>(0); }
VP_ENTRY(p11) { plain<1, 1>(vp_choose("bit", 0, 1)); }
VP_ENTRY(p12) { plain<1, 2>(vp_choose("bit", 0, 1)); }
VP_ENTRY(p13) { plain<1, 3>(1); }
VP_ENTRY(tri22) { plain<2, 2>(0 + vp_choose("bit", 0, 1)); }
VP_ENTRY(tri23) { plain<2, 3>(0); }
VP_ENTRY(quad22) { plain<2, 2>(2 + vp_choose("bit", 0, 1)); }
VP_ENTRY(quad23) { plain<2, 3>(3); }
VP_ENTRY(tet33) { plain<3, 3>(0 + vp_choose("bit", 0, 1)); }
VP_ENTRY(pyr33) { plain<3, 3>(2 + vp_choose("bit", 0, 1)); }
VP_ENTRY(pri33) { plain<3, 3>(4 + vp_choose("bit", 0, 1)); }
VP_ENTRY(hex33) { plain<3, 3>(6 + vp_choose("bit", 0, 1)); }

VP_ENTRY(cline) { cached<1, 2>(1); }
VP_ENTRY(ctri22) { cached<2, 2>(0); }
VP_ENTRY(ctri23) { cached<2, 3>(1); }
VP_ENTRY(cquad22) { cached<2, 2>(3); }
VP_ENTRY(cquad23) { cached<2, 3>(3); }
VP_ENTRY(ctet) { cached<3, 3>(0); }
VP_ENTRY(cpyr) { cached<3, 3>(3); }
VP_ENTRY(cpri) { cached<3, 3>(5); }
VP_ENTRY(chex) { cached<3, 3>(7); }

VP_ENTRY(f11) { fixed<1, 1, 1>(); }
VP_ENTRY(fquad) { fixed<2, 2, 3>(); }
VP_ENTRY(ftri) { fixed<2, 3, 1>(); }
VP_ENTRY(fhex) { fixed<3, 3, 7>(); }
VP_ENTRY(fpri) { fixed<3, 3, 5>(); }
VP_ENTRY(refquad) { byref<2, 2>(3); }
VP_ENTRY(reftet) { byref<3, 3>(0); }

VP_ENTRY(r1) { restricted<1, 2, 1>(1); }
VP_ENTRY(r2) { restricted<2, 2, 1>(2*vp_choose("topo", 0, 1) + 1); }
VP_ENTRY(r31) { restricted<3, 3, 1>(2*vp_choose("topo", 0, 3) + 1); }
VP_ENTRY(r32) { restricted<3, 3, 2>(2*vp_choose("topo", 0, 3)); }
