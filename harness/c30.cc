// C30: geometries are values: copies, moves and assignments.
#include "vp.hh"
#include <memory>
#include <optional>
#include <utility>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "lfe.hh"
#include "quadmap.hh"
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

// everything a geometry says
template<bool inverse, class Geo> void same(const Geo& g, const Geo& e, const typename Geo::LocalCoordinate& x)
{
  vp_check(g.type() == e.type(), "type");
  vp_eqi(g.affine(), e.affine(), "affinity");
  vp_eqi(g.corners(), e.corners(), "number of corners");
  for (int i = 0; i < e.corners(); ++i) VP::eqv(g.corner(i), e.corner(i), "corner");
  VP::eqv(g.center(), e.center(), "center");
  VP::eqv(g.global(x), e.global(x), "global");
  VP::eqm(FieldMatrix<double, Geo::mydimension, Geo::coorddimension>(g.jacobianTransposed(x)),
          FieldMatrix<double, Geo::mydimension, Geo::coorddimension>(e.jacobianTransposed(x)), "jacobianTransposed");
  vp_check(referenceElement(g) == referenceElement(e), "reference element");
  if constexpr (inverse) {
    vp_eq(g.integrationElement(x), e.integrationElement(x), "integration element");
    VP::eqm(FieldMatrix<double, Geo::coorddimension, Geo::mydimension>(g.jacobianInverseTransposed(x)),
            FieldMatrix<double, Geo::coorddimension, Geo::mydimension>(e.jacobianInverseTransposed(x)), "jacobianInverseTransposed");
  }
}

// make(k), k = 0, 1, 2, are geometries with different data
template<bool inverse, class Geo, class Make> void value(Make make)
{
  typename Geo::LocalCoordinate x;
  for (std::size_t k = 0; k < x.size(); ++k) x[k] = k == 0 ? vp_real("x", 0, 0.25) : 0.25;
  const Geo e[3] = { make(0), make(1), make(2) };
  auto look = [&](const Geo& g, int k) { same<inverse>(g, e[k], x); };
  // fills caches
  auto touch = [&](const Geo& g) { g.affine(); if constexpr (inverse) { g.jacobianInverseTransposed(x); g.integrationElement(x); } };
  bool touched = vp_choose("touched", 0, 1);
  int how = vp_choose("how", 0, 8);
  if (how == 0) {
    Geo s = make(0);
    if (touched) touch(s);
    Geo g(s);
    look(s, 0);
    s = make(1);
    look(g, 0);
    look(s, 1);
  }
  else if (how == 1) {
    Geo s = make(0), g = make(1);
    if (touched) { touch(s); touch(g); }
    Geo& r = (g = s);
    vp_check(&r == &g, "assignment returns its target");
    s = make(2);
    look(g, 0);
    look(s, 2);
  }
  else if (how == 2) {
    Geo s = make(0);
    if (touched) touch(s);
    Geo g(std::move(s));
    s = make(1);
    look(g, 0);
    look(s, 1);
  }
  else if (how == 3) {
    Geo s = make(0), g = make(1);
    if (touched) { touch(s); touch(g); }
    g = std::move(s);
    s = make(2);
    look(g, 0);
    look(s, 2);
  }
  else if (how == 4) {
    Geo g = make(0);
    if (touched) touch(g);
    Geo& r = g;
    g = r;
    look(g, 0);
  }
  else if (how == 5) {
    Geo g = make(0), h = make(1);
    if (touched) touch(h);
    using std::swap;
    swap(g, h);
    look(g, 1);
    look(h, 0);
  }
  else if (how == 6) {
    std::vector<Geo> v;
    for (int k = 0; k < 3; ++k) {
      v.push_back(make(k));
      if (touched) touch(v[0]);
    }
    v[1] = v[2];
    v.erase(v.begin());
    look(v[0], 2);
    look(v[1], 2);
    v.insert(v.begin(), make(0));
    look(v[0], 0);
    look(v[2], 2);
  }
  else if (how == 7) {
    auto p = std::make_unique<Geo>(make(0));
    if (touched) touch(*p);
    std::optional<Geo> g(*p);
    p.reset();
    look(*g, 0);
    std::optional<Geo> h(g);
    g = make(1);
    look(*h, 0);
    look(*g, 1);
  }
  else {
    Geo a = make(0), b = make(1), c = make(2);
    if (touched) { touch(a); touch(c); }
    a = b = c;
    c = make(0);
    look(a, 2);
    look(b, 2);
    look(c, 0);
  }
}

template<int m, int w> std::vector<FieldVector<double, w>> corners(GeometryType gt, int k, const double* s)
{
  auto re = ReferenceElements<double, m>::general(gt);
  std::vector<FieldVector<double, w>> c(re.size(m));
  for (int i = 0; i < re.size(m); ++i) {
    for (int j = 0; j < w; ++j) c[i][j] = (j < m ? (k + 1)*re.position(i, m)[j] : 0.5*k) + (i + j*k + 1)/32.0 + (k == 2 ? i*i/32.0 : 0);
    if (k == 0 && i < 3) c[i][i % w] += s[i];
  }
  return c;
}
static void draw(double* s) { for (int i = 0; i < 3; ++i) s[i] = vp_real("s", -0.0625, 0.0625); }

template<int m, int w, bool inverse> void affine()
{
  using Geo = AffineGeometry<double, m, w>;
  double s[3];
  draw(s);
  value<inverse, Geo>([&](int k) {
    FieldVector<double, w> o(k);
    FieldMatrix<double, m, w> J;
    for (int i = 0; i < m; ++i) for (int j = 0; j < w; ++j) J[i][j] = (i == j ? k + 1 : 0.125*(i + 1)) + (k == 0 && (m < 3 || i + j == 0) ? s[(i + j) % 3] : 0);
    o[0] += k == 0 ? s[0] : 0;
    GeometryType gt = k == 1 ? GeometryTypes::cube(m) : GeometryTypes::simplex(m);
    return Geo(gt, o, J);
  });
}
template<int m, int w> void box()
{
  using Geo = AxisAlignedCubeGeometry<double, m, w>;
  double s[3];
  draw(s);
  value<true, Geo>([&](int k) {
    FieldVector<double, w> lo, hi;
    for (int j = 0; j < w; ++j) { lo[j] = k + (k == 0 ? s[j] : 0); hi[j] = 2*k + 1 + j; }
    if constexpr (m == w) return Geo(lo, hi);
    else {
      std::bitset<w> axes;
      for (int j = 0; j < m; ++j) axes[(j + k) % w] = true;
      return Geo(lo, hi, axes);
    }
  });
}
template<class Geo, bool inverse> void multi()
{
  constexpr int m = Geo::mydimension, w = Geo::coorddimension;
  unsigned t[3];
  for (int k = 0; k < 3; ++k) t[k] = m == 1 ? 1 : m == 2 ? (k == 0 ? 2*vp_choose("topology", 0, 1) + 1 : k) : k == 0 ? 2*vp_choose("topology", 0, 3) + 1 : 7 - 2*k;
  double s[3];
  draw(s);
  value<inverse, Geo>([&](int k) {
    GeometryType gt(t[k], m);
    return Geo(gt, corners<m, w>(gt, k, s));
  });
}
template<int m, int w, bool quadratic> void element()
{
  using LFE = TestLFE<m, quadratic>;
  using Geo = LocalFiniteElementGeometry<LFE, w>;
  double s[3];
  draw(s);
  value<false, Geo>([&](int k) {
    unsigned topo = k == 1 && m > 1 ? 3 : 1;
    LFE fe(topo);
    std::vector<FieldVector<double, w>> c(fe.size());
    for (std::size_t i = 0; i < c.size(); ++i)
      for (int j = 0; j < w; ++j) c[i][j] = k + 0.25*i*(j + 1) + (k == 1 ? 0.25*i*i : 0) + (k == 0 && i < 3 ? s[i] : 0);
    return Geo(GeometryType(topo, m), fe, c);
  });
}
template<int m, int w> void mapped()
{
  using Map = QuadMap<m, w>;
  using Inner = AffineGeometry<double, m, m>;
  using Geo = MappedGeometry<Map, Inner>;
  Map f = Map::draw(10, true);
  double s[3];
  draw(s);
  value<false, Geo>([&](int k) {
    Map h = f;
    h.b += FieldVector<double, w>(k);
    FieldVector<double, m> o(k + s[0]);
    FieldMatrix<double, m, m> J(0);
    for (int i = 0; i < m; ++i) J[i][i] = k + 1 + s[1];
    return Geo(h, Inner(k == 1 ? GeometryTypes::cube(m) : GeometryTypes::simplex(m), o, J), k == 2);
  });
}

VP_ENTRY(affine11) { affine<1, 1, true>(); }
VP_ENTRY(affine12) { affine<1, 2, true>(); }
VP_ENTRY(affine22) { affine<2, 2, true>(); }
VP_ENTRY(affine23) { affine<2, 3, false>(); }
VP_ENTRY(affine33) { affine<3, 3, false>(); }
VP_ENTRY(box11) { box<1, 1>(); }
VP_ENTRY(box12) { box<1, 2>(); }
VP_ENTRY(box22) { box<2, 2>(); }
VP_ENTRY(box23) { box<2, 3>(); }
VP_ENTRY(box33) { box<3, 3>(); }
VP_ENTRY(multi11) { multi<MultiLinearGeometry<double, 1, 1>, true>(); }
VP_ENTRY(multi12) { multi<MultiLinearGeometry<double, 1, 2>, true>(); }
VP_ENTRY(multi22) { multi<MultiLinearGeometry<double, 2, 2>, true>(); }
VP_ENTRY(multi23) { multi<MultiLinearGeometry<double, 2, 3>, false>(); }
VP_ENTRY(multi33) { multi<MultiLinearGeometry<double, 3, 3>, false>(); }
VP_ENTRY(cached11) { multi<CachedMultiLinearGeometry<double, 1, 1>, true>(); }
VP_ENTRY(cached12) { multi<CachedMultiLinearGeometry<double, 1, 2>, true>(); }
VP_ENTRY(cached22) { multi<CachedMultiLinearGeometry<double, 2, 2>, true>(); }
VP_ENTRY(cached23) { multi<CachedMultiLinearGeometry<double, 2, 3>, false>(); }
VP_ENTRY(cached33) { multi<CachedMultiLinearGeometry<double, 3, 3>, false>(); }
VP_ENTRY(element11) { element<1, 1, false>(); }
VP_ENTRY(element22) { element<2, 2, false>(); }
VP_ENTRY(element23) { element<2, 3, true>(); }
VP_ENTRY(mapped11) { mapped<1, 1>(); }
VP_ENTRY(mapped22) { mapped<2, 2>(); }
VP_ENTRY(mapped23) { mapped<2, 3>(); }
