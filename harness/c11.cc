// C11: cached multilinear geometry: answers do not depend on earlier calls.
#include "vp.hh"
#include <optional>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "gram.hh"
#include "mlfamily.hh"
#include "mlmodel.hh"
using namespace Dune;

static const double B = 10;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int m, int w, class Geo, class Plain>
struct History
{
  using V = FieldVector<double, w>;
  using X = FieldVector<double, m>;
  const Plain& plain;
  bool flat;                  // affine map: the inverse map can be compared
  X x, y;                     // two reference points
  V z;

  // one query on g, compared with the uncached geometry
  void query(const Geo& g, int what, bool compare)
  {
    const X& p = compare ? y : x;
    switch (what) {
    case 0: {
      bool a = g.affine();
      auto c = g.center();
      auto v = g.global(p);
      auto jt = g.jacobianTransposed(p);
      auto j = g.jacobian(p);
      if (compare) {
        vp_eqi(a, plain.affine(), "affine");
        VP::eqv(c, plain.center(), "center");
        VP::eqv(v, plain.global(p), "global");
        VP::eqm(jt, plain.jacobianTransposed(p), "jacobianTransposed");
        VP::eqm(j, plain.jacobian(p), "jacobian");
        vp_check(g.type() == plain.type(), "type");
        for (int i = 0; i < plain.corners(); ++i) VP::eqv(g.corner(i), plain.corner(i), "corner");
      }
      break;
    }
    case 1: { double v = g.integrationElement(p); if (compare) vp_eq(v, plain.integrationElement(p), "integrationElement"); break; }
    case 2: { double v = g.volume(); if (compare) vp_eq(v, plain.volume(), "volume"); break; }
    case 3: {
      auto v = g.jacobianInverseTransposed(p);
      if (compare) {
        auto u = plain.jacobianInverseTransposed(p);
        VP::eqm(v, u, "jacobianInverseTransposed");
        vp_eq(v.detInv(), u.detInv(), "determinant of the inverse");
      }
      break;
    }
    case 4: { auto v = g.jacobianInverse(p); if (compare) VP::eqm(v, plain.jacobianInverse(p), "jacobianInverse"); break; }
    case 5:
      if (flat) {
        auto v = g.local(compare ? plain.global(p) : z);
        if (compare) VP::eqv(v, p, "local");
      }
      break;
    }
  }
};

template<int m, int w> void history(unsigned topo, bool flat, int steps)
{
  using V = FieldVector<double, w>;
  using Geo = CachedMultiLinearGeometry<double, m, w>;
  using Plain = MultiLinearGeometry<double, m, w>;
  V o = VP::vec<V>("o", -B, B), a[3], d[4];
  FieldMatrix<double, m, w> J;
  for (int k = 0; k < m; ++k) J[k] = VP::vec<V>("J", -B, B);
  Gram<m, w> G(J);
  G.regular();
  typename History<m, w, Geo, Plain>::X x, y(0), wg;
  x = VP::vec<decltype(x)>("x", 0, 0.25);
  for (int j = 0; j < 4; ++j) d[j] = 0;
  if (!flat) {
    // the Jacobian at the compared point is J; the element's map is not affine
    double p[3] = {0, 0, 0}, q[4], dq[4][3];
    for (int k = 0; k < m; ++k) p[k] = y[k] = vp_real("y", 0, 0.25);
    int n = mlMonomials(topo, m, p, q, dq);
    for (int i = 0; i < n; ++i) d[i] = VP::vec<V>("d", -B, B);
    vp_assume_ge(d[0][0], 0.01);
    for (int k = 0; k < m; ++k) {
      a[k] = J[k];
      for (int j = 0; j < n; ++j) for (int i = 0; i < w; ++i) a[k][i] -= dq[j][k]*d[j][i];
    }
    x = y;                     // elsewhere the map may be singular
  } else {
    y = VP::vec<decltype(x)>("y", 0, 0.25);
    for (int k = 0; k < m; ++k) a[k] = J[k];
  }
  auto c = mlCorners<m, w>(topo, o, a, d);
  GeometryType gt(topo, m);
  Plain plain(gt, c);
  History<m, w, Geo, Plain> h{plain, flat, x, y, VP::vec<V>("z", -B, B)};
  // an unrelated geometry with the same and with another shape
  auto c2 = c;
  for (auto& v : c2) v = 0;
  for (std::size_t i = 1; i < c2.size(); ++i) c2[i][(i-1) % w] = i;
  Geo g(gt, c);
  const Geo* cur = &g;
  std::optional<Geo> copies[4];
  for (int s = 0; s < steps; ++s) {
    int op = vp_choose("op", 0, 8);
    if (op < 6) { if (flat || op != 2) h.query(*cur, op, false); else cur->affine(); }
    else if (op == 6) { copies[s].emplace(*cur); cur = &*copies[s]; }
    else if (op == 7) { copies[s].emplace(gt, c2); *copies[s] = *cur; cur = &*copies[s]; }
    else {
      // assignment over an object whose caches are filled
      RefModel r;
      r.build(topo, m);
      auto c3 = c;
      for (int i = 0; i < r.nc; ++i) { c3[i] = 0; for (int k = 0; k < m; ++k) c3[i][k] = 3*r.corner[i][k]; }
      copies[s].emplace(gt, c3);
      copies[s]->jacobianInverseTransposed(x);
      copies[s]->integrationElement(x);
      *copies[s] = *cur;
      cur = &*copies[s];
    }
  }
  int q = vp_choose("query", 0, 5);
  // the volume of a non-affine element evaluates at the centre
  if (!flat && q == 2) q = 0;
  h.query(*cur, q, true);
}

VP_ENTRY(line) { history<1, 2>(1, true, 2); }
VP_ENTRY(tri22) { history<2, 2>(1, true, 2); }
VP_ENTRY(tri23) { history<2, 3>(0, true, 2); }
VP_ENTRY(flat22) { history<2, 2>(3, true, 2); }
VP_ENTRY(quad22) { history<2, 2>(3, false, 2); }
VP_ENTRY(tet) { history<3, 3>(1, true, 1); }
VP_ENTRY(hex) { history<3, 3>(7, false, 1); }
VP_ENTRY(tri22_T) { history<2, 2>(1, true, 3); }
VP_ENTRY(tri23_T) { history<2, 3>(0, true, 3); }
VP_ENTRY(flat33_T) { history<3, 3>(7, true, 2); }
VP_ENTRY(pri_T) { history<3, 3>(5, false, 2); }
