// C05: positions, embeddings, volumes and outer normals of the reference elements.
#include "vp.hh"
#include "refmodel.hh"
#include <dune/common/hybridutilities.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

#ifndef CT
#define CT double
#endif

template<int d> void warm() { ReferenceElements<CT, d>::cube(); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), warm<4>(), 0);

static RefModel M, S;

template<int dim> unsigned element()
{
  unsigned t = vp_choose("topo", 0, (1u << dim) - 1);
  M.build(t, dim);
  return t;
}

template<int dim, int c> void embedding()
{
  constexpr int m = dim-c;
  unsigned t = element<dim>();
  const auto& r = ReferenceElements<CT, dim>::general(GeometryType(t, dim));
  int i = vp_choose("i", 0, M.nf[c]-1);
  S.build(M.ftopo[c][i], m);
  // barycentre of the corners
  double bary[5] = {0, 0, 0, 0, 0};
  int corners[32], n = M.cornerSet(M.face[c][i], corners);
  for (int a = 0; a < n; ++a) for (int k = 0; k < dim; ++k) bary[k] += double(M.corner[corners[a]][k])/n;
  auto p = r.position(i, c);
  for (int k = 0; k < dim; ++k) vp_eq(p[k], bary[k], "position is the barycentre");
  auto g = r.template geometry<c>(i);
  vp_check(g.type() == GeometryType(M.ftopo[c][i], m), "type of the embedding");
  vp_check(g.affine(), "embedding is affine");
  vp_eqi(g.corners(), n, "corners of the embedding");
  // corner j of the embedding is the j-th corner of the subentity
  for (int j = 0; j < n; ++j) {
    int v = r.subEntity(i, c, j, dim);
    auto q = g.corner(j);
    FieldVector<CT, m> x;
    for (int k = 0; k < m; ++k) x[k] = S.corner[j][k];
    auto y = g.global(x);
    for (int k = 0; k < dim; ++k) {
      vp_eq(q[k], M.corner[v][k], "corner of the embedding");
      vp_eq(y[k], M.corner[v][k], "image of the reference corner");
    }
  }
  auto ce = g.center();
  for (int k = 0; k < dim; ++k) vp_eq(ce[k], bary[k], "centre of the embedding");
  // any point: affine combination of the corners 0, e_1, ..., e_m
  int unit[6] = {-1, -1, -1, -1, -1, -1};
  for (int j = 0; j < S.nc; ++j) {
    int s = 0, w = 0;
    for (int k = 0; k < m; ++k) if (S.corner[j][k]) { ++s; w = k+1; }
    if (s == 0) unit[0] = j;
    if (s == 1) unit[w] = j;
  }
  FieldVector<CT, m> x;
  for (int k = 0; k < m; ++k) x[k] = vp_real("x", -100, 100);
  auto y = g.global(x);
  int v0 = r.subEntity(i, c, unit[0], dim);
  for (int k = 0; k < dim; ++k) {
    double s = M.corner[v0][k];
    for (int a = 1; a <= m; ++a) s += x[a-1]*(M.corner[r.subEntity(i, c, unit[a], dim)][k] - M.corner[v0][k]);
    vp_eq(y[k], s, "embedding of a point");
  }
  auto xl = g.local(y);
  for (int k = 0; k < m; ++k) vp_eq(xl[k], x[k], "embedding is inverted");
  // integration element from the Gram determinant of the embedding
  auto jt = g.jacobianTransposed(x);
  for (int a = 1; a <= m; ++a)
    for (int k = 0; k < dim; ++k)
      vp_eq(jt[a-1][k], M.corner[r.subEntity(i, c, unit[a], dim)][k] - M.corner[v0][k], "jacobian of the embedding");
  vp_check(g.integrationElement(x) > 0, "integration element");
  vp_eq(g.volume(), g.integrationElement(x)*S.volume(), "volume of the embedding");
  // nested subentities: positions are mapped to positions
  for (int cc = 0; cc <= m; ++cc)
    for (int ii = 0; ii < S.nf[cc]; ++ii) {
      FieldVector<CT, m> b(0);
      int cs[32], nn = S.cornerSet(S.face[cc][ii], cs);
      for (int a = 0; a < nn; ++a) for (int k = 0; k < m; ++k) b[k] += CT(S.corner[cs[a]][k])/nn;
      auto img = g.global(b);
      auto pos = r.position(r.subEntity(i, c, ii, c+cc), c+cc);
      for (int k = 0; k < dim; ++k) vp_eq(img[k], pos[k], "nested positions");
    }
}

template<int dim> void volumeOf()
{
  unsigned t = element<dim>();
  const auto& r = ReferenceElements<CT, dim>::general(GeometryType(t, dim));
  vp_eq(r.volume(), M.volume(), "volume");
}

template<int dim> void normals()
{
  unsigned t = element<dim>();
  const auto& r = ReferenceElements<CT, dim>::general(GeometryType(t, dim));
  auto ce = r.position(0, 0);
  // F(x) = A x + b
  double A[4][4], b[4], flux = 0;
  for (int i = 0; i < dim; ++i) {
    b[i] = vp_real("b", -10, 10);
    for (int j = 0; j < dim; ++j) A[i][j] = vp_real("A", -10, 10);
  }
  for (int f = 0; f < M.nf[1]; ++f) {
    auto n = r.integrationOuterNormal(f);
    auto g = r.template geometry<1>(f);
    FieldVector<CT, dim-1> zero(0);
    auto jt = g.jacobianTransposed(zero);
    for (int a = 0; a < dim-1; ++a) {
      double s = 0;
      for (int k = 0; k < dim; ++k) s += n[k]*jt[a][k];
      vp_eq(s, 0, "normal is orthogonal to the facet");
    }
    double out = 0, len = 0, mu = g.integrationElement(zero);
    auto p = r.position(f, 1);
    for (int k = 0; k < dim; ++k) { out += n[k]*(p[k] - ce[k]); len += n[k]*n[k]; }
    vp_check(out > 0, "normal points outward");
    vp_eq(len, mu*mu, "length of the normal");
    S.build(M.ftopo[1][f], dim-1);
    double cc[5];
    S.centroid(cc);
    FieldVector<CT, dim-1> x;
    for (int k = 0; k < dim-1; ++k) x[k] = cc[k];
    auto y = g.global(x);
    for (int i = 0; i < dim; ++i) {
      double v = b[i];
      for (int j = 0; j < dim; ++j) v += A[i][j]*y[j];
      flux += S.volume()*v*n[i];
    }
  }
  double div = 0;
  for (int i = 0; i < dim; ++i) div += A[i][i];
  vp_eq(flux, div*M.volume(), "divergence theorem");
}

#define EMB(d, c) VP_ENTRY(emb##d##c) { embedding<d, c>(); }
EMB(0, 0)
EMB(1, 0) EMB(1, 1)
EMB(2, 0) EMB(2, 1) EMB(2, 2)
EMB(3, 0) EMB(3, 1) EMB(3, 2) EMB(3, 3)
EMB(4, 0) EMB(4, 1) EMB(4, 2) EMB(4, 3) EMB(4, 4)
VP_ENTRY(vol0) { volumeOf<0>(); }
VP_ENTRY(vol1) { volumeOf<1>(); }
VP_ENTRY(vol2) { volumeOf<2>(); }
VP_ENTRY(vol3) { volumeOf<3>(); }
VP_ENTRY(vol4) { volumeOf<4>(); }
VP_ENTRY(normal1) { normals<1>(); }
VP_ENTRY(normal2) { normals<2>(); }
VP_ENTRY(normal3) { normals<3>(); }
VP_ENTRY(normal4) { normals<4>(); }
