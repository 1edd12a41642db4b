// C15: subelements of a refinement tile the reference element.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "mlmodel.hh"
#include "refmodel.hh"
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

static const double EPS = 1e-9;

// signed distances to the facets of the reference element: 0 <= h_i inside
static int facets(unsigned topo, int dim, const double* p, double* h)
{
  unsigned t = topo >> 1;
  int n = 0;
  double s = 1;
  for (int k = 0; k < dim; ++k) { h[n++] = p[k]; s -= p[k]; }
  if (dim == 1) h[n++] = 1 - p[0];
  else if (t == 0) h[n++] = s;
  else if (dim == 2) { h[n++] = 1 - p[0]; h[n++] = 1 - p[1]; }
  else if (t == 1) { h[n++] = 1 - p[0] - p[2]; h[n++] = 1 - p[1] - p[2]; }
  else if (t == 2) { h[n++] = 1 - p[0] - p[1]; h[n++] = 1 - p[2]; }
  else for (int k = 0; k < dim; ++k) h[n++] = 1 - p[k];
  return n;
}

// barycentric coordinates of x in a simplex, and its volume
template<int dim> double barycentric(const double c[][3], const double* x, double* l)
{
  double a[3][3], v = 1;
  for (int i = 0; i < dim; ++i) for (int k = 0; k < dim; ++k) a[i][k] = c[i+1][k] - c[0][k];
  double det = 0, cof[3][3];
  if (dim == 1) { cof[0][0] = 1; det = a[0][0]; }
  if (dim == 2) {
    cof[0][0] = a[1][1]; cof[0][1] = -a[1][0]; cof[1][0] = -a[0][1]; cof[1][1] = a[0][0];
    det = a[0][0]*a[1][1] - a[0][1]*a[1][0];
  }
  if (dim == 3) {
    for (int i = 0; i < 3; ++i)
      for (int k = 0; k < 3; ++k) {
        int i1 = (i+1)%3, i2 = (i+2)%3, k1 = (k+1)%3, k2 = (k+2)%3;
        cof[i][k] = a[i1][k1]*a[i2][k2] - a[i1][k2]*a[i2][k1];
      }
    for (int k = 0; k < 3; ++k) det += a[0][k]*cof[0][k];
  }
  vp_check(det > 1e-9 || det < -1e-9, "subelement is not degenerate");
  l[0] = 1;
  for (int i = 0; i < dim; ++i) {
    l[i+1] = 0;
    for (int k = 0; k < dim; ++k) l[i+1] += cof[i][k]*(x[k] - c[0][k])/det;
    l[0] -= l[i+1];
  }
  for (int i = 2; i <= dim; ++i) v /= i;
  return (det > 0 ? det : -det)*v;
}

template<unsigned topo, unsigned coerce, int dim> void tile(int maxn)
{
  using R = StaticRefinement<topo, double, coerce, dim>;
  const bool cubes = (coerce >> 1) != 0;
  int n = vp_choose("n", 1, maxn);
  RefModel r;
  r.build(topo, dim);
  // any point of the element
  double x[3] = {0, 0, 0}, h[8];
  for (int k = 0; k < dim; ++k) x[k] = vp_real("x", 0, 1);
  mlInside(topo, dim, x);
  bool covered = false;
  double volume = 0;
  int count = 0;
  for (auto it = R::eBegin(refinementIntervals(n)); it != R::eEnd(refinementIntervals(n)); ++it, ++count) {
    auto g = it.geometry();
    vp_check(g.type() == GeometryType(coerce, dim), "shape of a subelement");
    const int nc = cubes ? 1 << dim : dim + 1;
    vp_eqi(g.corners(), nc, "number of corners of a subelement");
    double c[8][3], mean[3] = {0, 0, 0};
    for (int i = 0; i < nc; ++i) {
      auto p = g.corner(i);
      for (int k = 0; k < dim; ++k) { c[i][k] = p[k]; mean[k] += p[k]/nc; }
      int nf = facets(topo, dim, c[i], h);
      for (int f = 0; f < nf; ++f) vp_check(h[f] >= -EPS, "subelement lies inside the element");
    }
    auto mid = it.coords();
    for (int k = 0; k < dim; ++k) vp_eq(mid[k], mean[k], "coordinates are the centre of the subelement");
    VP::eqv(g.center(), mid, "coordinates are the centre of the subelement");
    double v, l[8];
    bool in = true;
    if (cubes) {
      v = 1;
      for (int k = 0; k < dim; ++k) {
        double lo = c[0][k], up = c[nc-1][k];
        vp_check(up - lo > EPS, "subelement is not degenerate");
        for (int i = 0; i < nc; ++i) vp_eq(c[i][k], (i >> k) & 1 ? up : lo, "corners of a subcube");
        v *= up - lo;
        in &= x[k] >= lo - EPS;
        in &= x[k] <= up + EPS;
      }
    } else {
      v = barycentric<dim>(c, x, l);
      for (int i = 0; i <= dim; ++i) in &= l[i] >= -EPS;
    }
    vp_eq(g.volume(), v, "volume of a subelement");
    volume += v;
    covered |= in;
  }
  vp_eqi(count, R::nElements(refinementIntervals(n)), "number of subelements");
  // covering and volumes adding up: disjoint interiors
  vp_eq(volume, r.volume(), "volumes of the subelements add up");
  vp_check(covered, "every point is covered");
}

VP_ENTRY(line) { tile<0, 0, 1>(8); }
VP_ENTRY(line1) { tile<1, 1, 1>(3); }
VP_ENTRY(tri) { tile<0, 0, 2>(5); }
VP_ENTRY(quad) { tile<2, 2, 2>(5); }
VP_ENTRY(quadtri) { tile<3, 1, 2>(4); }
VP_ENTRY(tet) { tile<0, 0, 3>(3); }
VP_ENTRY(hex) { tile<6, 6, 3>(3); }
VP_ENTRY(hextet) { tile<7, 1, 3>(2); }
VP_ENTRY(pritet) { tile<5, 1, 3>(2); }
VP_ENTRY(pyrtet) { tile<3, 1, 3>(2); }
VP_ENTRY(tri_T) { tile<0, 0, 2>(9); }
VP_ENTRY(quad_T) { tile<2, 2, 2>(9); }
VP_ENTRY(quadtri_T) { tile<3, 1, 2>(8); }
VP_ENTRY(tet_T) { tile<0, 0, 3>(4); }
VP_ENTRY(hex_T) { tile<6, 6, 3>(4); }
VP_ENTRY(hextet_T) { tile<7, 1, 3>(3); }
VP_ENTRY(pritet_T) { tile<5, 1, 3>(4); }
VP_ENTRY(pyrtet_T) { tile<3, 1, 3>(4); }
