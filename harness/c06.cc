// C06: inside test of the reference elements.
#include "vp.hh"
#include "refmodel.hh"
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

#ifndef CT
#define CT double
#endif
// rejected when farther outside than this (64 machine epsilons, doubled per level)
#define TOL (sizeof(CT) == 4 ? 1e-4 : 1e-11)

template<int d> void warm() { ReferenceElements<CT, d>::cube(); }
static int init = (warm<1>(), warm<2>(), warm<3>(), warm<4>(), 0);

static RefModel M;

// facets from the corners only: hyperplanes n.x = b through corners with all
// corners on the side n.x <= b
struct Planes { int n = 0; int nor[40][4]; int b[40]; };

static long det(int k, long a[4][4])
{
  if (k == 0) return 1;
  if (k == 1) return a[0][0];
  long s = 0;
  for (int c = 0; c < k; ++c) {
    long m[4][4];
    for (int i = 1; i < k; ++i) for (int j = 0, q = 0; j < k; ++j) if (j != c) m[i-1][q++] = a[i][j];
    s += (c & 1 ? -1 : 1)*a[0][c]*det(k-1, m);
  }
  return s;
}

static void facets(Planes& P)
{
  int d = M.dim, idx[4];
  // faces of codimension 1 of the model; normal from d affinely independent corners
  for (int f = 0; f < M.nf[1]; ++f) {
    int cs[32], n = M.cornerSet(M.face[1][f], cs);
    bool done = false;
    for (idx[0] = 0; idx[0] < n && !done; ++idx[0])
    for (idx[1] = d > 1 ? idx[0]+1 : 0; idx[1] < (d > 1 ? n : 1) && !done; ++idx[1])
    for (idx[2] = d > 2 ? idx[1]+1 : 0; idx[2] < (d > 2 ? n : 1) && !done; ++idx[2])
    for (idx[3] = d > 3 ? idx[2]+1 : 0; idx[3] < (d > 3 ? n : 1) && !done; ++idx[3]) {
      long a[4][4];
      int nor[4]; bool zero = true;
      for (int k = 0; k < d; ++k) {
        for (int i = 1; i < d; ++i)
          for (int j = 0, q = 0; j < d; ++j)
            if (j != k) a[i-1][q++] = M.corner[cs[idx[i]]][j] - M.corner[cs[idx[0]]][j];
        nor[k] = (k & 1 ? -1 : 1)*int(det(d-1, a));
        if (nor[k]) zero = false;
      }
      if (zero) continue;
      done = true;
      int b = 0, side = 0;
      for (int k = 0; k < d; ++k) b += nor[k]*M.corner[cs[idx[0]]][k];
      bool good = true;
      for (int v = 0; v < M.nc; ++v) {
        int s = 0;
        for (int k = 0; k < d; ++k) s += nor[k]*M.corner[v][k];
        s -= b;
        if (s) { if (side && (s > 0) != (side > 0)) good = false; side = s; }
        vp_check((s == 0) == bool((M.face[1][f] >> v) & 1), "model facet contains exactly its corners");
      }
      vp_check(good, "model facet is a supporting plane");
      if (side > 0) { for (int k = 0; k < d; ++k) nor[k] = -nor[k]; b = -b; }
      for (int k = 0; k < d; ++k) P.nor[P.n][k] = nor[k];
      P.b[P.n++] = b;
    }
    vp_check(done, "model facet has a normal");
  }
}

template<int dim> unsigned element()
{
  unsigned t = vp_choose("topo", 0, (1u << dim) - 1);
  M.build(t, dim);
  return t;
}

// convex combinations of the corners are accepted
template<int dim> void accepts()
{
  unsigned t = element<dim>();
  const auto& r = ReferenceElements<CT, dim>::general(GeometryType(t, dim));
  double lam[16], rest = 1;
  FieldVector<CT, dim> x(0);
  for (int j = 1; j < M.nc; ++j) { lam[j] = vp_real("lam", 0, 1); rest -= lam[j]; }
  vp_assume_ge(rest, 0);
  lam[0] = rest;
  for (int j = 0; j < M.nc; ++j) for (int k = 0; k < dim; ++k) x[k] += lam[j]*M.corner[j][k];
  vp_check(r.checkInside(x), "points of the polytope are inside");
}

// accepted points satisfy the facet inequalities up to the tolerance
template<int dim> void rejects()
{
  unsigned t = element<dim>();
  const auto& r = ReferenceElements<CT, dim>::general(GeometryType(t, dim));
  Planes P;
  facets(P);
  FieldVector<CT, dim> x = VP::vec<FieldVector<CT, dim>>("x", -1000, 1000);
  bool in = r.checkInside(x);
  if (in) {
    vp_reach("inside");
    for (int f = 0; f < P.n; ++f) {
      double s = 0;
      for (int k = 0; k < dim; ++k) s += P.nor[f][k]*x[k];
      vp_check(s <= P.b[f] + TOL, "points outside are rejected");
    }
  } else {
    vp_reach("outside");
    // some facet inequality is violated or nearly so
    bool strict = true;
    for (int f = 0; f < P.n; ++f) {
      double s = 0;
      for (int k = 0; k < dim; ++k) s += P.nor[f][k]*x[k];
      strict = strict & (s <= P.b[f]);
    }
    vp_check(!strict, "rejected points violate a facet inequality");
  }
}

VP_ENTRY(accept1) { accepts<1>(); }
VP_ENTRY(accept2) { accepts<2>(); }
VP_ENTRY(accept3) { accepts<3>(); }
VP_ENTRY(accept4) { accepts<4>(); }
VP_ENTRY(reject1) { rejects<1>(); }
VP_ENTRY(reject2) { rejects<2>(); }
VP_ENTRY(reject3) { rejects<3>(); }
VP_ENTRY(reject4) { rejects<4>(); }
