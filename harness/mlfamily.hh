// Multilinear maps o + sum_k a_k x_k + sum_q d_q q(x) with the shape's nonlinear
// monomials q, given by the Jacobian at one point instead of by the a_k.
#ifndef MLFAMILY_HH
#define MLFAMILY_HH
#include <vector>
#include <dune/common/fvector.hh>
#include "refmodel.hh"

// nonlinear monomials of the shape: value and gradient at p
inline int mlMonomials(unsigned topo, int dim, const double* p, double q[4], double dq[4][3])
{
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) dq[i][k] = 0;
  topo >>= 1;
  if (dim == 2 && topo == 1) { q[0] = p[0]*p[1]; dq[0][0] = p[1]; dq[0][1] = p[0]; return 1; }
  if (dim == 3 && topo == 1) {
    double w = 1 - p[2];
    q[0] = p[0]*p[1]/w; dq[0][0] = p[1]/w; dq[0][1] = p[0]/w; dq[0][2] = p[0]*p[1]/(w*w);
    return 1;
  }
  if (dim == 3 && topo == 2) {
    q[0] = p[0]*p[2]; dq[0][0] = p[2]; dq[0][2] = p[0];
    q[1] = p[1]*p[2]; dq[1][1] = p[2]; dq[1][2] = p[1];
    return 2;
  }
  if (dim == 3 && topo == 3) {
    q[0] = p[0]*p[1]; dq[0][0] = p[1]; dq[0][1] = p[0];
    q[1] = p[0]*p[2]; dq[1][0] = p[2]; dq[1][2] = p[0];
    q[2] = p[1]*p[2]; dq[2][1] = p[2]; dq[2][2] = p[1];
    q[3] = p[0]*p[1]*p[2]; dq[3][0] = p[1]*p[2]; dq[3][1] = p[0]*p[2]; dq[3][2] = p[0]*p[1];
    return 4;
  }
  return 0;
}

inline int mlMonomialCount(unsigned topo, int dim)
{
  double p[3] = {0, 0, 0}, q[4], dq[4][3];
  return mlMonomials(topo, dim, p, q, dq);
}

// corners of the map
template<int m, int w>
std::vector<Dune::FieldVector<double, w>> mlCorners(unsigned topo, const Dune::FieldVector<double, w>& o,
                                                    const Dune::FieldVector<double, w>* a, const Dune::FieldVector<double, w>* d)
{
  RefModel r;
  r.build(topo, m);
  std::vector<Dune::FieldVector<double, w>> c(r.nc, o);
  for (int i = 0; i < r.nc; ++i) {
    double p[3] = {0, 0, 0}, q[4], dq[4][3];
    for (int k = 0; k < m; ++k) p[k] = r.corner[i][k];
    for (int k = 0; k < m; ++k) if (r.corner[i][k]) c[i] += a[k];
    bool apex = m == 3 && (topo >> 1) == 1 && i == 4;
    int n = apex ? 0 : mlMonomials(topo, m, p, q, dq);
    for (int j = 0; j < n; ++j) if (q[j] != 0) c[i] += d[j];
  }
  return c;
}

#endif
