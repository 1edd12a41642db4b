#ifndef GRAM_HH
#define GRAM_HH
#include <dune/common/fmatrix.hh>

// k x k determinant by cofactors of the leading block of a matrix
template<class M> double lead(const M& G, int k)
{
  if (k == 0) return 1;
  if (k == 1) return G[0][0];
  if (k == 2) return G[0][0]*G[1][1] - G[0][1]*G[1][0];
  return G[0][0]*(G[1][1]*G[2][2] - G[1][2]*G[2][1])
       - G[0][1]*(G[1][0]*G[2][2] - G[1][2]*G[2][0])
       + G[0][2]*(G[1][0]*G[2][1] - G[1][1]*G[2][0]);
}

// Gram matrix of the rows of J
template<int m, int w> struct Gram
{
  double G[3][3];
  Gram(const Dune::FieldMatrix<double, m, w>& J)
  {
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) {
        double s = 0;
        for (int k = 0; k < w; ++k) s += J[i][k]*J[j][k];
        G[i][j] = s;
      }
  }
  double det() const { return lead(G, m); }
  // rows linearly independent
  void regular() const { for (int k = 1; k <= m; ++k) vp_assume_pos(lead(G, k)); }
};

#endif
