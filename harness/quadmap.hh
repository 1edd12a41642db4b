// Quadratic maps with arbitrary coefficients, in the form a mapped geometry wants.
#ifndef QUADMAP_HH
#define QUADMAP_HH
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>

template<int n, int w> struct QuadMap
{
  using X = Dune::FieldVector<double, n>;
  using Y = Dune::FieldVector<double, w>;
  using M = Dune::FieldMatrix<double, w, n>;
  Y b;
  M A;
  double Q[w][n][n];          // coefficients of x_j x_k, j <= k

  static QuadMap draw(double B, bool quadratic)
  {
    QuadMap f;
    f.b = VP::vec<Y>("b", -B, B);
    for (int i = 0; i < w; ++i)
      for (int j = 0; j < n; ++j) {
        f.A[i][j] = vp_real("A", -B, B);
        // a full quadratic part for small maps, two of its terms otherwise
        for (int k = 0; k < n; ++k)
          f.Q[i][j][k] = quadratic && k >= j && (n*w < 9 || (j == 0 && k == 1) || (j == n-1 && k == n-1)) ? vp_real("Q", -B, B) : 0;
      }
    return f;
  }

  Y value(const X& x) const
  {
    Y y = b;
    for (int i = 0; i < w; ++i)
      for (int j = 0; j < n; ++j) {
        y[i] += A[i][j]*x[j];
        for (int k = j; k < n; ++k) y[i] += Q[i][j][k]*x[j]*x[k];
      }
    return y;
  }

  M deriv(const X& x) const
  {
    M D = A;
    for (int i = 0; i < w; ++i)
      for (int j = 0; j < n; ++j)
        for (int k = j; k < n; ++k) { D[i][j] += Q[i][j][k]*x[k]; D[i][k] += Q[i][j][k]*x[j]; }
    return D;
  }

  Y operator()(const X& x) const { return value(x); }

  struct Derivative
  {
    QuadMap f;
    M operator()(const X& x) const { return f.deriv(x); }
  };
  friend Derivative derivative(const QuadMap& f) { return Derivative{f}; }
};

#endif
