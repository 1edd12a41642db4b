// C24: dense (pseudo-)inverse helpers.  N, M: see entries.
#include "vp.hh"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/utility/defaultmatrixhelper.hh>
using namespace Dune;
using H = Impl::FieldMatrixHelper<double>;

template<int m, int n> using Mat = FieldMatrix<double, m, n>;
template<int n> using Vec = FieldVector<double, n>;

static const double B = 100;

template<int m, int n> Mat<m, n> mat()
{
  Mat<m, n> A;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      A[i][j] = vp_real("A", -B, B);
  return A;
}

// determinant of the leading k x k block, by cofactors
template<int n> double lead(const Mat<n, n>& G, int k)
{
  switch (k) {
  case 1: return G[0][0];
  case 2: return G[0][0]*G[1][1] - G[0][1]*G[1][0];
  case 4: {
    double s = 0;
    if constexpr (n >= 4)
      for (int c = 0; c < 4; ++c) {
        Mat<3, 3> M;
        for (int i = 1; i < 4; ++i) for (int j = 0, q = 0; j < 4; ++j) if (j != c) M[i-1][q++] = G[i][j];
        s += (c & 1 ? -1 : 1)*G[0][c]*lead(M, 3);
      }
    return s;
  }
  default:
    if constexpr (n >= 3)
      return G[0][0]*(G[1][1]*G[2][2] - G[1][2]*G[2][1])
           - G[0][1]*(G[1][0]*G[2][2] - G[1][2]*G[2][0])
           + G[0][2]*(G[1][0]*G[2][1] - G[1][1]*G[2][0]);
    return 0;
  }
}

template<int m, int n> Mat<m, m> gramRows(const Mat<m, n>& A)
{
  Mat<m, m> G;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j) {
      double s = 0;
      for (int k = 0; k < n; ++k) s += A[i][k]*A[j][k];
      G[i][j] = s;
    }
  return G;
}
template<int m, int n> Mat<n, m> transposed(const Mat<m, n>& A)
{
  Mat<n, m> T;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) T[j][i] = A[i][j];
  return T;
}

// full rank: the leading principal minors of the Gram matrix are positive
template<int n> double assumeRegular(const Mat<n, n>& G)
{
  for (int k = 1; k <= n; ++k) vp_assume_pos(lead(G, k));
  return lead(G, n);
}

template<int m, int n> void rightInv()
{
  Mat<m, n> A = mat<m, n>();
  Mat<m, m> G = gramRows(A);
  double g = assumeRegular(G);
  Mat<n, m> R;
  double det = H::rightInvA(A, R);
  vp_check(det > 0, "right inverse: volume factor positive");
  vp_eq(det*det, g, "right inverse: volume factor squared is the Gram determinant");
  // Moore-Penrose inverse A^T (A A^T)^{-1}:  A R = 1 and R G = A^T
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j) {
      double s = 0;
      for (int k = 0; k < n; ++k) s += A[i][k]*R[k][j];
      vp_eq(s, i == j, "right inverse: A R = 1");
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += R[i][k]*G[k][j];
      vp_eq(s, A[j][i], "right inverse: R (A A^T) = A^T");
    }
  double q = H::sqrtDetAAT(A);
  vp_check(q > 0, "sqrtDetAAT positive");
  vp_eq(q*q, g, "sqrtDetAAT squared is the Gram determinant");
}

template<int m, int n> void leftInv()
{
  Mat<m, n> A = mat<m, n>();
  Mat<n, n> G = gramRows(transposed(A));
  double g = assumeRegular(G);
  Mat<n, m> L;
  double det = H::leftInvA(A, L);
  vp_check(det > 0, "left inverse: volume factor positive");
  vp_eq(det*det, g, "left inverse: volume factor squared is the Gram determinant");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += L[i][k]*A[k][j];
      vp_eq(s, i == j, "left inverse: L A = 1");
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      double s = 0;
      for (int k = 0; k < n; ++k) s += G[i][k]*L[k][j];
      vp_eq(s, A[j][i], "left inverse: (A^T A) L = A^T");
    }
  double d2 = H::detATA(A);
  vp_check(d2 > 0, "detATA positive");
  vp_eq(d2*d2, g, "detATA squared is the Gram determinant");
}

// solves: least squares for m >= n (leftInvAx), minimum norm for m <= n (xTRightInvA)
template<int m, int n> void leftSolve()
{
  Mat<m, n> A = mat<m, n>();
  Mat<n, n> G = gramRows(transposed(A));
  assumeRegular(G);
  Vec<m> x = VP::vec<Vec<m>>("x", -B, B);
  Vec<n> y(0.);
  bool ok = H::template leftInvAx<m, n>(A, x, y);
  vp_check(ok, "least-squares solve succeeds for full rank");
  for (int j = 0; j < n; ++j) {
    double s = 0, t = 0;
    for (int k = 0; k < n; ++k) s += G[j][k]*y[k];
    for (int k = 0; k < m; ++k) t += A[k][j]*x[k];
    vp_eq(s, t, "least-squares solve: normal equations");
  }
}

template<int m, int n> void rightSolve()
{
  Mat<m, n> A = mat<m, n>();
  Mat<m, m> G = gramRows(A);
  assumeRegular(G);
  Vec<n> x = VP::vec<Vec<n>>("x", -B, B);
  Vec<m> y(0.);
  bool ok = H::template xTRightInvA<m, n>(A, x, y);
  vp_check(ok, "transposed solve succeeds for full rank");
  // y^T = x^T A^T (A A^T)^{-1}
  for (int i = 0; i < m; ++i) {
    double s = 0, t = 0;
    for (int k = 0; k < m; ++k) s += G[i][k]*y[k];
    for (int k = 0; k < n; ++k) t += A[i][k]*x[k];
    vp_eq(s, t, "transposed solve: normal equations");
  }
}

// rank deficiency is reported by the checked solve: last row/column is a
// multiple of the first
template<int m, int n> void rightSingular()
{
  Mat<m, n> A = mat<m, n>();
  double c = vp_real("c", -B, B);
  bool zero = vp_choose("zero", 0, 1);
  if (zero) for (int k = 0; k < n; ++k) A[0][k] = 0;
  else if constexpr (m > 1) for (int k = 0; k < n; ++k) A[m-1][k] = c*A[0][k];
  if (!zero && m > 2) {
    Mat<m, m> G = gramRows(A);
    for (int k = 1; k < m; ++k) vp_assume_pos(lead(G, k));
  }
  if (m == 1 && !zero) vp_skip();
  Vec<n> x = VP::vec<Vec<n>>("x", -B, B);
  Vec<m> y(0.);
  vp_check(!H::template xTRightInvA<m, n>(A, x, y), "transposed solve reports rank deficiency");
  Mat<n, m> At = transposed(A);
  Vec<m> z(0.);
  vp_check(!H::template leftInvAx<n, m>(At, x, z), "least-squares solve reports rank deficiency");
}

template<int n> void chol()
{
  // spd matrix: symmetric with positive leading minors
  Mat<n, n> A;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j)
      A[i][j] = A[j][i] = vp_real("S", -B, B);
  double g = assumeRegular(A);
  Mat<n, n> L(0.);
  bool ok = H::cholesky_L(A, L, true);
  vp_check(ok, "Cholesky succeeds for spd input");
  for (int i = 0; i < n; ++i) {
    vp_check(L[i][i] > 0, "Cholesky: positive diagonal");
    for (int j = 0; j <= i; ++j) {
      double s = 0;
      for (int k = 0; k <= j; ++k) s += L[i][k]*L[j][k];
      vp_eq(s, A[i][j], "Cholesky: L L^T = A");
    }
  }
  double d = H::detL(L);
  vp_eq(d*d, g, "detL");
  Mat<n, n> LLT, LTL;
  H::LLT(L, LLT);
  VP::eqm(LLT, A, "LLT");
  H::LTL(L, LTL);
  Vec<n> x = VP::vec<Vec<n>>("x", -B, B), u, w;
  H::Lx(L, x, u);
  H::LTx(L, x, w);
  for (int i = 0; i < n; ++i) {
    double s = 0, t = 0;
    for (int k = 0; k <= i; ++k) s += L[i][k]*x[k];
    for (int k = i; k < n; ++k) t += L[k][i]*x[k];
    vp_eq(u[i], s, "Lx");
    vp_eq(w[i], t, "LTx");
    for (int j = 0; j < n; ++j) {
      double q = 0;
      for (int k = 0; k < n; ++k) q += (k >= i ? L[k][i] : 0)*(k >= j ? L[k][j] : 0);
      vp_eq(LTL[i][j], q, "LTL");
    }
  }
  H::invLx(L, u);
  VP::eqv(u, x, "invLx inverts Lx");
  H::invLTx(L, w);
  VP::eqv(w, x, "invLTx inverts LTx");
  Mat<n, n> Li = L;
  double dl = H::invL(Li);
  vp_eq(dl, d, "invL returns the determinant");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) {
      double s = 0;
      for (int k = j; k <= i; ++k) s += L[i][k]*Li[k][j];
      vp_eq(s, i == j, "invL inverts L");
    }
  Mat<n, n> I = A;
  double ds = H::spdInvA(I);
  vp_eq(ds, d, "spdInvA returns the volume factor");
  vp_eq(H::spdDetA(A), d, "spdDetA");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      double s = 0;
      for (int k = 0; k < n; ++k) s += A[i][k]*I[k][j];
      vp_eq(s, i == j, "spdInvA inverts A");
    }
  Vec<n> b = x;
  Mat<n, n> A2 = A;
  vp_check(H::spdInvAx(A2, b, true), "spdInvAx succeeds");
  for (int i = 0; i < n; ++i) {
    double s = 0;
    for (int k = 0; k < n; ++k) s += A[i][k]*b[k];
    vp_eq(s, x[i], "spdInvAx solves");
  }
}

// products
template<int m, int n, int p> void products()
{
  Mat<m, n> A = mat<m, n>();
  Mat<p, m> C = mat<p, m>();
  Mat<n, p> R;
  H::ATBT(A, C, R);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < p; ++j) {
      double s = 0;
      for (int k = 0; k < m; ++k) s += A[k][i]*C[j][k];
      vp_eq(R[i][j], s, "ATBT");
    }
  Mat<n, n> L(0.);
  H::ATA_L(A, L);
  Mat<m, m> K(0.), F(0.);
  H::AAT_L(A, K);
  H::AAT(A, F);
  Mat<n, n> G = gramRows(transposed(A));
  Mat<m, m> G2 = gramRows(A);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) vp_eq(L[i][j], G[i][j], "ATA_L");
  for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) vp_eq(K[i][j], G2[i][j], "AAT_L");
  VP::eqm(F, G2, "AAT");
  Mat<n, n> G3; H::ATA(A, G3); VP::eqm(G3, G, "ATA");
  Mat<m, p> P; Mat<n, p> D = mat<n, p>();
  H::AB(A, D, P);
  for (int i = 0; i < m; ++i) for (int j = 0; j < p; ++j) {
    double s = 0;
    for (int k = 0; k < n; ++k) s += A[i][k]*D[k][j];
    vp_eq(P[i][j], s, "AB");
  }
  Vec<n> x = VP::vec<Vec<n>>("x", -B, B); Vec<m> ax; H::Ax(A, x, ax);
  Vec<m> y = VP::vec<Vec<m>>("y", -B, B); Vec<n> aty; H::ATx(A, y, aty);
  for (int i = 0; i < m; ++i) { double s = 0; for (int k = 0; k < n; ++k) s += A[i][k]*x[k]; vp_eq(ax[i], s, "Ax"); }
  for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < m; ++k) s += A[k][i]*y[k]; vp_eq(aty[i], s, "ATx"); }
}

VP_ENTRY(right11) { rightInv<1, 1>(); }
VP_ENTRY(right12) { rightInv<1, 2>(); }
VP_ENTRY(right13) { rightInv<1, 3>(); }
VP_ENTRY(right22) { rightInv<2, 2>(); }
VP_ENTRY(right23) { rightInv<2, 3>(); }
VP_ENTRY(right33) { rightInv<3, 3>(); }
VP_ENTRY(right14) { rightInv<1, 4>(); }
VP_ENTRY(right24) { rightInv<2, 4>(); }
VP_ENTRY(left11) { leftInv<1, 1>(); }
VP_ENTRY(left21) { leftInv<2, 1>(); }
VP_ENTRY(left31) { leftInv<3, 1>(); }
VP_ENTRY(left22) { leftInv<2, 2>(); }
VP_ENTRY(left32) { leftInv<3, 2>(); }
VP_ENTRY(left33) { leftInv<3, 3>(); }
VP_ENTRY(left42) { leftInv<4, 2>(); }
VP_ENTRY(lsolve11) { leftSolve<1, 1>(); }
VP_ENTRY(lsolve21) { leftSolve<2, 1>(); }
VP_ENTRY(lsolve31) { leftSolve<3, 1>(); }
VP_ENTRY(lsolve22) { leftSolve<2, 2>(); }
VP_ENTRY(lsolve32) { leftSolve<3, 2>(); }
VP_ENTRY(lsolve33) { leftSolve<3, 3>(); }
VP_ENTRY(rsolve11) { rightSolve<1, 1>(); }
VP_ENTRY(rsolve12) { rightSolve<1, 2>(); }
VP_ENTRY(rsolve13) { rightSolve<1, 3>(); }
VP_ENTRY(rsolve22) { rightSolve<2, 2>(); }
VP_ENTRY(rsolve23) { rightSolve<2, 3>(); }
VP_ENTRY(rsolve33) { rightSolve<3, 3>(); }
VP_ENTRY(singular12) { rightSingular<1, 2>(); }
VP_ENTRY(singular22) { rightSingular<2, 2>(); }
VP_ENTRY(singular23) { rightSingular<2, 3>(); }
VP_ENTRY(singular33) { rightSingular<3, 3>(); }
VP_ENTRY(chol1) { chol<1>(); }
VP_ENTRY(chol2) { chol<2>(); }
VP_ENTRY(chol3) { chol<3>(); }
VP_ENTRY(chol4) { chol<4>(); }
VP_ENTRY(prod232) { products<2, 3, 2>(); }
VP_ENTRY(prod321) { products<3, 2, 1>(); }
VP_ENTRY(prod223) { products<2, 2, 3>(); }
