// Exact integrals of monomials over the reference elements.
#ifndef QUADMODEL_HH
#define QUADMODEL_HH

namespace QuadModel {

  // a! b! / (a+b+k)!
  inline double beta(int a, int b, int k)
  {
    double r = 1;
    // a! / (a+b+k)! * b!
    int m = b;
    for (int i = a + 1; i <= a + b + k; ++i) { r /= i; if (m > 1) { r *= m; --m; } }
    for (; m > 1; --m) r *= m;
    return r;
  }

  // integral of x^a (1-x)^alpha over [0,1]
  inline double line(int a, int alpha) { return beta(a, alpha, 1); }

  // integral of x^e[0] y^e[1] z^e[2] ...; a bit of the topology per direction: product or cone
  inline double monomial(unsigned topo, int dim, const int* e)
  {
    if (dim == 0) return 1;
    const double base = monomial(topo, dim - 1, e);
    const int k = dim - 1;
    if (k == 0 || (topo >> k & 1)) return base/(e[k] + 1);
    // integral of z^c (1-z)^(degree of the base + its dimension)
    int deg = k;
    for (int i = 0; i < k; ++i) deg += e[i];
    return base*beta(e[k], deg, 1);
  }

  // points of a cone lie in the base scaled by 1 - z
  inline bool inside(unsigned topo, int dim, const double* p, double e)
  {
    bool ok = true;
    double scale = 1;
    for (int k = dim - 1; k >= 0; --k) {
      ok = ok && p[k] >= -e && p[k] <= scale + e;
      if (k > 0 && !(topo >> k & 1)) scale -= p[k];
    }
    return ok;
  }
}
#endif
