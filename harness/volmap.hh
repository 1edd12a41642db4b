// Even polynomials about the centre of gravity of an element: every quadrature
// rule with a point at the centre or positive weights separates them from the
// constants, so that agreement of two different rules means convergence.
#ifndef VOLMAP_HH
#define VOLMAP_HH
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>

// s = k x - 1 with k = 2 on cubes and dim+1 on simplices
template<int dim> struct VolPoly
{
  double c[4];                  // coefficients of 1, s^2, s^4, s^6
  int k;
  static VolPoly draw(bool simplex, int terms, double hi)
  {
    VolPoly p;
    p.k = simplex ? dim + 1 : 2;
    p.c[0] = vp_real("c", 0.125, hi);
    for (int i = 1; i < 4; ++i) p.c[i] = i < terms ? vp_real("c", 0, hi) : 0.0;
    return p;
  }
  double density(double x) const
  {
    double s = k*x - 1, s2 = s*s;
    return c[0] + s2*(c[1] + s2*(c[2] + s2*c[3]));
  }
  double primitive(double x) const
  {
    double s = k*x - 1, s2 = s*s;
    return s*(c[0] + s2*(c[1]/3 + s2*(c[2]/5 + s2*c[3]/7)))/k;
  }
  // integral of the density over the element
  double exact(bool simplex) const
  {
    double r = 0;
    for (int i = 0; i < 4; ++i) {
      // (kx-1)^(2i) by the binomial theorem
      double b = 1, m = 0, kp = 1;
      for (int j = 0; j <= 2*i; ++j) {
        double mono = 1.0/(j+1);                         // integral of x^j
        if (simplex) for (int d = 2; d <= dim; ++d) mono /= j+d;
        m += ((j & 1) ? -1 : 1)*b*kp*mono;
        b = b*(2*i-j)/(j+1);
        kp *= k;
      }
      r += c[i]*m;
    }
    return r;
  }
};

template<int n> struct VolMap
{
  VolPoly<n> p;
  using X = Dune::FieldVector<double, n>;
  using D = Dune::FieldMatrix<double, n, n>;
  X operator()(const X& x) const { X y = x; y[0] = p.primitive(x[0]); return y; }
  struct Derivative
  {
    VolPoly<n> p;
    D operator()(const X& x) const
    {
      D d(0);
      d[0][0] = p.density(x[0]);
      for (int k = 1; k < n; ++k) d[k][k] = 1;
      return d;
    }
  };
  friend Derivative derivative(const VolMap& m) { return Derivative{m.p}; }
};

// the same as a one-term finite element: sum of c_i * shape_i with shape_i of
// range dimension 1, mapped into n dimensions by vector-valued coefficients
template<int dim> struct VolLFE
{
  struct Basis
  {
    struct Traits
    {
      using DomainFieldType = double;
      static constexpr int dimDomain = dim;
      using DomainType = Dune::FieldVector<double, dim>;
      using RangeType = Dune::FieldVector<double, 1>;
      using JacobianType = Dune::FieldMatrix<double, 1, dim>;
    };
    int k = 2;
    // shapes: primitives of s^(2i), and the other coordinates
    std::size_t size() const { return 4 + dim - 1; }
    unsigned order() const { return 7; }
    void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
    {
      out.resize(size());
      for (int i = 0; i < 4; ++i) {
        VolPoly<dim> p{{double(i == 0), double(i == 1), double(i == 2), double(i == 3)}, k};
        out[i] = p.primitive(x[0]);
      }
      for (int j = 1; j < dim; ++j) out[3 + j] = x[j];
    }
    void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
    {
      out.resize(size());
      for (std::size_t i = 0; i < size(); ++i) for (int j = 0; j < dim; ++j) out[i][0][j] = 0;
      for (int i = 0; i < 4; ++i) {
        VolPoly<dim> p{{double(i == 0), double(i == 1), double(i == 2), double(i == 3)}, k};
        out[i][0][0] = p.density(x[0]);
      }
      for (int j = 1; j < dim; ++j) out[3 + j][0][j] = 1;
    }
  };
  struct Interpolation { template<class F, class C> void interpolate(const F&, std::vector<C>&) const {} };
  struct Traits { using LocalBasisType = Basis; };
  Basis basis;
  Interpolation interpolation;
  VolLFE(int k = 2) { basis.k = k; }
  std::size_t size() const { return basis.size(); }
  const Basis& localBasis() const { return basis; }
  const Interpolation& localInterpolation() const { return interpolation; }
};
#endif
