// Local finite elements for the tests: (multi-)linear Lagrange elements on all
// shapes, quadratic Lagrange elements on lines and triangles.
#ifndef LFE_HH
#define LFE_HH
#include <cstddef>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include "mlmodel.hh"
#include "refmodel.hh"

template<int dim, bool quadratic> struct TestLFE
{
  struct Basis
  {
    struct Traits
    {
      using DomainFieldType = double;
      static constexpr int dimDomain = dim;
      using DomainType = Dune::FieldVector<double, dim>;
      using RangeType = Dune::FieldVector<double, 1>;
      using JacobianType = Dune::FieldMatrix<double, 1, dim>;
    };
    unsigned topo = 0;

    struct Values { int n; double N[10], D[10][3]; };

    Values values(const typename Traits::DomainType& x) const
    {
      Values v;
      double p[3] = {0, 0, 0};
      for (int k = 0; k < dim; ++k) p[k] = x[k];
      if (!quadratic) {
        MLModel M(topo, dim, p);
        v.n = M.n;
        for (int i = 0; i < v.n; ++i) { v.N[i] = M.N[i]; for (int k = 0; k < 3; ++k) v.D[i][k] = M.D[i][k]; }
      } else {
        // corners l(2l-1), edges 4 l l'
        double l[4], d[4][3];
        l[0] = 1;
        for (int k = 0; k < dim; ++k) { l[0] -= p[k]; l[k+1] = p[k]; }
        for (int i = 0; i <= dim; ++i) for (int k = 0; k < 3; ++k) d[i][k] = i == 0 ? -1 : i == k+1;
        v.n = 0;
        for (int i = 0; i <= dim; ++i) {
          v.N[v.n] = l[i]*(2*l[i] - 1);
          for (int k = 0; k < dim; ++k) v.D[v.n][k] = (4*l[i] - 1)*d[i][k];
          ++v.n;
        }
        for (int i = 0; i <= dim; ++i)
          for (int j = 0; j < i; ++j) {
            v.N[v.n] = 4*l[i]*l[j];
            for (int k = 0; k < dim; ++k) v.D[v.n][k] = 4*(l[i]*d[j][k] + d[i][k]*l[j]);
            ++v.n;
          }
      }
      return v;
    }

    std::size_t size() const
    {
      if (quadratic) return (dim+1)*(dim+2)/2;
      RefModel r;
      r.build(topo, dim);
      return r.nc;
    }
    unsigned order() const { return quadratic ? 2 : 1; }
    void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
    {
      Values v = values(x);
      out.resize(v.n);
      for (int i = 0; i < v.n; ++i) out[i] = v.N[i];
    }
    void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
    {
      Values v = values(x);
      out.resize(v.n);
      for (int i = 0; i < v.n; ++i) for (int k = 0; k < dim; ++k) out[i][0][k] = v.D[i][k];
    }
  };

  struct Interpolation
  {
    unsigned topo = 0;
    template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const
    {
      RefModel r;
      r.build(quadratic ? 0 : topo, dim);
      out.clear();
      Dune::FieldVector<double, dim> x;
      for (int i = 0; i < r.nc; ++i) {
        for (int k = 0; k < dim; ++k) x[k] = r.corner[i][k];
        out.push_back(f(x));
      }
      if (quadratic)
        for (int i = 0; i < r.nc; ++i)
          for (int j = 0; j < i; ++j) {
            for (int k = 0; k < dim; ++k) x[k] = 0.5*(r.corner[i][k] + r.corner[j][k]);
            out.push_back(f(x));
          }
    }
  };

  struct Traits { using LocalBasisType = Basis; };
  Basis basis;
  Interpolation interpolation;
  TestLFE(unsigned topo = 0) { basis.topo = topo; interpolation.topo = topo; }
  std::size_t size() const { return basis.size(); }
  const Basis& localBasis() const { return basis; }
  const Interpolation& localInterpolation() const { return interpolation; }
};

#endif
