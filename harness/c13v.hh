// C13: volume of a finite-element geometry.
#include "vp.hh"
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "volmap.hh"
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int dim> void volume(unsigned topo, int terms)
{
  GeometryType gt(topo, dim);
  const bool simplex = dim > 1 && (topo >> 1) == 0;
  auto p = VolPoly<dim>::draw(simplex, terms, 4);
  VolLFE<dim> fe(p.k);
  std::vector<FieldVector<double, dim>> c(fe.size(), FieldVector<double, dim>(0));
  for (int i = 0; i < 4; ++i) c[i][0] = p.c[i];
  for (int j = 1; j < dim; ++j) c[3 + j][j] = 1;
  LocalFiniteElementGeometry<VolLFE<dim>, dim> g(referenceElement<double, dim>(gt), fe, c);
  vp_eq(g.volume(), p.exact(simplex), "volume");
  const auto& r = QuadratureRules<double, dim>::rule(gt, vp_choose("p", 1, 4));
  double s = 0;
  for (std::size_t i = 0; i < r.size(); ++i) s += r[i].weight()*p.density(r[i].position()[0]);
  vp_eq(g.volume(r), s, "volume by a rule");
}

VP_ENTRY(vline) { volume<1>(vp_choose("topology", 0, 1), 4); }
VP_ENTRY(vtri) { volume<2>(0, 3); }
VP_ENTRY(vquad) { volume<2>(2, 3); }
VP_ENTRY(vhex) { volume<3>(6, 2); }
