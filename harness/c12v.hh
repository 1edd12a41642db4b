// C12: volume of a mapped geometry.
#include "vp.hh"
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
#include "volmap.hh"
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int dim> void volume(unsigned topo, int terms)
{
  GeometryType gt(topo, dim);
  const bool simplex = dim > 1 && (topo >> 1) == 0;
  auto inner = referenceElement<double, dim>(gt).template geometry<0>(0);
  VolMap<dim> f{VolPoly<dim>::draw(simplex, terms, 4)};
  using Geo = MappedGeometry<VolMap<dim>, decltype(inner)>;
  Geo g(f, inner, false);
  vp_eq(g.volume(), f.p.exact(simplex), "volume");
  // the sum over a given rule
  const auto& r = QuadratureRules<double, dim>::rule(gt, vp_choose("p", 1, 4));
  double s = 0;
  for (std::size_t i = 0; i < r.size(); ++i) s += r[i].weight()*f.p.density(r[i].position()[0]);
  vp_eq(g.volume(r), s, "volume by a rule");
}

template<int dim> void affine(unsigned topo)
{
  GeometryType gt(topo, dim);
  auto inner = referenceElement<double, dim>(gt).template geometry<0>(0);
  VolMap<dim> f{VolPoly<dim>::draw(false, 1, 4)};
  bool flag = vp_choose("affine", 0, 1);
  using Geo = MappedGeometry<VolMap<dim>, decltype(inner)>;
  Geo g(f, inner, flag);
  vp_eq(g.volume(), f.p.c[0]*referenceElement<double, dim>(gt).volume(), "volume of an affine image");
}

VP_ENTRY(vline) { volume<1>(vp_choose("topology", 0, 1), 4); }
VP_ENTRY(vtri) { volume<2>(0, 3); }
VP_ENTRY(vquad) { volume<2>(2, 3); }
VP_ENTRY(vtet) { volume<3>(0, 2); }
VP_ENTRY(vhex) { volume<3>(6, 2); }
VP_ENTRY(vaff1) { affine<1>(0); }
VP_ENTRY(vaff2) { affine<2>(vp_choose("topology", 0, 3)); }
VP_ENTRY(vaff3) { affine<3>(vp_choose("topology", 0, 7)); }
