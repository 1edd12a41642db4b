// C04: numbering of the subentities of the reference elements.
#include "vp.hh"
#include "refmodel.hh"
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

#ifndef CT
#define CT double
#endif

template<int d> void warm() { ReferenceElements<CT, d>::cube(); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), warm<4>(), 0);

static RefModel M, S;

template<int dim> unsigned element()
{
  unsigned half = dim < 2 ? 0 : vp_choose("topo", 0, (1u << (dim > 1 ? dim-1 : 0)) - 1);
  unsigned t = dim == 0 ? 0 : 2*half + vp_choose("bit0", 0, 1);
  M.build(t, dim);
  return t;
}

template<int dim> const auto& lookup(unsigned t)
{
  return ReferenceElements<CT, dim>::general(GeometryType(t, dim));
}

// sizes, types, corner sets of all subentities
template<int dim> void sizes()
{
  unsigned t = element<dim>();
  const auto& r = lookup<dim>(t);
  vp_check(r.type() == GeometryType(t, dim), "type of the element");
  int c = vp_choose("c", 0, dim);
  vp_eqi(r.size(c), M.nf[c], "number of subentities");
  int i = vp_int("i", 0, M.nf[c]-1);
  i = vp_conc(i);
  vp_check(r.type(i, c) == GeometryType(M.ftopo[c][i], dim-c), "type of a subentity");
  unsigned set = 0;
  int n = r.size(i, c, dim);
  for (int j = 0; j < n; ++j) {
    int v = r.subEntity(i, c, j, dim);
    vp_check(v >= 0 && v < M.nc, "corner number in range");
    vp_check(!((set >> v) & 1), "corners of a subentity are distinct");
    set |= 1u << v;
  }
  vp_eqi(set, M.face[c][i], "corners of a subentity");
  // the subentity lists itself, and nothing of lower codimension
  vp_eqi(r.size(i, c, c), 1, "a subentity contains itself once");
  vp_eqi(r.subEntity(i, c, 0, c), i, "a subentity contains itself");
  for (int cc = 0; cc < c; ++cc) vp_eqi(r.size(i, c, cc), 0, "no subentity of lower codimension");
}

// the numbering is the one predicted by the subentity's own reference element
template<int dim> void nested()
{
  unsigned t = element<dim>();
  const auto& r = lookup<dim>(t);
  int c = vp_choose("c", 0, dim);
  int i = vp_conc(vp_int("i", 0, M.nf[c]-1));
  int cc = vp_choose("cc", c, dim);
  S.build(M.ftopo[c][i], dim-c);
  vp_eqi(r.size(i, c, cc), S.nf[cc-c], "number of subentities of a subentity");
  auto range = r.subEntities(i, c, cc);
  vp_eqi(range.size(), S.nf[cc-c], "size of the range");
  vp_eqi(range.end() - range.begin(), S.nf[cc-c], "length of the range");
  int ii = vp_int("ii", 0, S.nf[cc-c]-1);
  int k = r.subEntity(i, c, ii, cc);
  vp_check(k >= 0 && k < M.nf[cc], "number in range");
  vp_check(range.contains(k), "range contains the subentity");
  vp_eqi(range.begin()[ii], k, "range enumerates the subentities");
  int q = vp_conc(ii);
  k = vp_conc(k);
  vp_check(r.type(k, cc) == GeometryType(S.ftopo[cc-c][q], dim-cc), "types agree");
  unsigned set = 0;
  for (int j = 0; j < S.nc; ++j)
    if ((S.face[cc-c][q] >> j) & 1) set |= 1u << r.subEntity(i, c, j, dim);
  vp_eqi(M.face[cc][k], set, "nested numbering");
  // composition of the numbering at every further level
  for (int c3 = cc; c3 <= dim; ++c3) {
    RefModel& T = S;
    (void)T;
    int n3 = r.size(k, cc, c3);
    for (int j = 0; j < n3; ++j) {
      int direct = r.subEntity(k, cc, j, c3);
      vp_check(r.subEntities(i, c, c3).contains(direct), "contains is transitive");
    }
  }
}

// membership test of the range equals inclusion of corner sets
template<int dim> void member()
{
  unsigned t = element<dim>();
  const auto& r = lookup<dim>(t);
  int c = vp_choose("c", 0, dim);
  int i = vp_conc(vp_int("i", 0, M.nf[c]-1));
  int cc = vp_choose("cc", 0, dim);
  int k = vp_int("k", 0, M.nf[cc]-1);
  int sub = cc >= c && (M.face[cc][k] & ~M.face[c][i]) == 0;
  auto range = r.subEntities(i, c, cc);
  vp_eqi(range.contains(k), sub, "contains");
  int found = 0;
  for (auto v : range) found += int(v) == k;
  vp_eqi(found, sub, "occurs once in the range");
}

// lookups deliver the same elements
template<int dim> void lookups()
{
  using R = ReferenceElements<CT, dim>;
  int n = 0;
  for (auto it = R::begin(); it != R::end(); ++it) {
    auto e = *it;
    vp_check(e == R::general(e.type()), "iteration and lookup agree");
    vp_eqi(e.type().dim(), dim, "dimension");
    ++n;
  }
  vp_eqi(n, 1 << dim, "number of reference elements");
  vp_check(R::simplex().type() == GeometryTypes::simplex(dim), "simplex");
  vp_check(R::cube().type() == GeometryTypes::cube(dim), "cube");
  vp_check(R::simplex() == R::general(GeometryTypes::simplex(dim)), "simplex lookup");
  vp_check(R::cube() == R::general(GeometryTypes::cube(dim)), "cube lookup");
  unsigned t = vp_choose("t", 0, (1 << dim)-1);
  GeometryType gt(t, dim);
  auto a = referenceElement<CT, dim>(gt);
  auto b = referenceElement<CT>(gt, Dim<dim>());
  auto c = referenceElement(CT(), gt, Dim<dim>());
  vp_check(a == R::general(gt) && b == a && c == a, "free function lookup");
  vp_check(!(a != b), "inequality");
  vp_check(a.type() == gt, "type");
  vp_check(hash_value(a) == hash_value(b), "hash");
  decltype(a) e;
  vp_check(e != a, "empty reference element");
  e = a;
  vp_check(e == a, "assignment");
}

#define ENTRIES(d) \
  VP_ENTRY(sizes##d) { sizes<d>(); } \
  VP_ENTRY(nested##d) { nested<d>(); } \
  VP_ENTRY(member##d) { member<d>(); } \
  VP_ENTRY(lookups##d) { lookups<d>(); }
ENTRIES(0) ENTRIES(1) ENTRIES(2) ENTRIES(3)
VP_ENTRY(sizes4) { sizes<4>(); }
VP_ENTRY(lookups4) { lookups<4>(); }
VP_ENTRY(nested4_T) { nested<4>(); }
VP_ENTRY(member4) { member<4>(); }
