// C17: run-time refinements mirror the compile-time ones.
#include "vp.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/type.hh>
using namespace Dune;

template<int d> static void warm() { for (unsigned t = 0; t < (1u << d); ++t) ReferenceElements<double, d>::general(GeometryType(t, d)); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

template<int dim> struct Model
{
  int nv, ne;
  bool vb, eb, vx;                                  // equality of iterators of two refinements
  std::vector<FieldVector<double, dim>> v, e;
  std::vector<std::vector<int>> idx;

  template<unsigned topo, unsigned coerce> void fill(RefinementIntervals tag, RefinementIntervals tag2)
  {
    using R = StaticRefinement<topo, double, coerce, dim>;
    nv = R::nVertices(tag);
    ne = R::nElements(tag);
    vb = R::vBegin(tag) == R::vBegin(tag2);
    eb = R::eBegin(tag) == R::eBegin(tag2);
    vx = R::vBegin(tag) == R::vEnd(tag2);
    for (auto it = R::vBegin(tag); it != R::vEnd(tag); ++it) v.push_back(it.coords());
    for (auto it = R::eBegin(tag); it != R::eEnd(tag); ++it) {
      e.push_back(it.coords());
      auto s = it.vertexIndices();
      idx.push_back(std::vector<int>());
      for (std::size_t i = 0; i < s.size(); ++i) idx.back().push_back(s[i]);
    }
  }
};

// the compile-time refinement of a pair of types; false if there is none
template<int dim> bool select(Model<dim>& m, unsigned t, unsigned c, RefinementIntervals tag, RefinementIntervals tag2)
{
  t >>= 1; c >>= 1;
  if (t == 0 && c == 0) { m.template fill<0, 0>(tag, tag2); return true; }
  if constexpr (dim == 2) {
    if (t == 1 && c == 0) { m.template fill<2, 0>(tag, tag2); return true; }
    if (t == 1 && c == 1) { m.template fill<2, 2>(tag, tag2); return true; }
  }
  if constexpr (dim == 3) {
    if (t == 1 && c == 0) { m.template fill<2, 0>(tag, tag2); return true; }
    if (t == 2 && c == 0) { m.template fill<4, 0>(tag, tag2); return true; }
    if (t == 3 && c == 0) { m.template fill<6, 0>(tag, tag2); return true; }
    if (t == 3 && c == 3) { m.template fill<6, 6>(tag, tag2); return true; }
  }
  return false;
}

template<int dim> void mirror(int maxn)
{
  unsigned t = vp_choose("topology", 0, (1 << dim) - 1), c = vp_choose("coerce", 0, (1 << dim) - 1);
  bool levels = vp_choose("levels", 0, 1);
  int n = levels ? vp_choose("n", 0, maxn >= 4 ? 2 : 1) : vp_choose("n", 1, maxn);
  RefinementIntervals tag = levels ? refinementLevels(n) : refinementIntervals(n);
  GeometryType gt(t, dim), ct(c, dim);
  RefinementIntervals tag2 = refinementIntervals(vp_choose("other", 1, 2));
  Model<dim> m;
  if (!select<dim>(m, t, c, tag, tag2)) {
    bool rejected = false;
    try { buildRefinement<dim, double>(gt, ct); } catch (const NotImplemented&) { rejected = true; }
    vp_check(rejected, "unsupported pairs of types are rejected");
    return;
  }
  VirtualRefinement<dim, double>& r = buildRefinement<dim, double>(gt, ct);
  vp_check(&r == (&buildRefinement<dim, double>(gt, ct)), "the same refinement for the same pair");
  vp_eqi(r.nVertices(tag), m.nv, "number of vertices");
  vp_eqi(r.nElements(tag), m.ne, "number of elements");
  vp_eqi(r.vBegin(tag) == r.vBegin(tag2), m.vb, "vertex iterators of two refinements");
  vp_eqi(r.eBegin(tag) == r.eBegin(tag2), m.eb, "element iterators of two refinements");
  vp_eqi(r.vBegin(tag) == r.vEnd(tag2), m.vx, "begin and end of two refinements");
  int k = 0;
  auto ve = r.vEnd(tag);
  for (auto it = r.vBegin(tag); it != ve; ++it, ++k) {
    if (k >= m.nv) vp_fail("too many vertices");
    vp_eqi(it.index(), k, "vertex index");
    VP::eqv(it.coords(), m.v[k], "vertex coordinates");
  }
  vp_eqi(k, m.nv, "vertices visited");
  k = 0;
  auto ee = r.eEnd(tag);
  for (auto it = r.eBegin(tag); it != ee; ++it, ++k) {
    if (k >= m.ne) vp_fail("too many elements");
    vp_eqi(it.index(), k, "element index");
    VP::eqv(it.coords(), m.e[k], "element coordinates");
    auto idx = it.vertexIndices();
    vp_eqi(idx.size(), m.idx[k].size(), "number of vertex indices");
    for (std::size_t i = 0; i < idx.size(); ++i) vp_eqi(idx[i], m.idx[k][i], "vertex indices");
  }
  vp_eqi(k, m.ne, "elements visited");
}

// iterators under a history of copies, assignments and steps
template<class Begin, class End, class Coords>
void history(Begin begin, End end, int count, const Coords& coords, int length)
{
  using It = decltype(begin());
  It it[3] = { begin(), begin(), end() };
  int pos[3] = { 0, 0, count };
  auto look = [&](It& i, int p) {
    vp_eqi(i == end(), p == count, "an iterator is at the end exactly after all steps");
    if (p < count) {
      vp_eqi(i.index(), p, "index of an iterator");
      VP::eqv(i.coords(), coords[p], "coordinates of an iterator");
    }
  };
  for (int s = 0; s < length; ++s) {
    int op = vp_choose("op", 0, 2), a = vp_choose("a", 0, 2);
    if (op == 0) {
      int b = vp_choose("b", 0, 2);
      It& res = (it[a] = it[b]);
      vp_check(&res == &it[a], "assignment returns its target");
      pos[a] = pos[b];
    }
    else if (op == 1) {
      if (pos[a] == count) vp_skip();
      ++it[a];
      ++pos[a];
    }
    else {
      It copy(it[a]);
      vp_check(copy == it[a], "a copy equals its original");
      look(copy, pos[a]);
      if (pos[a] < count) {
        It old = copy++;
        look(old, pos[a]);
        look(copy, pos[a] + 1);
        vp_check(copy != it[a] && !(copy == it[a]), "an advanced copy differs from its original");
      }
    }
    for (int i = 0; i < 3; ++i) look(it[i], pos[i]);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        vp_eqi(it[i] == it[j], pos[i] == pos[j], "iterators are equal exactly at the same position");
        vp_eqi(it[i] != it[j], pos[i] != pos[j], "iterators are equal exactly at the same position");
      }
  }
}

template<int dim> void hist(unsigned t, unsigned c, int n, int length)
{
  RefinementIntervals tag(n);
  Model<dim> m;
  if (!select<dim>(m, t, c, tag, tag)) vp_fail("harness");
  VirtualRefinement<dim, double>& r = buildRefinement<dim, double>(GeometryType(t, dim), GeometryType(c, dim));
  if (vp_choose("elements", 0, 1))
    history([&] { return r.eBegin(tag); }, [&] { return r.eEnd(tag); }, m.ne, m.e, length);
  else
    history([&] { return r.vBegin(tag); }, [&] { return r.vEnd(tag); }, m.nv, m.v, length);
}

// iterators of different refinements never compare equal, and may be assigned
template<int dim> void mixed(const int (*pairs)[2], int np)
{
  int p = vp_choose("p", 0, np - 1), q = vp_choose("q", 0, np - 1);
  if (p == q) vp_skip();
  RefinementIntervals tag(vp_choose("n", 1, 2));
  Model<dim> m, k;
  select<dim>(m, pairs[p][0], pairs[p][1], tag, tag);
  select<dim>(k, pairs[q][0], pairs[q][1], tag, tag);
  auto& r = buildRefinement<dim, double>(GeometryType(pairs[p][0], dim), GeometryType(pairs[p][1], dim));
  auto& s = buildRefinement<dim, double>(GeometryType(pairs[q][0], dim), GeometryType(pairs[q][1], dim));
  vp_check(&r != &s, "different pairs have different refinements");
  auto a = r.eBegin(tag), b = s.eBegin(tag);
  vp_check(!(a == b) && !(b == a) && a != b, "elements of different refinements differ");
  auto va = r.vBegin(tag), vb = s.vBegin(tag);
  vp_check(!(va == vb) && va != vb, "vertices of different refinements differ");
  a = b;
  vp_check(a == b, "equal after assignment");
  ++a;
  vp_eqi(a.index(), 1, "index after a step");
  VP::eqv(b.coords(), k.e[0], "coordinates after assignment");
  vp_eqi(a == s.eEnd(tag), k.ne == 1, "end after assignment");
  if (k.ne > 1) {
    VP::eqv(a.coords(), k.e[1], "coordinates after assignment");
    auto idx = a.vertexIndices();
    vp_eqi(idx.size(), k.idx[1].size(), "number of vertex indices after assignment");
    for (std::size_t i = 0; i < idx.size(); ++i) vp_eqi(idx[i], k.idx[1][i], "vertex indices after assignment");
  }
  va = vb;
  vp_check(va == s.vBegin(tag), "equal after assignment");
  ++va;
  VP::eqv(va.coords(), k.v[1], "coordinates after assignment");
}

static const int pairs2[3][2] = { { 0, 0 }, { 2, 0 }, { 3, 3 } };
static const int pairs3[5][2] = { { 0, 0 }, { 2, 0 }, { 4, 0 }, { 6, 0 }, { 7, 7 } };

VP_ENTRY(one) { mirror<1>(6); }
VP_ENTRY(two) { mirror<2>(4); }
VP_ENTRY(three) { mirror<3>(2); }
VP_ENTRY(mix2) { mixed<2>(pairs2, 3); }
VP_ENTRY(mix3) { mixed<3>(pairs3, 5); }
VP_ENTRY(hline) { hist<1>(0, 0, 2, 3); }
VP_ENTRY(hquad) { hist<2>(2, 2, 1, 2); }
VP_ENTRY(hqtri) { hist<2>(2, 0, 1, 2); }
VP_ENTRY(htet) { hist<3>(0, 0, 1, 2); }
VP_ENTRY(hpyr) { hist<3>(2, 0, 1, 1); }
VP_ENTRY(three_T) { mirror<3>(4); }
VP_ENTRY(hqtri_T) { hist<2>(2, 0, 1, 4); }
VP_ENTRY(hpri_T) { hist<3>(4, 0, 1, 3); }
VP_ENTRY(hhex_T) { hist<3>(7, 0, 1, 3); }
