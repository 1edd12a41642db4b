// C22: vertex orders.
#include "vp.hh"
#include "refmodel.hh"
#include <vector>
#include <algorithm>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

template<int d> void warm() { ReferenceElements<double, d>::cube(); }
static int init = (warm<0>(), warm<1>(), warm<2>(), warm<3>(), 0);

static RefModel M;

// rank of a[i] among a[0..n)
static unsigned long rankOf(const unsigned long* a, int n, int i)
{
  unsigned long r = 0;
  for (int j = 0; j < n; ++j) r += a[j] < a[i];
  return r;
}

template<int n> void reduce()
{
  unsigned long a[n], out[n];
  for (int i = 0; i < n; ++i) { a[i] = vp_u64("v"); out[i] = ~0ul; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vp_assume(a[i] != a[j]);
  reduceOrder(&a[0], &a[0] + n, &out[0]);
  for (int i = 0; i < n; ++i) {
    vp_check(out[i] < (unsigned long)n, "reduced numbers are 0..n-1");
    vp_check(out[i] == rankOf(a, n, i), "reduced number is the rank");
    if (n <= 4) for (int j = 0; j < i; ++j) vp_check((out[i] < out[j]) == (a[i] < a[j]), "relative order is kept");
  }
}

template<int dim> void order()
{
  unsigned t = dim == 0 ? 0 : vp_choose("topo", 0, (1u << dim) - 1);
  M.build(t, dim);
  GeometryType gt(t, dim);
  unsigned long a[8];
  for (int i = 0; i < M.nc; ++i) a[i] = vp_int("v", 0, 63);
  for (int i = 0; i < M.nc; ++i) for (int j = 0; j < i; ++j) vp_assume(a[i] != a[j]);
  const unsigned long *first = a, *last = a + M.nc;
  GeneralVertexOrder<dim> vo(gt, first, last);
  vp_check(vo.type() == gt, "type");
  unsigned long red[8];
  for (int i = 0; i < M.nc; ++i) red[i] = rankOf(a, M.nc, i);
  int c = vp_choose("c", 0, dim);
  int s = vp_choose("s", 0, M.nf[c]-1);
  const auto& re = ReferenceElements<double, dim>::general(gt);
  int cs[8], n = re.size(s, c, dim);
  unsigned set = 0;
  for (int j = 0; j < n; ++j) { cs[j] = re.subEntity(s, c, j, dim); set |= 1u << cs[j]; }
  vp_eqi(set, M.face[c][s], "corners of the subentity");
  auto b = vo.begin(c, s), e = vo.end(c, s);
  vp_eqi(e - b, n, "length of the range");
  vp_eqi(b - e, -n, "negative distance");
  int k = 0;
  for (auto it = b; it != e; ++it, ++k) {
    vp_check(*it == red[cs[k]], "reduced numbers of the corners");
    vp_eqi(it - b, k, "distance");
  }
  vp_eqi(k, n, "number of steps");
  // random access
  int off = vp_choose("off", 0, n-1);
  vp_check(b[off] == red[cs[off]], "element access");
  auto it = b; it += off;
  vp_check(*it == red[cs[off]], "advance");
  for (int j = 0; j < n; ++j) vp_check(it[j-off] == red[cs[j]], "element access from a moved iterator");
  vp_check((it == b) == (off == 0) && (it != e), "comparison");
  vp_check((b < it) == (off > 0) && it < e && e > it && b <= it && it >= b, "ordering");
  auto r = e; r -= n-off;
  vp_check(r == it, "advance backwards");
  auto d = e; --d;
  vp_check(*d == red[cs[n-1]], "decrement");
  vp_check((b + off) == it && (e - (n-off)) == it, "iterator arithmetic");
  // reduced numbers within the subentity
  std::vector<unsigned long> v;
  vo.getReduced(c, s, v);
  vp_eqi(v.size(), n, "size of the reduced order");
  unsigned long loc[8];
  // ranks have the same relative order as the numbers themselves
  for (int j = 0; j < n; ++j) loc[j] = dim < 3 ? a[cs[j]] : red[cs[j]];
  for (int j = 0; j < n; ++j) vp_check(v[j] == rankOf(loc, n, j), "reduced order of the subentity");
}

VP_ENTRY(reduce1) { reduce<1>(); }
VP_ENTRY(reduce2) { reduce<2>(); }
VP_ENTRY(reduce3) { reduce<3>(); }
VP_ENTRY(reduce4) { reduce<4>(); }
VP_ENTRY(reduce5) { reduce<5>(); }
VP_ENTRY(reduce6) { reduce<6>(); }
VP_ENTRY(order0) { order<0>(); }
VP_ENTRY(order1) { order<1>(); }
VP_ENTRY(order2) { order<2>(); }
VP_ENTRY(order3) { order<3>(); }
