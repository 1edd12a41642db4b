// C25: topology factories.
#include "vp.hh"
#include <dune/geometry/topologyfactory.hh>
#include <dune/geometry/type.hh>
using namespace Dune;

static int alive = 0, made = 0;

struct Obj
{
  GeometryType gt;
  int key;
  int serial;
  Obj(GeometryType g, int k) : gt(g), key(k), serial(made++) { ++alive; }
  ~Obj() { --alive; }
};

// topology given by a class
template<unsigned t, unsigned dim> struct Topology
{
  static const unsigned int dimension = dim;
  static const unsigned int id = t;
};

template<int dim> struct Make;
template<int dim> struct Traits
{
  static const unsigned int dimension = dim;
  typedef int Key;
  typedef const Obj Object;
  typedef Make<dim> Factory;
};
template<int dim> struct Make : public TopologyFactory<Traits<dim>>
{
  template<GeometryType::Id id> static const Obj* createObject(const int& key)
  {
    return new Obj(GeometryType(id), key);
  }
  template<class T> static const Obj* createObject(const int& key)
  {
    return new Obj(GeometryType(T::id, T::dimension), key);
  }
};

// run-time dispatch
template<int dim> void runtime()
{
  unsigned t = vp_int("topo", 0, (1u << dim) - 1);
  int key = vp_int("key", -1000, 1000);
  GeometryType gt(t, dim);
  const Obj* o = TopologyFactory<Traits<dim>>::create(gt, key);
  vp_check(o != nullptr, "object");
  vp_check(o->gt == gt, "object of the requested type");
  vp_eqi(o->key, key, "object of the requested key");
  vp_eqi(alive, 1, "one object");
  TopologyFactory<Traits<dim>>::release(o);
  vp_eqi(alive, 0, "released");
}

template<int dim, unsigned t> void compiletime(unsigned which)
{
  if constexpr (t < (1u << dim)) {
    if (which == t) {
      int key = vp_int("key", -1000, 1000);
      constexpr GeometryType gt(t, dim);
      const Obj* o = vp_choose("class", 0, 1) ? TopologyFactory<Traits<dim>>::template create<Topology<t, dim>>(key)
                     : TopologyFactory<Traits<dim>>::template create<gt.toId()>(key);
      vp_check(o->gt == gt, "compile-time: type");
      vp_eqi(o->key, key, "compile-time: key");
      TopologyFactory<Traits<dim>>::release(o);
      vp_eqi(alive, 0, "released");
      return;
    }
    compiletime<dim, t+1>(which);
  }
}

template<int dim, unsigned t = 0> const Obj* staticSingleton(unsigned which, const int& key, bool byClass)
{
  if constexpr (t < (1u << dim)) {
    constexpr GeometryType gt(t, dim);
    using F = TopologySingletonFactory<Make<dim>>;
    if (which == t) return byClass ? F::template create<Topology<t, dim>>(key) : F::template create<gt.toId()>(key);
    return staticSingleton<dim, t+1>(which, key, byClass);
  }
  return nullptr;
}

// histories of requests to the singleton variant
template<int dim> void singleton()
{
  using F = TopologySingletonFactory<Make<dim>>;
  unsigned t[3]; int k[3]; const Obj* o[3];
  int n = vp_tier() ? 3 : (dim < 2 ? 3 : 2);
  for (int i = 0; i < n; ++i) {
    t[i] = vp_choose("topo", 0, (1u << dim) - 1);
    k[i] = vp_int("key", -3, 3);
    GeometryType gt(t[i], dim);
    // run-time and compile-time requests are interchangeable
    int how = vp_choose("static", 0, 2);
    o[i] = how ? staticSingleton<dim>(t[i], k[i], how == 2) : F::create(gt, k[i]);
    vp_check(o[i] != nullptr, "object");
    vp_check(o[i]->gt == gt, "type of the singleton");
    vp_eqi(o[i]->key, k[i], "key of the singleton");
    F::release(o[i]);
    for (int j = 0; j < i; ++j) {
      bool same = t[i] == t[j] && k[i] == k[j];
      vp_eqi(o[i] == o[j], same, "same object exactly for the same request");
      vp_check(o[j]->gt == GeometryType(t[j], dim), "earlier objects keep their type");
      vp_eqi(o[j]->key, k[j], "earlier objects keep their key");
    }
  }
  vp_check(alive == made, "nothing is destroyed");
}

VP_ENTRY(runtime0) { runtime<0>(); }
VP_ENTRY(runtime1) { runtime<1>(); }
VP_ENTRY(runtime2) { runtime<2>(); }
VP_ENTRY(runtime3) { runtime<3>(); }
VP_ENTRY(runtime4) { runtime<4>(); }
VP_ENTRY(static0) { compiletime<0, 0>(vp_choose("topo", 0, 0)); }
VP_ENTRY(static1) { compiletime<1, 0>(vp_choose("topo", 0, 1)); }
VP_ENTRY(static2) { compiletime<2, 0>(vp_choose("topo", 0, 3)); }
VP_ENTRY(static3) { compiletime<3, 0>(vp_choose("topo", 0, 7)); }
VP_ENTRY(single0) { singleton<0>(); }
VP_ENTRY(single1) { singleton<1>(); }
VP_ENTRY(single2) { singleton<2>(); }
VP_ENTRY(single3) { singleton<3>(); }
