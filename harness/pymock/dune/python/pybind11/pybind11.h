// Stand-in for pybind11: the registered functions are kept in tables and called
// with dynamically typed values, overloads are tried in order of registration.
#pragma once
#include <cstddef>
#include <cstring>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>

namespace pybind11 {

  struct value_error { value_error(const std::string& = {}) {} };
  struct type_error { type_error(const std::string& = {}) {} };   // also raised by the interpreter
  struct index_error { index_error(const std::string& = {}) {} };

  template<class T> struct Tag { static inline char c = 0; };

  struct object
  {
    const char* tag = nullptr;               // None
    void* ptr = nullptr;
    object() = default;
    object(const char* t, void* p) : tag(t), ptr(p) {}
    template<class T> T cast() const;
  };
  using handle = object;
  struct none : object {};
  using Items = std::vector<object>;

  struct sequence : object
  {
    sequence(std::size_t n) : object(&Tag<sequence>::c, new Items(n)) {}
    sequence(const object& o) : object(o) {}
    Items& items() const { return *static_cast<Items*>(ptr); }
    std::size_t size() const { return items().size(); }
    object& operator[](std::size_t i) const { if (i >= size()) throw index_error(); return items()[i]; }
  };
  struct tuple : sequence { using sequence::sequence; tuple() : sequence(std::size_t(0)) {} tuple(const object& o) : sequence(o) {} };
  struct list : sequence
  {
    using sequence::sequence;
    list() : sequence(std::size_t(0)) {}
    list(const object& o) : sequence(o) {}
    template<class T> void append(const T& v);
  };
  struct int_ : object { int_(long v) : object(&Tag<long>::c, new long(v)) {} };

  struct Func
  {
    const char* name;
    bool property;
    virtual bool call(const Items& args, object& res) const = 0;
  };
  using Table = std::vector<Func*>;

  // what is known about a class
  template<class T> struct ClassData { static inline bool known = false; static inline Table* table = nullptr; };

  template<class T> struct Known { static bool get() { return ClassData<T>::known; } };
  template<class K, int n> struct Known<Dune::FieldVector<K, n>> { static bool get() { return true; } };
  template<class K, int n, int m> struct Known<Dune::FieldMatrix<K, n, m>> { static bool get() { return true; } };

  // conversions
  template<class T, class = void> struct caster
  {
    static bool ok(const object& o) { return o.tag == &Tag<T>::c; }
    static T& get(const object& o) { return *static_cast<T*>(o.ptr); }
    static object make(const T& v)
    {
      if (!Known<T>::get()) throw type_error();
      return object(&Tag<T>::c, new T(v));
    }
  };
  template<> struct caster<bool>
  {
    static bool ok(const object& o) { return o.tag == &Tag<bool>::c; }
    static bool get(const object& o) { return *static_cast<bool*>(o.ptr); }
    static object make(bool v) { return object(&Tag<bool>::c, new bool(v)); }
  };
  template<class T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
  {
    static bool ok(const object& o) { return o.tag == &Tag<long>::c; }
    static T get(const object& o) { return *static_cast<long*>(o.ptr); }
    static object make(T v) { return int_(v); }
  };
  template<class T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
  {
    static bool ok(const object& o) { return o.tag == &Tag<double>::c || o.tag == &Tag<long>::c; }
    static T get(const object& o) { return o.tag == &Tag<long>::c ? T(*static_cast<long*>(o.ptr)) : T(*static_cast<double*>(o.ptr)); }
    static object make(T v) { return object(&Tag<double>::c, new double(v)); }
  };
  template<> struct caster<std::string>
  {
    static bool ok(const object& o) { return o.tag == &Tag<std::string>::c; }
    static const std::string& get(const object& o) { return *static_cast<std::string*>(o.ptr); }
    static object make(const std::string& v) { return object(&Tag<std::string>::c, new std::string(v)); }
  };
  template<class T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>>
  {
    static bool ok(const object& o) { return std::is_same_v<T, object> || (std::is_base_of_v<sequence, T> && o.tag == &Tag<sequence>::c); }
    static T get(const object& o) { if constexpr (std::is_same_v<T, object>) return o; else return T(o); }
    static object make(const object& v) { return v; }
  };
  template<class P, class... A> struct TupleCaster
  {
    template<std::size_t... i> static bool ok(const tuple& t, std::index_sequence<i...>) { return (true && ... && caster<A>::ok(t[i])); }
    template<std::size_t... i> static P get(const tuple& t, std::index_sequence<i...>) { return P(caster<A>::get(t[i])...); }
    template<std::size_t... i> static object make(const P& v, std::index_sequence<i...>)
    {
      tuple t(sizeof...(A));
      (..., (t[i] = caster<A>::make(std::get<i>(v))));
      return t;
    }
    static bool ok(const object& o) { return o.tag == &Tag<sequence>::c && tuple(o).size() == sizeof...(A) && ok(tuple(o), std::index_sequence_for<A...>()); }
    static P get(const object& o) { return get(tuple(o), std::index_sequence_for<A...>()); }
    static object make(const P& v) { return make(v, std::index_sequence_for<A...>()); }
  };
  template<class... A> struct caster<std::tuple<A...>> : TupleCaster<std::tuple<A...>, A...> {};
  template<class A, class B> struct caster<std::pair<A, B>> : TupleCaster<std::pair<A, B>, A, B> {};

  enum class return_value_policy { automatic, take_ownership, copy, move, reference, reference_internal };
  template<class T> object cast(const T& v, return_value_policy = return_value_policy::automatic) { return caster<T>::make(v); }
  template<class T> T cast(const object& o)
  {
    using D = std::decay_t<T>;
    if (!caster<D>::ok(o)) throw type_error();
    return caster<D>::get(o);
  }
  template<class T> void list::append(const T& v) { items().push_back(pybind11::cast(v)); }
  template<class T> T object::cast() const { return pybind11::cast<T>(*this); }

  // registered functions
  template<class F, class R, class... A> struct FuncImpl : Func
  {
    F f;
    FuncImpl(F f_) : f(f_) {}
    template<std::size_t... i> bool go(const Items& a, object& res, std::index_sequence<i...>) const
    {
      if (!(true && ... && caster<std::decay_t<A>>::ok(a[i]))) return false;
      if constexpr (std::is_void_v<R>) { f(caster<std::decay_t<A>>::get(a[i])...); res = none(); }
      else if constexpr (std::is_pointer_v<R>) {
        using T = std::remove_cv_t<std::remove_pointer_t<R>>;
        res = object(&Tag<T>::c, const_cast<T*>(f(caster<std::decay_t<A>>::get(a[i])...)));
      }
      else res = caster<std::decay_t<R>>::make(f(caster<std::decay_t<A>>::get(a[i])...));
      return true;
    }
    bool call(const Items& a, object& res) const override
    {
      return a.size() == sizeof...(A) && go(a, res, std::index_sequence_for<A...>());
    }
  };
  template<class F, class C, class R, class... A> Func* wrapLambda(F f, R (C::*)(A...) const) { return new FuncImpl<F, R, A...>(f); }
  template<class F, class C, class R, class... A> Func* wrapLambda(F f, R (C::*)(A...))
  {
    auto l = [p = new F(f)](A... a) -> R { return (*p)(static_cast<A&&>(a)...); };
    return new FuncImpl<decltype(l), R, A...>(l);
  }
  template<class F> Func* wrap(F f) { return wrapLambda(f, &F::operator()); }
  template<class R, class... A> Func* wrap(R (*f)(A...)) { return new FuncImpl<R (*)(A...), R, A...>(f); }
  template<class T, class R, class C, class... A> Func* wrapMember(R (C::*f)(A...) const)
  {
    auto l = [f](const T& self, A... a) -> R { return (self.*f)(a...); };
    return new FuncImpl<decltype(l), R, const T&, A...>(l);
  }
  template<class T, class R, class C, class... A> Func* wrapMember(R (C::*f)(A...))
  {
    auto l = [f](T& self, A... a) -> R { return (self.*f)(a...); };
    return new FuncImpl<decltype(l), R, T&, A...>(l);
  }
  template<class T, class F> Func* wrapAny(F f)
  {
    if constexpr (std::is_member_function_pointer_v<F>) return wrapMember<T>(f);
    else return wrap(f);
  }

  inline object callTable(const Table& t, const char* name, bool property, const Items& args)
  {
    object res;
    for (Func* f : t)
      if (f->property == property && std::strcmp(f->name, name) == 0 && f->call(args, res)) return res;
    throw type_error();
  }

  template<class F> struct Init { F f; };
  template<class F> Init<F> init(F f) { return {f}; }
  template<class... A> struct InitArgs {};
  template<class... A> InitArgs<A...> init() { return {}; }
  template<int n, int m> struct keep_alive {};
  template<class... A> tuple make_tuple(const A&... a)
  {
    tuple t(sizeof...(A));
    std::size_t i = 0;
    (..., (t[i++] = pybind11::cast(a)));
    return t;
  }
  struct self_t {};
  static const self_t self = {};
  struct Eq {};
  struct Ne {};
  inline Eq operator==(const self_t&, const self_t&) { return {}; }
  inline Ne operator!=(const self_t&, const self_t&) { return {}; }

  struct arg { const char* name; constexpr arg(const char* n) : name(n) {} };
  constexpr arg operator""_a(const char* n, std::size_t) { return {n}; }
  struct options { options& disable_function_signatures() { return *this; } };

  template<class T, class... O> struct class_ : object
  {
    class_() = default;
    template<class... E> class_(const object&, const char*, const E&...) { ClassData<T>::known = true; table(); }
    static Table& table() { if (!ClassData<T>::table) ClassData<T>::table = new Table; return *ClassData<T>::table; }
    static void add(Func* f, const char* name, bool property) { f->name = name; f->property = property; table().push_back(f); }
    template<class F, class... E> class_& def(const char* name, F f, const E&...) { add(wrapAny<T>(f), name, false); return *this; }
    template<class F, class... E> class_& def(Init<F> f, const E&...) { add(wrap(f.f), "__init__", false); return *this; }
    template<class... A, class... E> class_& def(InitArgs<A...>, const E&...) { return def("__init__", [](A... a) { return T(a...); }); }
    class_& def(Eq) { return def("__eq__", [](const T& a, const T& b) { return a == b; }); }
    class_& def(Ne) { return def("__ne__", [](const T& a, const T& b) { return a != b; }); }
    template<class F, class... E> class_& def_property_readonly(const char* name, F f, const E&...) { add(wrapAny<T>(f), name, true); return *this; }
  };

  struct ModuleData
  {
    Table table;
    std::vector<std::pair<std::string, object>> attrs;
    std::vector<std::pair<std::string, ModuleData*>> subs;
  };
  struct accessor
  {
    ModuleData* m;
    const char* name;
    template<class T> void operator=(const T& v) { m->attrs.emplace_back(name, pybind11::cast(v)); }
  };
  struct module : object
  {
    module() : object(&Tag<ModuleData>::c, new ModuleData) {}
    module(ModuleData* d) : object(&Tag<ModuleData>::c, d) {}
    ModuleData* data() const { return static_cast<ModuleData*>(ptr); }
    template<class F, class... E> module& def(const char* name, F f, const E&...)
    {
      Func* g = wrap(f);
      g->name = name;
      g->property = false;
      data()->table.push_back(g);
      return *this;
    }
    accessor attr(const char* name) { return {data(), name}; }
    module def_submodule(const char* name, const char* = nullptr)
    {
      data()->subs.emplace_back(name, new ModuleData);
      return module(data()->subs.back().second);
    }
  };
  using module_ = module;

  template<class I> object make_iterator(I b, I e)
  {
    tuple t(e - b);
    for (std::size_t i = 0; b != e; ++b, ++i) t[i] = pybind11::cast(*b);
    return t;
  }
}

#define PYBIND11_MODULE(n, v) void pymock_##n(pybind11::module v)
