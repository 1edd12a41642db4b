// Harness interface.  The same harness source is executed symbolically (the
// vp_* functions are intrinsics of the engine) and compiled natively (they are
// then provided by vp_native.cc and read a concrete assignment).
#ifndef VP_HH
#define VP_HH

#include <cstddef>
#include <dune/common/exceptions.hh>

// The real macro formats a message with string streams; the exception type,
// which is what the properties talk about, is kept.
#undef DUNE_THROW
#define DUNE_THROW(E, ...) do { E th__ex; throw th__ex; } while (0)

extern "C" {
  long long vp_int(const char* name, long long lo, long long hi);       // symbolic integer in [lo,hi]
  long long vp_choose(const char* name, long long lo, long long hi);    // the same, split into one path per value
  unsigned long long vp_u64(const char* name);                          // any 64-bit word
  double vp_real(const char* name, double lo, double hi);               // any real in [lo,hi]
  long long vp_conc(long long v);                                       // split a symbolic integer
  void vp_assume(bool c);
  void vp_assume_pos(double v);                                         // v > 0
  void vp_assume_ge(double a, double b);
  void vp_check(bool c, const char* label);
  void vp_eqi(long long a, long long b, const char* label);
  void vp_eq(double a, double b, const char* label);                    // equal up to 1e-6
  void vp_near(double a, double b, double tol, const char* label);
  void vp_le(double a, double b, const char* label);                    // a <= b + 1e-6
  void vp_lt(double a, double b, const char* label);
  void vp_fail(const char* label);
  void vp_reach(const char* label);
  void vp_skip();
  int vp_tier();
  int vp_native();
  void vp_rounding(int on);                                             // the following operations round
  void vp_round(double v, double exact, double tol, const char* label); // v, computed with rounding, is within tol of exact
  void vp_note(const char* label, double v);
  void vp_threads(void (*f)(void*), void* a, void (*g)(void*), void* b); // f(a) and g(b) in two threads, every schedule
}

#define VP_ENTRY(n) extern "C" __attribute__((used, noinline)) void vpe_##n()

namespace VP {

  // expects that f throws an exception of type Ex
  template<class Ex, class F>
  void throws(F&& f, const char* label)
  {
    bool thrown = false;
    try { f(); }
    catch (const Ex&) { thrown = true; }
    vp_check(thrown, label);
  }

  template<class V>
  V vec(const char* name, double lo, double hi)
  {
    V v;
    for (std::size_t i = 0; i < V::dimension; ++i)
      v[i] = vp_real(name, lo, hi);
    return v;
  }

  template<class V, class W>
  void eqv(const V& a, const W& b, const char* label)
  {
    for (std::size_t i = 0; i < V::dimension; ++i)
      vp_eq(a[i], b[i], label);
  }

  template<class M, class N>
  void eqm(const M& a, const N& b, const char* label)
  {
    for (std::size_t i = 0; i < M::rows; ++i)
      for (std::size_t j = 0; j < M::cols; ++j)
        vp_eq(a[i][j], b[i][j], label);
  }
}

#endif
