// The parts of libstdc++ that live in the shared library and not in its
// headers, as far as code may use them: compiled to IR and linked to a harness
// when needed.  Balancing of search trees is left out.
#include <cmath>
#include <cstring>
#include <list>
#include <map>
#include <string>
#include <unordered_map>

template class std::basic_string<char>;

namespace std
{
  static inline size_t mix(size_t v) { return v ^ (v >> 47); }

  size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
  {
    const size_t mul = (size_t(0xc6a4a793ul) << 32) + size_t(0x5bd1e995ul);
    const char* p = static_cast<const char*>(ptr);
    const char* end = p + (len & ~size_t(7));
    size_t h = seed ^ (len*mul);
    for (; p != end; p += 8) {
      size_t d;
      __builtin_memcpy(&d, p, 8);
      h ^= mix(d*mul)*mul;
      h *= mul;
    }
    if (len & 7) {
      size_t d = 0;
      for (int i = int(len & 7) - 1; i >= 0; --i) d = (d << 8) + static_cast<unsigned char>(end[i]);
      h ^= d;
      h *= mul;
    }
    return mix(mix(h)*mul);
  }

  namespace __detail
  {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
    {
      static const unsigned char fast[] = { 2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13 };
      static const unsigned short primes[] = { 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113,
        127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577,
        619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971,
        3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033 };
      if (n == 0) return 1;
      size_t b = n | 1;
      if (n < sizeof(fast)) b = fast[n];
      else for (size_t q : primes) if (q >= n) { b = q; break; }
      _M_next_resize = __builtin_floor(b*double(_M_max_load_factor));
      return b;
    }

    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
    {
      if (elt + ins > _M_next_resize) {
        size_t want = elt + ins;
        if (!_M_next_resize && want < 11) want = 11;
        double least = want/double(_M_max_load_factor);
        if (least >= bkt) {
          size_t a = size_t(__builtin_floor(least)) + 1, b = bkt*2;
          return { true, _M_next_bkt(a < b ? b : a) };
        }
        _M_next_resize = __builtin_floor(bkt*double(_M_max_load_factor));
      }
      return { false, 0 };
    }

    void _List_node_base::_M_hook(_List_node_base* p) noexcept
    {
      _M_next = p;
      _M_prev = p->_M_prev;
      p->_M_prev->_M_next = this;
      p->_M_prev = this;
    }

    void _List_node_base::_M_unhook() noexcept
    {
      _List_node_base *n = _M_next, *p = _M_prev;
      p->_M_next = n;
      n->_M_prev = p;
    }

    void _List_node_base::_M_reverse() noexcept
    {
      _List_node_base* t = this;
      do {
        _List_node_base* n = t->_M_next;
        t->_M_next = t->_M_prev;
        t->_M_prev = n;
        t = n;
      } while (t != this);
    }

    void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept
    {
      if (this == last) return;
      last->_M_prev->_M_next = this;
      first->_M_prev->_M_next = last;
      _M_prev->_M_next = first;
      _List_node_base* t = _M_prev;
      _M_prev = last->_M_prev;
      last->_M_prev = first->_M_prev;
      first->_M_prev = t;
    }

    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
    {
      bool ex = x._M_next == &x, ey = y._M_next == &y;
      _List_node_base tx = x, ty = y;
      if (ey) x._M_next = x._M_prev = &x;
      else { x = ty; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
      if (ex) y._M_next = y._M_prev = &y;
      else { y = tx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    }
  }

  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw ()
  {
    typedef _Rb_tree_node_base* N;
    auto replace = [&](N a, N b) {
      if (h._M_parent == a) h._M_parent = b;
      else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
      else a->_M_parent->_M_right = b;
      if (b) b->_M_parent = a->_M_parent;
    };
    if (h._M_left == z) {
      if (z->_M_right) { N x = z->_M_right; while (x->_M_left) x = x->_M_left; h._M_left = x; }
      else h._M_left = z->_M_parent;
    }
    if (h._M_right == z) {
      if (z->_M_left) { N x = z->_M_left; while (x->_M_right) x = x->_M_right; h._M_right = x; }
      else h._M_right = z->_M_parent;
    }
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
      N y = z->_M_right;
      while (y->_M_left) y = y->_M_left;
      if (y->_M_parent != z) {
        replace(y, y->_M_right);
        y->_M_right = z->_M_right;
        y->_M_right->_M_parent = y;
      }
      replace(z, y);
      y->_M_left = z->_M_left;
      y->_M_left->_M_parent = y;
    }
    return z;
  }
}

// C library: numbers in strings
extern "C" int* __errno_location() noexcept
{
  static int value;
  return &value;
}
static unsigned long parse(const char* s, char** end)
{
  const char* p = s;
  while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
  bool minus = *p == '-';
  if (*p == '-' || *p == '+') ++p;
  const char* first = p;
  unsigned long v = 0;
  bool over = false;
  for (; *p >= '0' && *p <= '9'; ++p) {
    over |= v > (~0ul - (*p - '0'))/10;
    v = 10*v + (*p - '0');
  }
  if (over) { v = ~0ul; *__errno_location() = 34; }
  if (end) *end = const_cast<char*>(p == first ? s : p);
  return minus && !over ? -v : v;
}
extern "C" unsigned long vp_strtoul(const char* s, char** end, int) noexcept __asm__("strtoul");
extern "C" unsigned long vp_strtoul23(const char* s, char** end, int) noexcept __asm__("__isoc23_strtoul");
extern "C" unsigned long vp_strtoul(const char* s, char** end, int) noexcept { return parse(s, end); }
extern "C" unsigned long vp_strtoul23(const char* s, char** end, int) noexcept { return parse(s, end); }
