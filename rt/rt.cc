// Runtime support linked with the code under test in the symbolic executor: the few libstdc++
// functions that live in its binary, and the clock.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <list>
#include <new>
#include <stdexcept>
#include <string>
#include <functional>

template class std::basic_string<char>;

extern "C" {
char __libc_single_threaded = 1;
int64_t sym_clock_ns = 0;
int64_t sym_alloc_fail = -1;
void rt_bad_alloc() { throw std::bad_alloc(); }
int64_t rt_steady_now() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
int64_t rt_steady_now() { return sym_clock_ns; }
int64_t rt_system_now() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
int64_t rt_system_now() { return sym_clock_ns; }
}

namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
  this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev;
  p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
  if (this != l)
  {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev;
    this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}}

// Standard exceptions whose code lives in libstdc++'s binary.
namespace {
struct rt_exc
{
  rt_exc(const char* m) : msg(m) {}
  virtual ~rt_exc() {}
  virtual const char* what() const noexcept { return msg; }
  const char* msg;
};
}
extern "C" {
void rt_re(void* p, const char* m) __asm__("_ZNSt13runtime_errorC1EPKc");
void rt_re(void* p, const char* m) { ::new (p) rt_exc(m); }
void rt_le(void* p, const char* m) __asm__("_ZNSt12length_errorC1EPKc");
void rt_le(void* p, const char* m) { ::new (p) rt_exc(m); }
void rt_oo(void* p, const char* m) __asm__("_ZNSt12out_of_rangeC1EPKc");
void rt_oo(void* p, const char* m) { ::new (p) rt_exc(m); }
void rt_lo(void* p, const char* m) __asm__("_ZNSt11logic_errorC1EPKc");
void rt_lo(void* p, const char* m) { ::new (p) rt_exc(m); }
void rt_ia(void* p, const char* m) __asm__("_ZNSt16invalid_argumentC1EPKc");
void rt_ia(void* p, const char* m) { ::new (p) rt_exc(m); }
}
#define RT_STR(n, sym) void rt_s##n(void* p, const std::string& m) __asm__("_ZNSt" sym "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void rt_s##n(void* p, const std::string& m) { char* c = new char[m.size() + 1]; for (size_t i = 0; i <= m.size(); ++i) c[i] = m.c_str()[i]; ::new (p) rt_exc(c); }
extern "C" {
RT_STR(1, "13runtime_error")
RT_STR(2, "12length_error")
RT_STR(3, "12out_of_range")
RT_STR(4, "11logic_error")
RT_STR(5, "16invalid_argument")
}
namespace std {
void __throw_length_error(const char* s) { throw std::length_error(s); }
void __throw_logic_error(const char* s) { throw std::logic_error(s); }
void __throw_out_of_range(const char* s) { throw std::out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw std::out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw std::invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw std::runtime_error(s); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_bad_function_call() { throw std::runtime_error("bad_function_call"); }
}

// Ordered containers: trees without rebalancing (all nodes black, the header stays red).
#include <map>
#include <unordered_map>
namespace std {
static _Rb_tree_node_base* rt_next(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* rt_prev(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rt_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rt_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rt_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rt_prev(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left)
  {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  if (h._M_left == z) h._M_left = rt_next(z);
  if (h._M_right == z) h._M_right = rt_prev(z);        // the header itself if z is alone
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b)
  {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else
  {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z)
    {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  static const size_t primes[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731};
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = static_cast<size_t>(-1);
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
  if (ne + ni > _M_next_resize)
  {
    size_t want = ne + ni > 11 || _M_next_resize ? ne + ni : 11;
    if (want >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)}; }
    _M_next_resize = nb;
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = (h ^ static_cast<const unsigned char*>(p)[i]) * 1099511628211ull;
  return h;
}
}
