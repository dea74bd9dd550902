// Models of the C/C++ runtime functions the code under test links against.
// Compiled with -fno-builtin so that the loops below stay loops.
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <string>
#include <time.h>
#include <errno.h>
extern "C" {
extern const char sxrt_empty_str[8]; __attribute__((used)) const char sxrt_empty_str[8] = "";
static int sx_errno_;
int *__errno_location() noexcept { return &sx_errno_; }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept {
  for (size_t i = 0;; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
void *sx_memchr_(const void *p, int c, size_t n) asm("memchr");
void *sx_memchr_(const void *p, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (((const unsigned char *)p)[i] == (unsigned char)c) return (void *)((const unsigned char *)p + i);
  return nullptr;
}
char *strcpy(char *d, const char *s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
// message formatting is not the subject of any property: the text comes out empty
int snprintf(char *b, size_t n, const char *, ...) noexcept { if (n) b[0] = 0; return 0; }
int vsnprintf(char *b, size_t n, const char *, va_list) noexcept { if (n) b[0] = 0; return 0; }
int fprintf(struct _IO_FILE *, const char *, ...) { return 0; }
int printf(const char *, ...) { return 0; }
int puts(const char *) { return 0; }
char *getenv(const char *) noexcept { return nullptr; }
long sysconf(int) noexcept { return 4096; }
int open(const char *, int, ...) { return -1; }
int close(int) { return 0; }
ptrdiff_t writev(int, const struct iovec *, int) { return -1; }
int sched_yield(void) noexcept { return 0; }
double ldexp(double x, int e) noexcept {
  // exact for the power-of-two scaling used here (no subnormal results)
  union { double d; uint64_t u; } p;
  while (e > 1000) { p.u = (uint64_t)(1023 + 1000) << 52; x *= p.d; e -= 1000; }
  while (e < -1000) { p.u = (uint64_t)(1023 - 1000) << 52; x *= p.d; e += 1000; }
  p.u = (uint64_t)(1023 + e) << 52;
  return x * p.d;
}
uint64_t sxrt_clock_sec, sxrt_clock_nsec, sxrt_clock_calls, sxrt_clock_res_ns = 1;
__attribute__((weak)) int clock_gettime(clockid_t, struct timespec *ts) noexcept {
  ts->tv_sec = (time_t)sxrt_clock_sec; ts->tv_nsec = (long)sxrt_clock_nsec; sxrt_clock_calls++; return 0;
}
__attribute__((weak)) int clock_getres(clockid_t, struct timespec *ts) noexcept {
  ts->tv_sec = 0; ts->tv_nsec = (long)sxrt_clock_res_ns; return 0;
}
struct tm *gmtime_r(const time_t *, struct tm *t) noexcept { *t = tm(); return t; }
void sxrt_throw_bad_alloc() { throw std::bad_alloc(); }
}
// The standard exception classes: identity matters (catch clauses, typeid), the text does not.
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return sxrt_empty_str; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return sxrt_empty_str; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return sxrt_empty_str; }
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const __cow_string &) noexcept : _M_p(nullptr) {}
__cow_string::__cow_string(__cow_string &&) noexcept : _M_p(nullptr) {}
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string &__cow_string::operator=(__cow_string &&) noexcept { return *this; }
__cow_string::~__cow_string() {}
#define SX_ROOT(NAME)                                        \
  NAME::NAME(const string &) : exception(), _M_msg() {}      \
  NAME::NAME(const char *) : exception(), _M_msg() {}        \
  NAME::NAME(NAME &&) noexcept : exception(), _M_msg() {}    \
  NAME::NAME(const NAME &) noexcept : exception(), _M_msg() {} \
  NAME &NAME::operator=(NAME &&) noexcept { return *this; }  \
  NAME &NAME::operator=(const NAME &) noexcept { return *this; } \
  NAME::~NAME() noexcept {}                                  \
  const char *NAME::what() const noexcept { return sxrt_empty_str; }
SX_ROOT(logic_error)
SX_ROOT(runtime_error)
#define SX_DERIVED(NAME, BASE)                \
  NAME::NAME(const string &s) : BASE(s) {}    \
  NAME::NAME(const char *s) : BASE(s) {}      \
  NAME::~NAME() noexcept {}
SX_DERIVED(domain_error, logic_error)
SX_DERIVED(invalid_argument, logic_error)
SX_DERIVED(length_error, logic_error)
SX_DERIVED(out_of_range, logic_error)
SX_DERIVED(range_error, runtime_error)
SX_DERIVED(overflow_error, runtime_error)
SX_DERIVED(underflow_error, runtime_error)
}
namespace std {
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_logic_error(const char *s) { throw std::logic_error(s); }
void __throw_length_error(const char *s) { throw std::length_error(s); }
void __throw_out_of_range(const char *s) { throw std::out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw std::out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw std::invalid_argument(s); }
void __throw_bad_function_call() { throw std::runtime_error(""); }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  size_t h = seed ^ 14695981039346656037ull;
  for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char *)p)[i]; h *= 1099511628211ull; }
  return h;
}
}
// std::unordered_* growth policy and std::map tree primitives (unbalanced, which is a legal tree)
#include <unordered_map>
#include <map>
namespace std {
namespace __detail {
static const unsigned long primes_[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 0};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (int i = 0; primes_[i]; i++)
    if (primes_[i] >= n) { _M_next_resize = primes_[i]; return primes_[i]; }
  return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb || nb < 2) return {true, _M_next_bkt((ne + ni) * 2 > 11 ? (ne + ni) * 2 : 11)};
  return {false, 0};
}
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x && !x->_M_left) return x->_M_right;
  if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}
