// libstdc++ run-time model (symbolic runs only): the out-of-line, non-template part of libstdc++ that the IR refers to.
// Compiled with -fno-access-control.  Functions are defined under their mangled names so that they take precedence over
// the (linkonce) template instantiations.
#include <bits/c++config.h>
#include <ios>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include "sx.h"

using ios_c = std::basic_ios<char>;

namespace {

// Storage for a ctype<char> facet whose widen table is filled in: only the inline widen() fast path is used.
struct FakeCtype
{
  alignas(std::ctype<char>) char mem[sizeof(std::ctype<char>)];
};
FakeCtype fake_ctype;

std::ctype<char> const* get_fake_ctype()
{
  std::ctype<char>* ct = reinterpret_cast<std::ctype<char>*>(fake_ctype.mem);
  if (!ct->_M_widen_ok)
  {
    for (int i = 0; i < 256; ++i)
      ct->_M_widen[i] = (char)i;
    ct->_M_widen_ok = 1;
    ct->_M_narrow_ok = 1;
  }
  return ct;
}

} // namespace

extern "C" {

// Type information of builtin types: only the name is used.
struct BuiltinTypeInfo { void const* vtable; char const* name; };
extern BuiltinTypeInfo const _ZTIi = {nullptr, "i"};
extern BuiltinTypeInfo const _ZTIPv = {nullptr, "Pv"};

// ios_base
void _ZNSt8ios_baseC2Ev(std::ios_base* b)
{
  // The vtable pointer is set by the caller (basic_ios constructor).
  b->_M_precision = 6;
  b->_M_width = 0;
  b->_M_flags = std::ios_base::skipws | std::ios_base::dec;
  b->_M_exception = std::ios_base::goodbit;
  b->_M_streambuf_state = std::ios_base::goodbit;
  b->_M_callbacks = nullptr;
  b->_M_word_size = 8;
  b->_M_word = b->_M_local_word;
}
void _ZNSt8ios_baseD2Ev(std::ios_base*) { }
void _ZNSt8ios_base7_M_initEv(std::ios_base* b)
{
  b->_M_precision = 6;
  b->_M_width = 0;
  b->_M_flags = std::ios_base::skipws | std::ios_base::dec;
}
void _ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale(ios_c* ios, std::locale const*)
{
  ios->_M_ctype = get_fake_ctype();
  ios->_M_num_put = nullptr;
  ios->_M_num_get = nullptr;
}
void _ZNKSt5ctypeIcE13_M_widen_initEv(std::ctype<char> const*) { }

// locale
void _ZNSt6localeC1Ev(std::locale*) { }
void _ZNSt6localeC2Ev(std::locale*) { }
void _ZNSt6localeC1ERKS_(std::locale*, std::locale const*) { }
void _ZNSt6localeD1Ev(std::locale*) { }
void _ZNSt6localeD2Ev(std::locale*) { }
std::locale const* _ZNSt6localeaSERKS_(std::locale* a, std::locale const*) { return a; }
void _ZNSt8ios_base5imbueERKSt6locale(void*, std::ios_base*, std::locale const*) { }

// File streams: the harness provides open, close and getline.
void _ZNSt12__basic_fileIcEC1EP15pthread_mutex_t(void*, void*) { }
void _ZNSt12__basic_fileIcED1Ev(void*) { }
bool _ZNKSt12__basic_fileIcE7is_openEv(void*) { return false; }
bool _ZSt9has_facetISt7codecvtIcc11__mbstate_tEEbRKSt6locale(void*) { return false; }
void* _ZSt15__try_use_facetIKSt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale(void*) { return nullptr; }
void* _ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale(void*) { return nullptr; }

bool _ZSt18uncaught_exceptionv() { return false; }
int _ZSt19uncaught_exceptionsv() { return 0; }

// Errors.
void _ZSt17__throw_bad_allocv() { sx_fail("std::bad_alloc thrown"); }
void _ZSt16__throw_bad_castv() { sx_fail("std::bad_cast thrown"); }
void _ZSt19__throw_logic_errorPKc(char const*) { sx_fail("std::logic_error thrown"); }
void _ZSt20__throw_length_errorPKc(char const*) { sx_fail("std::length_error thrown"); }
void _ZSt20__throw_out_of_rangePKc(char const*) { sx_fail("std::out_of_range thrown"); }
void _ZSt24__throw_out_of_range_fmtPKcz(char const*, ...) { sx_fail("std::out_of_range thrown"); }
void _ZSt28__throw_bad_array_new_lengthv() { sx_fail("std::bad_array_new_length thrown"); }
void _ZSt20__throw_system_errori(int) { sx_fail("std::system_error thrown"); }
void _ZSt19__throw_ios_failurePKc(char const*) { sx_fail("std::ios_base::failure thrown"); }
void _ZSt19__throw_ios_failurePKci(char const*, int) { sx_fail("std::ios_base::failure thrown"); }
void _ZSt25__throw_bad_function_callv() { sx_fail("std::bad_function_call thrown"); }
void _ZSt24__throw_invalid_argumentPKc(char const*) { sx_fail("std::invalid_argument thrown"); }

// Red-black tree, as an unbalanced search tree: only the order matters.
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, std::_Rb_tree_node_base* x,
    std::_Rb_tree_node_base* p, std::_Rb_tree_node_base* h)
{
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = std::_S_black;
  if (left)
  {
    p->_M_left = x;
    if (p == h)
    {
      h->_M_parent = x;
      h->_M_right = x;
    }
    else if (p == h->_M_left)
      h->_M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h->_M_right)
      h->_M_right = x;
  }
}

static std::_Rb_tree_node_base* rb_inc(std::_Rb_tree_node_base* x)
{
  if (x->_M_right)
  {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  std::_Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y) x = y;
  return x;
}
static std::_Rb_tree_node_base* rb_dec(std::_Rb_tree_node_base* x)
{
  if (x->_M_color == std::_S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left)
  {
    std::_Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  std::_Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left)
  {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
std::_Rb_tree_node_base* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(std::_Rb_tree_node_base* x) { return rb_inc(x); }
std::_Rb_tree_node_base const* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(std::_Rb_tree_node_base* x) { return rb_inc(x); }
std::_Rb_tree_node_base* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(std::_Rb_tree_node_base* x) { return rb_dec(x); }
std::_Rb_tree_node_base const* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(std::_Rb_tree_node_base* x) { return rb_dec(x); }

std::_Rb_tree_node_base* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(std::_Rb_tree_node_base* z,
    std::_Rb_tree_node_base* h)
{
  using N = std::_Rb_tree_node_base*;
  if (h->_M_left == z) h->_M_left = rb_inc(z);           // may become h itself
  if (h->_M_right == z) h->_M_right = rb_dec(z);
  auto replace = [&](N a, N b) {
    if (a->_M_parent == h && h->_M_parent == a) h->_M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else
  {
    N y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z)
    {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h->_M_parent) { h->_M_left = h; h->_M_right = h; }
  return z;
}

// The buckets of unordered containers.
struct SxRehash { float max; size_t next; };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(SxRehash* r, size_t n)
{
  static size_t const primes[] = { 1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753 };
  size_t p = 0;
  for (size_t q : primes) if (q >= n) { p = q; break; }
  if (!p) sx_fail("unordered container too large for the model");
  r->next = (size_t)((float)p * r->max);
  return p;
}
struct SxPair { bool first; size_t second; };
SxPair _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(SxRehash* r, size_t buckets, size_t elements, size_t more)
{
  if (elements + more <= r->next) return { false, 0 };
  size_t want = elements + more;
  if (!r->next && want < 11) want = 11;
  if (want >= buckets)
  {
    size_t n = want + 1 > buckets * 2 ? want + 1 : buckets * 2;
    return { true, _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(r, n) };
  }
  r->next = buckets;
  return { false, 0 };
}
// The hash of a string (murmur, as in libstdc++: the order of an unordered container depends on it).
size_t _ZSt11_Hash_bytesPKvmm(void const* ptr, size_t len, size_t seed)
{
  size_t const mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  unsigned char const* p = (unsigned char const*)ptr;
  size_t hash = seed ^ (len * mul);
  for (size_t i = 0; i + 8 <= len; i += 8)
  {
    size_t d;
    __builtin_memcpy(&d, p + i, 8);
    d *= mul; d ^= d >> 47; d *= mul;
    hash ^= d;
    hash *= mul;
  }
  if (len & 7)
  {
    size_t d = 0;
    for (size_t i = len; i-- > (len & ~(size_t)7);) d = (d << 8) + p[i];
    hash ^= d;
    hash *= mul;
  }
  hash = (hash ^ (hash >> 47)) * mul;
  return hash ^ (hash >> 47);
}

// list
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(std::__detail::_List_node_base* n, std::__detail::_List_node_base* p)
{
  n->_M_next = p;
  n->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = n;
  p->_M_prev = n;
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(std::__detail::_List_node_base* n)
{
  n->_M_prev->_M_next = n->_M_next;
  n->_M_next->_M_prev = n->_M_prev;
}
void _ZNSt8__detail15_List_node_base10_M_reverseEv(std::__detail::_List_node_base* n)
{
  std::__detail::_List_node_base* t = n;
  do { std::__detail::_List_node_base* x = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = x; t = x; } while (t != n);
}
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(std::__detail::_List_node_base& x, std::__detail::_List_node_base& y)
{
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  std::__detail::_List_node_base a = x, b = y;
  if (ey) x._M_next = x._M_prev = &x; else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(std::__detail::_List_node_base* self, std::__detail::_List_node_base* first,
    std::__detail::_List_node_base* last)
{
  if (self != last)
  {
    last->_M_prev->_M_next = self;
    first->_M_prev->_M_next = last;
    self->_M_prev->_M_next = first;
    std::__detail::_List_node_base* t = self->_M_prev;
    self->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}

} // extern "C"

// Number formatting: replaces num_put.
static std::ostream& put_number(std::ostream& os, unsigned long u, bool neg, bool is_signed_dec)
{
  std::ostream::sentry ok(os);
  if (ok)
  {
    std::ios_base::fmtflags f = os.flags();
    std::ios_base::fmtflags base = f & std::ios_base::basefield;
    unsigned b = base == std::ios_base::hex ? 16 : base == std::ios_base::oct ? 8 : 10;
    char buf[40];
    int n = 0;
    bool zero = u == 0;
    do
    {
      unsigned d = (unsigned)(u % b);
      buf[n++] = d < 10 ? (char)('0' + d) : (char)(((f & std::ios_base::uppercase) ? 'A' : 'a') + d - 10);
      u /= b;
    }
    while (u);
    int pre = 0;
    if (b == 10)
    {
      if (neg) { buf[n++] = '-'; pre = 1; }
      else if ((f & std::ios_base::showpos) && is_signed_dec) { buf[n++] = '+'; pre = 1; }
    }
    else if ((f & std::ios_base::showbase) && !zero)
    {
      if (b == 16) { buf[n++] = (f & std::ios_base::uppercase) ? 'X' : 'x'; buf[n++] = '0'; pre = 2; }
      else { buf[n++] = '0'; }
    }
    std::streamsize w = os.width();
    int pad = w > n ? (int)(w - n) : 0;
    std::ios_base::fmtflags adj = f & std::ios_base::adjustfield;
    char fill = os.fill();
    std::streambuf* sb = os.rdbuf();
    bool fail = false;
    auto put = [&](char c) { if (sb->sputc(c) == std::char_traits<char>::eof()) fail = true; };
    if (adj != std::ios_base::left && adj != std::ios_base::internal)
      for (int i = 0; i < pad; ++i) put(fill);
    for (int i = n - 1; i >= 0; --i)
    {
      if (adj == std::ios_base::internal && i == n - 1 - pre)
        for (int j = 0; j < pad; ++j) put(fill);
      put(buf[i]);
    }
    if (adj == std::ios_base::left)
      for (int i = 0; i < pad; ++i) put(fill);
    os.width(0);
    if (fail) os.setstate(std::ios_base::badbit);
  }
  return os;
}

static bool is_dec(std::ostream& os)
{
  std::ios_base::fmtflags base = os.flags() & std::ios_base::basefield;
  return base != std::ios_base::hex && base != std::ios_base::oct;
}

extern "C" {
std::ostream& _ZNSo9_M_insertIlEERSoT_(std::ostream& os, long v)
{
  if (is_dec(os)) return put_number(os, v < 0 ? 0UL - (unsigned long)v : (unsigned long)v, v < 0, true);
  return put_number(os, (unsigned long)v, false, false);
}
std::ostream& _ZNSo9_M_insertIxEERSoT_(std::ostream& os, long long v) { return _ZNSo9_M_insertIlEERSoT_(os, v); }
std::ostream& _ZNSo9_M_insertImEERSoT_(std::ostream& os, unsigned long v) { return put_number(os, v, false, false); }
std::ostream& _ZNSo9_M_insertIyEERSoT_(std::ostream& os, unsigned long long v) { return put_number(os, v, false, false); }
std::ostream& _ZNSo9_M_insertIPKvEERSoT_(std::ostream& os, void const* p)
{
  std::ios_base::fmtflags f = os.flags();
  os.flags((f & ~(std::ios_base::basefield | std::ios_base::uppercase)) | std::ios_base::hex | std::ios_base::showbase);
  put_number(os, (unsigned long)p, false, false);
  os.flags(f);
  return os;
}
std::ostream& _ZNSo9_M_insertIbEERSoT_(std::ostream& os, bool v)
{
  if (os.flags() & std::ios_base::boolalpha) return os << (v ? "true" : "false");
  return put_number(os, v, false, true);
}
}

// std::call_once
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
