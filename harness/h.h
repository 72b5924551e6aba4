// Helpers shared by the harnesses.
#pragma once
#include "sx.h"
#include <ostream>
#include <streambuf>
#include <cstring>

#ifndef CAPSIZE
#define CAPSIZE 4096
#endif
// Observable sink: everything written is kept in a fixed array.
struct CapBuf : std::streambuf
{
  static constexpr int size = CAPSIZE;
  char data[size];
  int n = 0;
  int flushes = 0;
  int_type overflow(int_type c) override
  {
    if (n >= size) sx_fail("too much output");
    data[n++] = (char)c;
    return c;
  }
  std::streamsize xsputn(char const* s, std::streamsize l) override
  {
    if (n + l > size) sx_fail("too much output");
    for (std::streamsize i = 0; i < l; ++i) data[n + i] = s[i];
    n += l;
    return l;
  }
  int sync() override { ++flushes; return 0; }
  void clear() { n = 0; }
  bool is(char const* s) const { return (int)strlen(s) == n && memcmp(s, data, n) == 0; }
};

struct Cap : CapBuf
{
  std::ostream os;
  Cap() : os(this) { }
};

// Text built up by a reference implementation.
struct Text
{
  char data[CAPSIZE];
  int n = 0;
  void put(char c) { data[n++] = c; }
  void put(char const* s) { while (*s) data[n++] = *s++; }
  void put(char const* s, size_t l) { for (size_t i = 0; i < l; ++i) data[n++] = s[i]; }
  void pad(int k) { while (k-- > 0) data[n++] = ' '; }
};

// One solver query for the whole comparison.
static inline int same(char const* a, int n, char const* b, int m)
{
  if (n != m) return 0;
  unsigned char d = 0;
  for (int i = 0; i < n; ++i) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
static inline int same(CapBuf const& c, Text const& t) { return same(c.data, c.n, t.data, t.n); }

// Memory that is allocated between these two must have been freed.
#ifdef LEAKS
#define LEAKS_FROM unsigned long leaks_before = sx_live_bytes();
#define LEAKS_TO sx_assert((long)(sx_live_bytes() - leaks_before) <= 0, "memory is still allocated");
#else
#define LEAKS_FROM
#define LEAKS_TO
#endif
