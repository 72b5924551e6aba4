// The margin and marker strings: contents, size and capacity after every history of operations, the push/pop stacks.
#include "dbg.h"
#include <string>
#ifndef OPS
#define OPS 3
#endif
// Lengths on both sides of the capacities 64, 128 and 256 (minus one).
static int const lens[] = {0, 1, 2, 62, 63, 64, 127, 130};
#ifndef NL
#define NL 8
#endif
struct Ref { char d[1200]; int n = 0; size_t reserved = 0; };
static Ref ref, stk[8];
static int nstk;

// Two symbolic bytes, the first and the last; the bytes between are fixed.
static char buf[256];
static int text()
{
  int n = lens[sx_choice(NL, "len")];
  for (int i = 0; i < n; ++i) buf[i] = 'a' + i % 23;
  if (n > 0) sx_symbolic(buf, 1, "first");
  if (n > 1) sx_symbolic(buf + n - 1, 1, "last");
  return n;
}
static void verify(DebugString const& s)
{
  sx_assert((int)s.size() == ref.n, "size() is not the number of characters");
  sx_assert(s.capacity() >= s.size() && s.capacity() >= ref.reserved, "capacity() is too small");
  sx_assert(same(s.c_str(), ref.n, ref.d, ref.n), "the contents are not what was asked for");
  sx_assert(s.c_str()[ref.n] == 0, "c_str() is not terminated");
}
extern "C" void h_dstring()
{
  bool margin = sx_choice(2, "margin");
  DebugString& s = margin ? libcw_do.margin() : libcw_do.marker();
  DebugString const& cs = margin ? ((DebugObject const&)libcw_do).margin() : ((DebugObject const&)libcw_do).marker();
  sx_assert(&s == &cs, "margin()/marker() differ for a const object");
  if (!margin) { ref.d[0] = ':'; ref.d[1] = ' '; ref.n = 2; }
  verify(s);
  for (int i = 0; i < OPS; ++i)
  {
    int op = sx_choice(6, "op");
    bool str = op < 3 && sx_choice(2, "std::string");
    if (op == 0)
    {
      int n = text();
      if (str) s.assign(std::string(buf, n)); else s.assign(buf, n);
      memcpy(ref.d, buf, n); ref.n = n;
    }
    else if (op == 1)
    {
      int n = text();
      if (str) s.append(std::string(buf, n)); else s.append(buf, n);
      memcpy(ref.d + ref.n, buf, n); ref.n += n;
    }
    else if (op == 2)
    {
      int n = text();
      if (str) s.prepend(std::string(buf, n)); else s.prepend(buf, n);
      memmove(ref.d + n, ref.d, ref.n); memcpy(ref.d, buf, n); ref.n += n;
    }
    else if (op == 3)
    {
      size_t n = lens[sx_choice(NL, "reserve")];
      s.reserve(n);
      if ((int)n >= ref.n) ref.reserved = n;
      sx_cover("reserve");
    }
    else if (op == 4)
    {
      if (margin) libcw_do.push_margin(); else libcw_do.push_marker();
      stk[nstk++] = ref;
    }
    else
    {
      sx_assume(nstk > 0);
      if (margin) libcw_do.pop_margin(); else libcw_do.pop_marker();
      ref = stk[--nstk];
      sx_cover("pop");
    }
    verify(s);
  }
  sx_cover("end");
}
