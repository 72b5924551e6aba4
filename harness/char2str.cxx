// char2str and buf2str print every byte in a form that identifies it.
#include "h.h"
#include <libcwd/char2str.h>
#include <libcwd/buf2str.h>
#include <string_view>
#ifndef NN
#define NN 2
#endif

static void expected(Text& t, unsigned char c)
{
  if (c > 31 && c < 127 && c != '\\') { t.put((char)c); return; }
  t.put('\\');
  switch (c)
  {
    case 7: t.put('a'); return;
    case 8: t.put('b'); return;
    case 9: t.put('t'); return;
    case 10: t.put('n'); return;
    case 11: t.put('v'); return;
    case 12: t.put('f'); return;
    case 13: t.put('r'); return;
    case 27: t.put('e'); return;
    case '\\': t.put('\\'); return;
  }
  t.put('x');
  t.put("0123456789ABCDEF"[c >> 4]);
  t.put("0123456789ABCDEF"[c & 15]);
}

// Decode one printed character: the printed form identifies the byte.
static int decode(char const* p, int n, unsigned char* out)
{
  if (n == 0) return 0;
  if (p[0] != '\\') { *out = p[0]; return 1; }
  if (n < 2) return 0;
  static char const tab[] = "abtnvfr";
  for (int i = 0; i < 7; ++i) if (p[1] == tab[i]) { *out = 7 + i; return 2; }
  if (p[1] == 'e') { *out = 27; return 2; }
  if (p[1] == '\\') { *out = '\\'; return 2; }
  if (p[1] != 'x' || n < 4) return 0;
  int v = 0;
  for (int i = 2; i < 4; ++i)
  {
    int d = p[i] >= '0' && p[i] <= '9' ? p[i] - '0' : p[i] >= 'A' && p[i] <= 'F' ? p[i] - 'A' + 10 : -1;
    if (d < 0) return 0;
    v = 16 * v + d;
  }
  *out = v;
  return 4;
}

extern "C" void h_char2str()
{
  unsigned char c = sx_any<unsigned char>("c");
  Cap cap;
  Text t;
  cap.os << libcwd::char2str((char)c);
  expected(t, c);
  sx_observe(cap.data, cap.n, "out");
  sx_assert(same(cap, t), "char2str printed something else");
  unsigned char d = 0;
  int n = decode(cap.data, cap.n, &d);
  sx_assert(n == cap.n && d == c, "the output of char2str does not identify the character");
  for (int i = 0; i < cap.n; ++i) sx_assert(cap.data[i] > 31 && cap.data[i] < 127, "char2str printed a non printable character");
  sx_cover("done");
}

// The stream state (width, fill, base) must not matter and must not change; the buffer is not read beyond its size.
extern "C" void h_buf2str()
{
  char* buf = new char[NN ? NN : 1];
  int n = sx_choice(NN + 1, "size");
  char* b = new char[n];
  sx_symbolic(b, n, "buf");
  Cap cap;
  Text t;
  bool view = sx_choice(2, "view");
  if (view) cap.os << libcwd::buf2str(std::string_view(b, n));
  else cap.os << libcwd::buf2str(b, n);
  for (int i = 0; i < n; ++i) expected(t, b[i]);
  sx_assert(same(cap, t), "buf2str printed something else");
  sx_observe(cap.data, cap.n, "out");
  sx_cover("done");
  delete[] b;
  delete[] buf;
}
