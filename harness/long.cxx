// Messages of any length: everything is written once, unchanged, and no memory stays allocated.
#include "dbg.h"
#ifndef OPS
#define OPS 2
#endif
static Cap cap;
static Text text;
static unsigned char ends[2 * OPS + 2];
static int nends;
static bool own_margin;
static char big[700];

// Text of n bytes with arbitrary first and last bytes.
struct Piece { char s[1200]; int n; };
static Piece piece[OPS];
static void any_piece(Piece& p)
{
  static int const lengths[] = { 0, 1, 255, 485, 486, 487, 488, 489, 490, 498, 499, 500, 501, 502, 503, 510, 511, 512, 513, 1100 };
  p.n = lengths[sx_choice(sizeof(lengths) / sizeof(lengths[0]), "length")];
  for (int i = 0; i < p.n; ++i) p.s[i] = (char)('a' + i % 23);
  if (p.n) { sx_symbolic(p.s, 1, "first"); sx_symbolic(p.s + p.n - 1, 1, "last"); }
}
struct Out { Piece const& p; };
static std::ostream& operator<<(std::ostream& os, Out o) { return os.write(o.p.s, o.p.n); }

static void prefix(int indent)
{
  if (own_margin) text.put(big, 600);
  text.put("NOTICE  : ");
  text.pad(indent);
}

extern "C" void h_long()
{
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  dc::notice.on();
  memset(big, 'm', sizeof(big));
  own_margin = sx_choice(2, "margin");
  LEAKS_FROM
  if (own_margin) libcw_do.margin().assign(big, 600);
  int left = OPS, open = 0;
  for (int i = 0; i < OPS; ++i)
  {
    Piece& p = piece[i];
    any_piece(p);
    switch (sx_choice(open ? 5 : 4, "op"))
    {
      case 0:   // A complete line.
        if (open == 1) { text.put("<unfinished>\n"); open = 2; }
        prefix(open ? 4 : 0);
        LibcwDout(libcwd::channels, libcw_do, dc::notice, Out{p});
        text.put(p.s, p.n); text.put("\n");
        break;
      case 1:   // A line in the middle of another.
      {
        if (open == 1) { text.put("<unfinished>\n"); open = 2; }
        prefix(open ? 4 : 0);
        LibcwDout(libcwd::channels, libcw_do, dc::notice, Out{p} << "." << Out{p});
        text.put(p.s, p.n); text.put("."); text.put(p.s, p.n); text.put("\n");
        break;
      }
      case 2:   // Without newline, and the rest of the line.
        if (open == 1) { text.put("<unfinished>\n"); open = 2; }
        prefix(open ? 4 : 0);
        LibcwDout(libcwd::channels, libcw_do, dc::notice | nonewline_cf, Out{p});
        LibcwDout(libcwd::channels, libcw_do, dc::notice | noprefix_cf, Out{p});
        text.put(p.s, p.n); text.put(p.s, p.n); text.put("\n");
        break;
      case 3:   // An open line.
        if (open) { sx_assume(0); break; }
        prefix(0);
        LibcwDout(libcwd::channels, libcw_do, dc::notice | continued_cf, Out{p});
        text.put(p.s, p.n);
        open = 1;
        break;
      case 4:   // The rest of it.
        if (open == 2) { if (own_margin) text.put(big, 600); text.put("NOTICE  : <continued> "); }
        LibcwDout(libcwd::channels, libcw_do, dc::finish, Out{p});
        text.put(p.s, p.n); text.put("\n");
        open = 0;
        break;
    }
  }
  (void)left;
  sx_assume(!open);
  if (own_margin) libcw_do.margin().assign("", 0);
  LEAKS_TO
  sx_assert(same(cap, text), "a long message is written wrong");
  sx_cover("end");
}
