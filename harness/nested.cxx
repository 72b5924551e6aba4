// Histories of debug output: interrupted (continued_cf ... dc::continued ... dc::finish) and nested output, against a
// reference that keeps a stack of open lines.
#include "dbg.h"
#ifndef OPS
#define OPS 4
#endif
#ifndef DEPTH
#define DEPTH 3
#endif

#ifdef DEEP
#define MAXLINES 80
#else
#define MAXLINES 16
#endif
struct Line { bool cont, flush, fresh, on, cerr; char prefix[MAXLINES * 4]; int plen; Text* pending; };
static Text bufs[MAXLINES];
static Line lines[MAXLINES];
static int nlines;              // Open lines whose channel is on.
static bool offstack[64];
static int noff;                // Open continued output, on or off, innermost last.
static Text* outs[2];           // The debug ostream and std::cerr.
static int counter;
static int evaluated, expect_evaluated;
static int level;
static int ops_left = OPS;
static int colors;
#ifdef CERR                     // The second choice is cerr_cf instead of flush_cf.
constexpr control_flag_t extra_cf = cerr_cf;
#define EXTRA "cerr"
#else
constexpr control_flag_t extra_cf = flush_cf;
#define EXTRA "flush"
#endif

static char next_char() { return (char)('a' + counter++ % 26); }

// ---- reference
static void ref_interrupt()
{
  if (nlines && lines[nlines - 1].cont && lines[nlines - 1].fresh)
  {
    Line& l = lines[nlines - 1];
    Text* out = outs[l.cerr];
    out->put(l.pending->data, l.pending->n);
    if (colors) out->put(">");
    out->put("<unfinished>\n");
    l.pending->n = 0;
    l.pending->put(l.prefix, l.plen);
    if (colors) { l.pending->put("><continued>"); l.pending->put("< "); } else l.pending->put("<continued> ");
    l.fresh = false;
  }
}
static void ref_start(char const* label, bool cont, bool extra)
{
  ref_interrupt();
  Line& l = lines[nlines];
  l.cont = cont; l.flush = extra && extra_cf == flush_cf; l.cerr = (extra && extra_cf == cerr_cf) || (nlines && lines[nlines - 1].cerr); l.fresh = cont; l.on = true;
  l.pending = &bufs[nlines];
  l.pending->n = 0;
  if (colors) l.pending->put("<");
  l.pending->put(label);
  l.pending->put(": ");
  l.pending->pad(4 * nlines);
  memcpy(l.prefix, l.pending->data, l.pending->n);
  l.plen = l.pending->n;
  ++nlines;
}
static void ref_text(char c) { lines[nlines - 1].pending->put(c); }
static void ref_part_done()   // The end of a Dout that leaves the line open.
{
  Line& l = lines[nlines - 1];
  if (l.flush) { outs[l.cerr]->put(l.pending->data, l.pending->n); l.pending->n = 0; }
}
static void ref_end()
{
  Line& l = lines[nlines - 1];
  Text* out = outs[l.cerr];
  out->put(l.pending->data, l.pending->n);
  if (colors) out->put(">");
  out->put("\n");
  --nlines;
  if (nlines && l.flush) lines[nlines - 1].flush = true;
}

static void ops();
struct Inner { };
// Printing an Inner runs other debug output in the middle of the message.
static std::ostream& operator<<(std::ostream& os, Inner)
{
  ++evaluated;
  ops();
  return os;
}

static void one()
{
  char c1 = next_char(), c2 = next_char();
  int k = sx_choice(5, "op");
  if (k == 0 || k == 1)         // A complete Dout; k == 1: with debug output inside it.
  {
    int ch = sx_choice(2, "channel");   // 0: on, 1: off.
    bool fl = sx_choice(2, EXTRA);
    bool inner = k == 1 && level < DEPTH;
    if (ch == 0) { ref_start("NOTICE  ", false, fl); ref_text(c1); }
    if (inner)
    {
      if (ch == 0) { ++level; ++expect_evaluated; }
      LibcwDout(libcwd::channels, libcw_do, (ch ? dc::debug : dc::notice) | (fl ? extra_cf : 0), c1 << Inner() << c2);
      if (ch == 0) --level;
    }
    else LibcwDout(libcwd::channels, libcw_do, (ch ? dc::debug : dc::notice) | (fl ? extra_cf : 0), c1 << c2);
    if (ch == 0) { ref_text(c2); ref_end(); }
  }
  else if (k == 2)              // Begin a continued line.
  {
    int ch = sx_choice(2, "channel");
    bool fl = sx_choice(2, EXTRA);
    sx_assume(noff < DEPTH);
    LibcwDout(libcwd::channels, libcw_do, (ch ? dc::debug : dc::system) | (fl ? extra_cf : 0) | continued_cf, c1);
    if (ch == 0) { ref_start("SYSTEM  ", true, fl); ref_text(c1); ref_part_done(); }
    offstack[noff++] = ch;
  }
  else if (k == 3)              // Continue it.
  {
    sx_assume(noff > 0 && (offstack[noff - 1] || (nlines && lines[nlines - 1].cont)));
    bool on = !offstack[noff - 1];
    LibcwDout(libcwd::channels, libcw_do, dc::continued, c1);
    if (on) { ref_text(c1); lines[nlines - 1].fresh = true; ref_part_done(); }
  }
  else                          // Finish it.
  {
    sx_assume(noff > 0 && (offstack[noff - 1] || (nlines && lines[nlines - 1].cont)));
    bool on = !offstack[noff - 1];
    LibcwDout(libcwd::channels, libcw_do, dc::finish, c1);
    if (on) { ref_text(c1); ref_end(); }
    --noff;
  }
}

// A few operations at this level; every line begun at this level is finished at this level.
static void ops()
{
  int base = noff, lbase = nlines;
  while (ops_left > 0)
  {
    if (level > 0 && !sx_choice(2, "more")) break;
    --ops_left;
    one();
    sx_assume(noff >= base);
  }
  while (noff > base)
  {
    bool on = !offstack[noff - 1];
    char c1 = next_char();
    LibcwDout(libcwd::channels, libcw_do, dc::finish, c1);
    if (on) { ref_text(c1); ref_end(); }
    --noff;
  }
}

extern "C" void h_nested()
{
  static Cap cap, err;
  static Text text, errtext;
  outs[0] = &text; outs[1] = &errtext;
  capture_cerr(err);
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  dc::notice.on();
  dc::system.on();
#ifdef COLORS
  colors = 1;
  libcw_do.color_on().assign("<", 1);
  libcw_do.color_off().assign(">", 1);
#endif
  LEAKS_FROM
  ops();
  LEAKS_TO
  sx_observe(cap.data, cap.n, "out");
  sx_observe(err.data, err.n, "cerr");
  sx_assert(same(err, errtext), "the output to std::cerr differs from the documented one");
  sx_assert(nlines == 0 && noff == 0, "reference");
  sx_assert(same(cap, text), "the output differs from the documented one");
  sx_assert(evaluated == expect_evaluated, "a message of a channel that is off was evaluated");
  sx_assert(libcw_do.get_indent() == 0, "the indentation was not restored");
  for (int i = 0; i + 12 <= cap.n; ++i) if (memcmp(cap.data + i, "<unfinished>", 12) == 0) { sx_cover("unfinished"); break; }
  sx_cover("end");
}

#ifdef DEEP
// As deep as it goes: 64 levels, of nested and continued output, are written as usual; more is that, or ends the program.
static int depth, pattern;
static void deep(int k);
struct Deep { int k; };
static std::ostream& operator<<(std::ostream& os, Deep d) { deep(d.k); return os; }
static void deep(int k)
{
  if (k == depth) return;
  char c1 = next_char(), c2 = next_char();
  if (pattern >> k % 2 & 1)
  {
    LibcwDout(libcwd::channels, libcw_do, dc::system | continued_cf, c1);
    ref_start("SYSTEM  ", true, false); ref_text(c1); ref_part_done();
    deep(k + 1);
    LibcwDout(libcwd::channels, libcw_do, dc::finish, c2);
  }
  else
  {
    ref_start("NOTICE  ", false, false); ref_text(c1);
    LibcwDout(libcwd::channels, libcw_do, dc::notice, c1 << Deep{k + 1} << c2);
  }
  ref_text(c2); ref_end();
}
extern "C" void stub_abort()
{
  sx_assert(depth > 64, "nested output ends the program");
  sx_cover("too deep");
  sx_done();
  for (;;) ;
}
extern "C" void h_deep()
{
  static Cap cap;
  static Text text;
  outs[0] = &text;
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  dc::notice.on();
  dc::system.on();
  static int const depths[] = { 5, 62, 63, 64, 65, 66, 70 };
  depth = depths[sx_choice(7, "depth")];
  pattern = sx_choice(4, "pattern");
  for (int i = 0; i < 2; ++i)
  {
    deep(0);
    sx_assert(nlines == 0, "reference");
    sx_assert(same(cap, text), "the output differs from the documented one");
    sx_assert(libcw_do.get_indent() == 0, "the indentation was not restored");
    sx_observe(cap.data, cap.n, "out");
    cap.clear(); text.n = 0;
  }
  sx_cover(depth >= 64 ? "as deep as it goes" : "end");
}
#endif
