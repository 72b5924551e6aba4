// Indent, Mark and DoutEntering: inside any nesting of scopes every line is printed with the right marker and indentation, and
// each scope restores what it changed.
#include "dbg.h"
#include <string>
#ifndef OPS
#define OPS 4
#endif
#ifndef KINDS
#define KINDS 8
#endif
static Cap* cap;
static Text marker;
static int indent, left, lines;
static char sym_char;
static char const* sym_mark;

static void prefix(Text& t)
{
  t.put("NOTICE  ");
  t.put(marker.data, marker.n);
  t.pad(indent);
}

static void line()
{
  cap->clear();
  DOUT(dc::notice, "x");
  Text t; prefix(t); t.put("x\n");
  sx_observe(cap->data, cap->n, "line");
  sx_assert(same(*cap, t), "the marker or indentation of a line is wrong");
  sx_assert(libcw_do.get_indent() == indent, "get_indent is wrong");
  ++lines;
}

static void scope();

static void inner(bool end_early, Mark* m, Text const* saved, int saved_indent)
{
  scope();
  if (end_early)
  {
    m->end();
    int extra = indent;
    marker = *saved;
    indent = saved_indent + extra;
    line();
  }
}

static void entering(int n)
{
  cap->clear();
  Text t; prefix(t);
  DoutEntering(libcwd::channels::dc::notice, "f" << n);
  t.put("Entering f"); t.put((char)('0' + n)); t.put('\n');
  sx_assert(same(*cap, t), "the line of DoutEntering is wrong");
  indent += 2;
  sx_assert(libcw_do.get_indent() == indent, "DoutEntering must indent what follows");
  scope();
  indent -= 2;
  sx_cover("entering");
}

// One nesting level: a number of statements and inner scopes.
static void scope()
{
  line();
  while (left > 0)
  {
    int op = sx_choice(KINDS, "op");
    --left;
    switch (op)
    {
      case 0: return;                                   // The end of this scope.
      case 1:
      {
        int k = sx_choice(5, "indent") - 1;
        {
          Indent i(k);
          if (k > 0) indent += k;
          scope();
        }
        if (k > 0) indent -= k;
        sx_cover("indent");
        break;
      }
      case 2: case 3: case 4:
      {
        Text saved = marker;
        int saved_indent = indent;
        bool early = op == 4;
        {
          Mark m = [](int o) { return o == 2 ? Mark(sym_char) : o == 3 ? Mark(sym_mark) : Mark(); }(op);
          marker.pad(indent);
          if (op == 2) marker.put(sym_char); else if (op == 3) marker.put(sym_mark); else marker.put('|');
          marker.put(' ');
          indent = 0;
          inner(early, &m, &saved, saved_indent);
        }
        if (!early) { marker = saved; indent += saved_indent; }
        sx_cover("mark");
        break;
      }
      case 5: entering(left); break;
      case 7:                                           // A mark that ends inside an indentation that started after it.
      {
        Text saved = marker;
        int saved_indent = indent, k = 1 + sx_choice(2, "indent");
        {
          Mark m;
          marker.pad(indent);
          marker.put("| ");
          indent = 0;
          {
            Indent i(k);
            indent = k;
            scope();
            m.end();
            marker = saved;
            indent += saved_indent;
            line();
          }
          indent -= k;
          line();
        }
        sx_cover("end_inside");
        break;
      }
      case 6:                                           // A line of another thread of control: indentation that is not undone here.
        libcw_do.inc_indent(1); ++indent;
        scope();
        libcw_do.dec_indent(1); --indent;
        break;
    }
    line();
  }
}

extern "C" void h_scopes()
{
  static Cap c;
  cap = &c;
  libcw_do.set_ostream(&c.os);
  libcw_do.on();
  dc::notice.on();
  static Str s = any_str(3, "utf8");
  s.s[s.n] = 0;
  sym_mark = s.s;
  sx_symbolic(&sym_char, 1, "mark");
  static char m0[2];
  sx_symbolic(m0, 1, "marker");
  sx_assume(m0[0] != 0);
  if (sx_choice(2, "own_marker")) { libcw_do.marker().assign(m0, 1); marker.put(m0[0]); }
  else marker.put(": ");
  left = OPS;
  int before = 0;
  LEAKS_FROM
  scope();
  LEAKS_TO
  Text t;
  // Everything is undone.
  sx_assert(indent == 0 && libcw_do.get_indent() == before, "the indentation is not restored");
  line();
  sx_cover("end");
}
