// Combining channels: the label is that of the left most channel that is on, output appears when any is on, flags apply
// whatever their position, a channel with a false condition counts as off.
#include "dbg.h"
static int calls;
static char const* arg() { ++calls; return "x"; }
static Channel* const ch[4] = {&dc::debug, &dc::notice, &dc::system, &dc::warning};
static char const* const label[4] = {"DEBUG   ", "NOTICE  ", "SYSTEM  ", "WARNING "};

extern "C" void h_chanset()
{
  Cap cap;
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  dc::warning.off();
  int on = sx_choice(16, "on");
  for (int i = 0; i < 4; ++i) if (on >> i & 1) ch[i]->on();
  int n = 1 + sx_choice(3, "terms"), c[3];
  bool cond[3], always = sx_choice(2, "always");
  for (int i = 0; i < n; ++i) { c[i] = sx_choice(4, "channel"); cond[i] = sx_choice(2, "condition"); }
  control_flag_t f = sx_any<control_flag_t>("flags"), g = sx_any<control_flag_t>("flags");
  sx_assume((f & ~(nonewline_cf | noprefix_cf | nolabel_cf | blank_label_cf | flush_cf)) == 0);
  sx_assume((g & ~(nonewline_cf | noprefix_cf | nolabel_cf | blank_label_cf | flush_cf)) == 0);
#define C(i) (*ch[c[i]])(cond[i])
  // The flags are split over two positions.
  if (always)
  {
    if (n == 1) { DOUT(dc::always | f | C(0) | g, arg()); }
    else if (n == 2) { DOUT(dc::always | C(0) | f | C(1) | g, arg()); }
    else { DOUT(dc::always | C(0) | f | C(1) | C(2) | g, arg()); }
  }
  else if (n == 1) { DOUT(C(0) | f | g, arg()); }
  else if (n == 2) { DOUT(C(0) | f | C(1) | g, arg()); }
  else { DOUT(C(0) | f | C(1) | C(2) | g, arg()); }
  char const* l = always ? ">>>>>>>>" : nullptr;
  for (int i = 0; i < n && !l; ++i) if (cond[i] && (on >> c[i] & 1)) l = label[c[i]];
  Text t;
  if (l)
  {
    f |= g;
    if (!(f & noprefix_cf) && !(f & nolabel_cf))
    {
      t.put(f & blank_label_cf ? "        " : l);
      t.put(": ");
    }
    t.put("x");
    if (!(f & nonewline_cf)) t.put("\n");
  }
  sx_assert(calls == (l ? 1 : 0), "the arguments must be evaluated once when any channel is on and not at all when all are off");
  sx_assert(same(cap, t), "the line is not that of the left most channel that is on");
  sx_assert(cap.flushes == (l && (f & flush_cf) ? 1 : 0), "the flush flag is not honoured");
  sx_observe(cap.data, cap.n, "out");
  if (l) sx_cover("on"); else sx_cover("off");
}
