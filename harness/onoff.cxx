// Turning debug objects and channels on and off: after every history, output appears exactly when both the object and the
// channel are on, per object and per channel, and the arguments of a suppressed Dout are not evaluated.
#include "dbg.h"
#ifndef OPS
#define OPS 4
#endif
static DebugObject my_do;
static int calls;
static char const* arg() { ++calls; return "x"; }

struct Sw { int off; int sp; struct { int off; DebugObject::OnOffState o; Channel::OnOffState c; } st[OPS + 1]; };

extern "C" void h_onoff()
{
  Cap cap[2];
  DebugObject* obj[2] = {&libcw_do, &my_do};
  Channel* ch[2] = {&dc::notice, &dc::warning};
  for (int i = 0; i < 2; ++i) obj[i]->set_ostream(&cap[i].os);
  LIBCWD_TSD_DECLARATION;
  // Objects start off, and are turned on by the first on(); channels start off, except WARNING.
  Sw os[2] = {{0, 0}, {0, 0}}, cs[2] = {{0, 0}, {-1, 0}};
  for (int i = 0; i < OPS; ++i)
  {
    int k = sx_choice(4, "target"), t = k & 1;
    bool isobj = k < 2;
    Sw& w = isobj ? os[t] : cs[t];
    switch (sx_choice(4, "op"))
    {
      case 0:
        if (isobj) obj[t]->off(); else ch[t]->off();
        ++w.off;
        break;
      case 1:
        sx_assume(w.off >= 0);          // Otherwise a misuse.
        if (isobj) obj[t]->on(); else ch[t]->on();
        --w.off;
        break;
      case 2:
        w.st[w.sp].off = w.off;
        if (isobj) obj[t]->force_on(w.st[w.sp].o); else ch[t]->force_on(w.st[w.sp].c, t ? "WARNING" : "NOTICE");
        ++w.sp;
        w.off = -1;
        break;
      case 3:
        sx_assume(w.sp > 0 && w.off == -1);
        --w.sp;
        w.off = w.st[w.sp].off;
        if (isobj) obj[t]->restore(w.st[w.sp].o); else ch[t]->restore(w.st[w.sp].c);
        sx_cover("restored");
        break;
    }
  }
  for (int o = 0; o < 2; ++o)
  {
    sx_assert(obj[o]->is_on(LIBCWD_TSD) == (os[o].off < 0), "DebugObject::is_on() is wrong");
    sx_assert(ch[o]->is_on() == (cs[o].off < 0), "Channel::is_on() is wrong");
    sx_assert(ch[o]->is_on(LIBCWD_TSD) == (cs[o].off < 0), "Channel::is_on(tsd) is wrong");
  }
  for (int o = 0; o < 2; ++o)
    for (int c = 0; c < 2; ++c)
    {
      bool on = os[o].off < 0 && cs[c].off < 0;
      cap[0].clear(); cap[1].clear(); calls = 0;
      if (sx_choice(2, "combine"))
        LibcwDout(libcwd::channels, (*obj[o]), dc::system | *ch[c], arg());
      else
        LibcwDout(libcwd::channels, (*obj[o]), *ch[c], arg());
      sx_assert(calls == (on ? 1 : 0), "the arguments must be evaluated once when on and not at all when off");
      sx_assert(cap[1 - o].n == 0, "output on another debug object");
      sx_assert(on ? cap[o].is(c ? "WARNING : x\n" : "NOTICE  : x\n") : cap[o].n == 0, "output appears when and only when object and channel are on");
      sx_observe(cap[o].data, cap[o].n, "out");
      if (on) sx_cover("on"); else sx_cover("off");
    }
}
