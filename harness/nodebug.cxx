// The macros of a program that is compiled without CWDEBUG: nothing of the debug code is left, but DoutFatal still tells why
// and ends the program.
#include "h.h"
#include <iostream>
#include <stdlib.h>
#undef Debug
#undef Dout
#undef DoutFatal
#undef LibcwDout
#undef LibcwDoutFatal
#undef LibcwDebug
#include "nodebug.h"
#ifndef STMTS
#define STMTS 3
#endif
#ifndef SLEN
#define SLEN 3
#endif
static_assert(CWDEBUG_LOCATION == 0 && CWDEBUG_DEBUG == 0 && CWDEBUG_DEBUGOUTPUT == 0 && CWDEBUG_DEBUGT == 0);

static int touched;
static int touch() { return ++touched; }
static Cap* err;
static Text want;
static bool fatal;
static int evaluated, want_evaluated;
extern "C" void stub_exit(int code)
{
  sx_assert(fatal, "the program ends");
  sx_assert(code == 1, "wrong exit code");
  sx_assert(evaluated == want_evaluated, "the arguments of DoutFatal are not evaluated once");
  sx_assert(same(err->data, err->n, want.data, want.n), "wrong message");
  sx_assert(!touched, "something that is not there without CWDEBUG is evaluated");
  sx_observe(err->data, err->n, "message");
  sx_cover("fatal");
  sx_done();
  for (;;) ;
}
extern "C" void stub__Exit(int) { sx_fail("the program ends without cleaning up"); }
extern "C" void stub_quick_exit(int) { sx_fail("the program ends without cleaning up"); }
extern "C" void stub_abort() { sx_fail("the program is aborted"); }
static int value(int v) { ++evaluated; return v; }

extern "C" void h_nodebug()
{
  static Cap e;
  err = &e;
  if (sx_symbolic_run()) new (&std::cerr) std::ostream(&e);
  else std::cerr.rdbuf(&e);
  int n = 0, ref = 0;
  for (int i = 0; i < STMTS; ++i)
  {
    bool c = sx_choice(2, "cond");
    switch (sx_choice(9, "stmt"))
    {
      case 0: if (c) Dout(dc::notice, "x" << touch()); else ++n; ref += !c; break;
      case 1: if (c) Debug(touch()); else ++n; ref += !c; break;
      case 2: if (c) ForAllDebugChannels(touch()); else ++n; ref += !c; break;
      case 3: if (c) ForAllDebugObjects(touch()); else ++n; ref += !c; break;
      case 4: if (c) LibcwDebug(foo, touch(); touch()); else ++n; ref += !c; break;
      case 5: if (c) LibcwDout(foo::channels, my_debug_object, dc::notice | continued_cf, touch() << ", " << n); else ++n; ref += !c; break;
      case 6:
        if (c) LibcwDebug(foo, ++n, ++n);
        LibcwdForAllDebugChannels(foo, touch());
        LibcwdForAllDebugObjects(foo, touch());
        for (int k = 0; k < 2; ++k) Dout(dc::notice|flush_cf, ++n);
        break;
      case 7:
      {
        char s[SLEN + 1];
        int l = sx_choice(SLEN + 1, "len");
        sx_symbolic(s, l, "str");
        for (int k = 0; k < l; ++k) sx_assume(s[k] != 0);
        s[l] = 0;
        fatal = c;
        want.n = 0;
        want.put("A \""); want.put(s, l); want.put("\": 42, 7\n");
        want_evaluated = 2;
        if (c) DoutFatal(dc::fatal | error_cf, "A \"" << s << "\": " << value(42) << ", " << value(7)); else ++n;
        ++ref;
        break;
      }
      case 8:
      {
        char ch = sx_any<char>("char");
        fatal = c;
        want.n = 0;
        want.put(ch); want.put("1\n");
        want_evaluated = 1;
        if (c) LibcwDoutFatal(foo::channels, my_debug_object, dc::core, ch << value(1)); else ++n;
        ++ref;
        break;
      }
    }
    sx_assert(!fatal, "the program goes on after DoutFatal");
    sx_assert(n == ref, "a statement does something else without CWDEBUG");
    sx_assert(!touched && !evaluated && !e.n, "something that is not there without CWDEBUG is evaluated");
  }
  sx_cover("end");
}
