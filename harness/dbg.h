// Environment of the harnesses that run the real debug output code (debug.cxx, threading.cxx, environ.cxx, ...).
#pragma once
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "h.h"
#include <sys/resource.h>
#include <time.h>
#include <errno.h>
#include <iostream>
#include <new>
#include <libcwd/strerrno.h>
#include <stdlib.h>

#ifndef NO_ENV_STUBS
extern "C" {
// Process environment: nothing set, no limits.
char* stub_getenv(char const*) { return nullptr; }
int stub_getrlimit(int, struct rlimit* r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
int stub_setrlimit(int, struct rlimit const*) { return 0; }
// The DWARF part is not part of these runs.
bool stub__ZN6libcwd5dwarf21ensure_initializationERNS_9_private_18ThreadSpecificDataE(void*) { return true; }
}
#endif

using namespace libcwd;
namespace dc = libcwd::channels::dc;

#define DFATAL(cntrl, ...) LibcwDoutFatal(libcwd::channels, libcw_do, cntrl, __VA_ARGS__)
#define DOUT(cntrl, ...) LibcwDout(libcwd::channels, libcw_do, cntrl, __VA_ARGS__)

// std::cerr as a second observable sink.
static inline void capture_cerr(CapBuf& b)
{
  if (sx_symbolic_run()) new (&std::cerr) std::ostream(&b);
  else std::cerr.rdbuf(&b);
}

// A string of at most max symbolic, non-NUL bytes.
struct Str { char s[8]; int n; };
static inline Str any_str(int max, char const* what)
{
  Str r;
  r.n = max ? sx_choice(max + 1, "len") : 0;
  sx_symbolic(r.s, r.n, what);
  for (int i = 0; i < r.n; ++i) sx_assume(r.s[i] != 0);
  return r;
}
