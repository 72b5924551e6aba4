// Demangler, arbitrary input: memory safety, termination, fallback, appending, determinism of the output prefix.
#include <cstring>
#include <string>
#include "libcwd/demangle.h"
#include "sx.h"

#ifndef NN
#define NN 3
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef SUFFIX
#define SUFFIX ""
#endif

#ifdef LEAKS
#define LEAKS_FROM unsigned long leaks_before = sx_live_bytes();
#define LEAKS_TO sx_assert((long)(sx_live_bytes() - leaks_before) <= 0, "memory is still allocated");
#else
#define LEAKS_FROM
#define LEAKS_TO
#endif

static void run(bool type)
{
  static char const prefix[] = PREFIX;
  static char const suffix[] = SUFFIX;
  size_t const pl = sizeof(prefix) - 1, sl = sizeof(suffix) - 1;
  // A heap block of the exact size: reading one byte past the terminating zero is an error.
  char* in = new char[pl + NN + sl + 1];
  memcpy(in, prefix, pl);
  char sym[NN];
  sx_symbolic(sym, NN, "in");
  for (int i = 0; i < NN; ++i)
  {
#ifdef ALPHABET
    bool ok = false;
    for (char const* p = ALPHABET; *p; ++p) ok |= sym[i] == *p;
    sx_assume(ok);
#endif
    in[pl + i] = sym[i];
  }
  memcpy(in + pl + NN, suffix, sl + 1);
  char* copy = new char[pl + NN + sl + 1];
  memcpy(copy, in, pl + NN + sl + 1);
  LEAKS_FROM
  {
  std::string out = "PRE";
  if (type)
    libcwd::demangle_type(in, out);
  else
    libcwd::demangle_symbol(in, out);
  bool same = true;
  for (size_t i = 0; i < pl + NN + sl + 1; ++i) same &= in[i] == copy[i];
  sx_assert(same, "the input is not modified");
  sx_assert(out.size() >= 3 && out[0] == 'P' && out[1] == 'R' && out[2] == 'E', "the result is appended to the output string");
  sx_assert(out.size() > 3 || in[0] == 0, "a non-empty input gives a non-empty result");
  sx_observe(out.data(), out.size(), "out");
  }
  LEAKS_TO
  sx_cover("returned");
  delete [] in;
  delete [] copy;
}

extern "C" void h_type() { run(true); }
extern "C" void h_symbol() { run(false); }
