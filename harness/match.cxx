// match(mask, name) decides whether name is in the language of mask, where '*' stands for any string.
#include "h.h"
#include "match.h"
#ifndef ML
#define ML 3
#define NL 3
#endif
extern "C" void h_match()
{
  char mask[ML + 1], name[NL + 1], mask0[ML + 1], name0[NL + 1];
  int ml = sx_choice(ML + 1, "masklen"), nl = sx_choice(NL + 1, "namelen");
  sx_symbolic(mask, ml, "mask");
  sx_symbolic(name, nl, "name");
#ifdef STARS
  // Long masks and names over a small alphabet: where the stars are is decided up front.
  for (int i = 0; i < ml; ++i) sx_assume((mask[i] == '*') | (mask[i] == 'a') | (mask[i] == 'b'));
  for (int i = 0; i < nl; ++i) sx_assume((name[i] == 'a') | (name[i] == 'b'));
#else
  for (int i = 0; i < ml; ++i) sx_assume(mask[i] != 0);
  for (int i = 0; i < nl; ++i) sx_assume(name[i] != 0);
#endif
  mask[ml] = 0;
  name[nl] = 0;
  memcpy(mask0, mask, ml);
  memcpy(name0, name, nl);
  // ok[i][j]: mask[i..] matches name[j..].
  unsigned char ok[ML + 1][NL + 1];
  for (int i = ml; i >= 0; --i)
    for (int j = nl; j >= 0; --j)
    {
      if (i == ml) { ok[i][j] = j == nl; continue; }
      unsigned char star = mask[i] == '*';
      unsigned char viaStar = ok[i + 1][j] | (j < nl ? ok[i][j + 1] : 0);
      unsigned char viaChar = j < nl ? (unsigned char)((mask[i] == name[j]) & ok[i + 1][j + 1]) : 0;
      ok[i][j] = (star & viaStar) | ((star ^ 1) & viaChar);
    }
  bool r = libcwd::_private_::match(mask, ml, name);
  sx_assert(r == (bool)ok[0][0], "match() differs from the reference matcher");
  sx_assert(same(mask, ml, mask0, ml) & same(name, nl, name0, nl), "match() changed its input");
  sx_observe(&r, 1, "result");
  sx_cover(r ? "matched" : "mismatched");
}
