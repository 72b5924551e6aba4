// Demangler, literals as template arguments.
// h_int: any number of at most DIGITS digits, of any integral or enumeration type.
// h_real: floating point literals, NIBBLES hexadecimal digits of which are arbitrary; the printed value is compared with the
// exact value in integer arithmetic.
#include <cstring>
#include <string>
#include "libcwd/demangle.h"
#include "h.h"
#ifndef DIGITS
#define DIGITS 4
#endif
#ifndef LIT
#define LIT "3ff0000000000000"
#endif
#ifndef WHERE
#define WHERE {0}
#endif

static void compare(std::string const& in, std::string const& want)
{
  std::string out;
  libcwd::demangle_symbol(in.c_str(), out);
  sx_observe(in.data(), in.size(), "in");
  sx_observe(out.data(), out.size(), "out");
  sx_assert(same(out.data(), out.size(), want.data(), want.size()), "the literal is demangled wrongly");
}

extern "C" void h_int()
{
  static struct { char const* code; char const* name; } const types[] = {
    {"i", ""}, {"c", "(char)"}, {"a", "(signed char)"}, {"h", "(unsigned char)"}, {"s", "(short)"}, {"t", "(unsigned short)"},
    {"j", "(unsigned int)"}, {"l", "(long)"}, {"m", "(unsigned long)"}, {"x", "(long long)"}, {"y", "(unsigned long long)"},
    {"w", "(wchar_t)"}, {"n", "(__int128)"}, {"o", "(unsigned __int128)"}, {"2Ee", "(Ee)"}, {"N1N2EeE", "(N::Ee)"}, {"St2Ee", "(std::Ee)"}, {"b", nullptr}};
  int t = sx_choice(sizeof(types) / sizeof(types[0]), "type");
  std::string num, val;
  if (!types[t].name)
  {
    char c = sx_any<char>("digit");
    sx_assume(c == '0' || c == '1');
    num = std::string(1, c);
    val = c == '0' ? "false" : "true";
    sx_cover("bool");
  }
  else
  {
    if (sx_choice(2, "negative")) { num = "n"; val = "-"; }
    int n = 1 + sx_choice(DIGITS, "digits");
    for (int i = 0; i < n; ++i)
    {
      char c = sx_any<char>("digit");
      sx_assume(c >= (i == 0 && n > 1 ? '1' : '0') && c <= '9');
      num += c;
      val += c;
    }
    val = types[t].name + val;
  }
  std::string lit = std::string("L") + types[t].code + num + "E";
  // As the first or the last argument, as an argument of a class, or inside an expression.
  switch (sx_choice(4, "where"))
  {
    case 0: compare("_Z1fI" + lit + "1AEvv", "void f<" + val + ", A>()"); break;
    case 1: compare("_Z1fI1A" + lit + "EvS0_", "void f<A, " + val + ">(A)"); break;
    // An enumeration adds substitutions of itself.
    case 2: compare("_ZN1CI" + lit + "E1gEPS" + (t == 14 || t == 16 ? "1" : t == 15 ? "2" : "0") + "_", "C<" + val + ">::g(C<" + val + ">*)"); break;
    case 3: compare("_Z1fILi1EEv1CIXplT_" + lit + "EE", "void f<1>(C<(1) + (" + val + ")>)"); break;
  }
  sx_cover("returned");
}

// A non-negative integer of W 32 bit words.
struct Big
{
  static int const W = 76;
  unsigned int w[W] = {};
  void mul(unsigned int f) { unsigned long c = 0; for (int i = 0; i < W; ++i) { c += (unsigned long)w[i] * f; w[i] = (unsigned int)c; c >>= 32; } }
  void add(unsigned int f) { unsigned long c = f; for (int i = 0; c && i < W; ++i) { c += w[i]; w[i] = (unsigned int)c; c >>= 32; } }
  void pow(unsigned int base, int n)
  {
    if (base == 2) { for (; n >= 31; n -= 31) mul(1u << 31); if (n) mul(1u << n); }
    else { for (; n >= 9; n -= 9) mul(1000000000u); while (n-- > 0) mul(10); }
  }
  static int cmp(Big const& a, Big const& b) { for (int i = W - 1; i >= 0; --i) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1; return 0; }
  void sub(Big const& b) { long c = 0; for (int i = 0; i < W; ++i) { c += (long)w[i] - b.w[i]; w[i] = (unsigned int)c; c >>= 32; } }
};

extern "C" void h_real()
{
  char lit[] = LIT;
  int const n = sizeof(lit) - 1;
  bool const dbl = n == 16;
  static int const where[] = WHERE;
  for (int w : where) lit[w] = "0123456789abcdef"[sx_choice(16, "nibble")];
  std::string out;
  std::string in = std::string("_Z1fIL") + (dbl ? "d" : "f") + lit + "EEvv";
  libcwd::demangle_symbol(in.c_str(), out);
  sx_observe(in.data(), in.size(), "in");
  sx_observe(out.data(), out.size(), "out");
  std::string const pre = dbl ? "void f<(double)" : "void f<(float)";
  sx_assert(out.size() > pre.size() + 3 && out.compare(0, pre.size(), pre) == 0 && out.compare(out.size() - 3, 3, ">()") == 0, "a literal of the right size is decoded");
  std::string v = out.substr(pre.size(), out.size() - pre.size() - 3);
  unsigned long bits = 0;
  for (int i = 0; i < n; ++i) bits = bits << 4 | (lit[i] <= '9' ? lit[i] - '0' : lit[i] - 'a' + 10);
  int const fb = dbl ? 52 : 23, eb = dbl ? 11 : 8, bias = (1 << (eb - 1)) - 1;
  bool neg = bits >> (fb + eb) & 1;
  int e = bits >> fb & ((1 << eb) - 1);
  unsigned long m = bits & ((1UL << fb) - 1);
  if (e == (1 << eb) - 1)
  {
    sx_assert(m ? v == "nan" : v == (neg ? "-inf" : "inf"), "nan and infinity are named");
    sx_cover("special");
    return;
  }
  if (neg)
  {
    sx_assert(v[0] == '-', "a negative literal has a minus sign");
    v.erase(0, 1);
  }
  if (e == 0 && m == 0)
  {
    sx_assert(v == "0", "zero is printed as 0");
    sx_cover("zero");
    return;
  }
  if (e) m |= 1UL << fb; else { e = 1; sx_cover("denormalized"); }
  e -= bias + fb;                       // The value is m * 2^e.
  // Parse d[.d+][e(+|-)d+]
  int const prec = dbl ? 17 : 8;
  unsigned long d = 0;
  int nd = 0, k = 0;
  size_t p = 0;
  bool ok = v.size() > 0 && v[0] >= '1' && v[0] <= '9';
  for (; p < v.size() && v[p] != 'e'; ++p)
  {
    if (p == 1) { ok = ok && v[p] == '.'; continue; }
    ok = ok && v[p] >= '0' && v[p] <= '9';
    d = d * 10 + (v[p] - '0');
    ++nd;
  }
  ok = ok && nd <= prec && nd >= 1 && v[p - 1] != '.' && (nd == 1 || v[p - 1] != '0');
  if (p < v.size())
  {
    ok = ok && p + 2 < v.size() && (v[p + 1] == '+' || v[p + 1] == '-') && v[p + 2] != '0';
    bool ne = v[p + 1] == '-';
    for (p += 2; p < v.size(); ++p) { ok = ok && v[p] >= '0' && v[p] <= '9'; k = k * 10 + (v[p] - '0'); }
    if (ne) k = -k;
  }
  sx_assert(ok, "the literal is a decimal number in scientific notation without trailing zeroes");
  for (; nd < prec; ++nd) d *= 10;
  k -= prec - 1;                        // The printed value is d * 10^k, and 10^k is one unit of the last digit.
  Big a, b, u;                          // value, printed value and allowed error, times 2^max(0,-e) * 10^max(0,-k)
  a.add((unsigned int)(m >> 32)); a.pow(2, 32); a.add((unsigned int)m);
  b.add((unsigned int)(d >> 32)); b.pow(2, 32); b.add((unsigned int)d);
  u.add(1);
  // A double is printed with enough digits to tell it from every other double; a float is rounded to its last digit.
  if (dbl)
  {
    if (e > 0) { a.pow(2, e); u.pow(2, e); } else b.pow(2, -e);
    if (k > 0) b.pow(10, k); else { a.pow(10, -k); u.pow(10, -k); }
  }
  else
  {
    if (e > 0) a.pow(2, e); else { b.pow(2, -e); u.pow(2, -e); }
    if (k > 0) { b.pow(10, k); u.pow(10, k); } else a.pow(10, -k);
  }
  bool less = Big::cmp(b, a) < 0;
  if (!less) { Big t = a; a = b; b = t; }
  a.sub(b);
  a.mul(100);
  u.mul(!dbl ? 51 : less && m == 1UL << fb && e > 1 - bias - fb ? 24 : 49);
  sx_assert(Big::cmp(a, u) <= 0, "the printed value is the value of the literal");
  sx_cover("value");
}

// A literal with something else than a hexadecimal digit in it is not demangled.
extern "C" void h_badreal()
{
  bool dbl = sx_choice(2, "double");
  char lit[] = "_Z1fILd3ff0a9871234bcdeEEvv";
  if (!dbl) { lit[6] = 'f'; memmove(lit + 15, lit + 23, 5); }
  int n = dbl ? 16 : 8;
  int p = sx_choice(n, "position");
  char c = sx_any<char>("c");
  sx_assume(!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'f'));
  lit[7 + p] = c;
  std::string out;
  libcwd::demangle_symbol(lit, out);
  sx_observe(out.data(), out.size(), "out");
  sx_assert(same(out.data(), out.size(), lit, strlen(lit)), "a literal with a wrong digit is demangled");
  sx_cover("returned");
}
