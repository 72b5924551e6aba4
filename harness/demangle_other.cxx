// Demangler, the other constructs of the Itanium C++ ABI (C++98 part): operators, constructors, special names, local names,
// expressions, anonymous namespaces and long substitution lists.  Structure by symbolic choices, digits and identifiers by
// symbolic bytes; the expected text is written down independently.
#include <cstring>
#include <string>
#include "libcwd/demangle.h"
#include "h.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef OPS
#define OPS 18
#endif
#ifndef CHAIN
#define CHAIN 120
#endif

typedef std::string S;

static void compare(S const& in, S const& want)
{
  S out;
  libcwd::demangle_symbol(in.c_str(), out);
  sx_observe(in.data(), in.size(), "in");
  sx_observe(out.data(), out.size(), "out");
  sx_assert(same(out.data(), out.size(), want.data(), want.size()), "the name is demangled wrongly");
  sx_cover("returned");
}
static S num(int n) { S s; if (n >= 100) s += (char)('0' + n / 100); if (n >= 10) s += (char)('0' + n / 10 % 10); s += (char)('0' + n % 10); return s; }
static S src(S const& id) { return num(id.size()) + id; }
// An identifier with a symbolic character.
static S ident(char first)
{
  char c = sx_any<char>("ident");
  sx_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_');
  return S(1, first) + c;
}
// Symbolic digits.
static S digits(int max)
{
  S s;
  for (int n = 1 + sx_choice(max, "ndigits"); n > 0; --n)
  {
    char c = sx_any<char>("digit");
    sx_assume(c <= '9' && c >= (s.empty() && n > 1 ? '1' : '0'));
    s += c;
  }
  return s;
}
static S number(int max) { return (sx_choice(2, "neg") ? "n" : "") + digits(max); }

// A class: how it is mangled as prefix of a nested name (with its first use), as a type, and printed; and the last component.
struct Cls { S prefix, type, text, last; int subs; };
static Cls cls()
{
  S b = ident('B');
  switch (sx_choice(6, "class"))
  {
    case 0: return {src(b), src(b), b, b, 1};
    case 1: return {"1N" + src(b), "N1N" + src(b) + "E", "N::" + b, b, 2};
    case 2: return {src(b) + "IiE", src(b) + "IiE", b + "<int>", b, 2};
    case 3: return {"St" + src(b), "St" + src(b), "std::" + b, b, 1};
    case 4: return {src(b) + "I1AE1D", "N" + src(b) + "I1AE1DE", b + "<A>::D", "D", 4};
    case 5: return {"12_GLOBAL__N_1" + src(b), "N12_GLOBAL__N_1" + src(b) + "E", "(anonymous namespace)::" + b, b, 2};
  }
  __builtin_trap();
}

static struct { char const* code; char const* name; } const ops[] = {
  {"nw", " new"}, {"na", " new[]"}, {"dl", " delete"}, {"da", " delete[]"}, {"ps", "+"}, {"ng", "-"}, {"ad", "&"}, {"de", "*"}, {"co", "~"}, {"pl", "+"}, {"mi", "-"}, {"ml", "*"},
  {"dv", "/"}, {"rm", "%"}, {"an", "&"}, {"or", "|"}, {"eo", "^"}, {"aS", "="}, {"pL", "+="}, {"mI", "-="}, {"mL", "*="}, {"dV", "/="}, {"rM", "%="}, {"aN", "&="}, {"oR", "|="},
  {"eO", "^="}, {"ls", "<<"}, {"rs", ">>"}, {"lS", "<<="}, {"rS", ">>="}, {"eq", "=="}, {"ne", "!="}, {"lt", "<"}, {"gt", ">"}, {"le", "<="}, {"ge", ">="}, {"nt", "!"}, {"aa", "&&"},
  {"oo", "||"}, {"pp", "++"}, {"mm", "--"}, {"cm", ","}, {"pm", "->*"}, {"pt", "->"}, {"cl", "()"}, {"ix", "[]"}};
int const nops = sizeof(ops) / sizeof(ops[0]);

extern "C" void h_operator()
{
  S b = ident('B');
  S c = ops[0].code, n;
  int o = sx_choice(nops, "operator");
  c = ops[o].code;
  n = S("operator") + ops[o].name;
  // A space keeps the '<' apart (also after <<=, where that isn't needed).
  S sp = n[n.size() - 1] == '<' || c == "lS" ? " " : "";
  switch (sx_choice(5, "where"))
  {
    case 0: compare("_Z" + c + src(b) + "S_", n + "(" + b + ", " + b + ")"); break;
    case 1: compare("_ZN" + src(b) + c + "ERKS_", b + "::" + n + "(" + b + " const&)"); break;
    case 2: compare("_ZNK1N" + src(b) + c + "Ev", "N::" + b + "::" + n + "() const"); break;
    case 3: compare("_Z" + c + "I" + src(b) + "EbT_S1_", "bool " + n + sp + "<" + b + ">(" + b + ", " + b + ")"); break;
    case 4: compare("_ZN" + src(b) + "IiE" + c + "IcEEbT_", "bool " + b + "<int>::" + n + sp + "<char>(char)"); break;
  }
}

extern "C" void h_cast()
{
  S b = ident('B');
  static struct { char const* in; char const* out; } const types[] = {{"i", "int"}, {"Pc", "char*"}, {"PKc", "char const*"}, {"RKx", "long long const&"}, {"PFviE", "void (*)(int)"},
    {"1A", "A"}, {"N1N1AE", "N::A"}, {"1AIiE", "A<int>"}, {"RA3_i", "int (&) [3]"}, {"M1Ai", "int A::*"}, {"M1AFvvE", "void (A::*)()"}};
  int t = sx_choice(sizeof(types) / sizeof(types[0]), "type");
  S in = types[t].in, out = types[t].out;
  bool k = sx_choice(2, "const");
  switch (sx_choice(3, "where"))
  {
    case 0: compare(S("_ZN") + (k ? "K" : "") + src(b) + "cv" + in + "Ev", b + "::operator " + out + "()" + (k ? " const" : "")); break;
    case 1: compare(S("_ZN") + (k ? "K" : "") + src(b) + "IcEcv" + in + "Ev", b + "<char>::operator " + out + "()" + (k ? " const" : "")); break;
    case 2:
      // Templated cast operators.
      static struct { char const* in; char const* out; } const tmpl[] = {{"T_", "c"}, {"PT_", "c*"}, {"RKT_", "c const&"}, {"1AIT_E", "A<c>"}, {"P1AIiT_E", "A<int, c>*"}, {"MS_T_", "c b::*"}};
      int u = sx_choice(sizeof(tmpl) / sizeof(tmpl[0]), "template");
      S o = tmpl[u].out, r;
      for (size_t i = 0; i < o.size(); ++i) if (o[i] == 'c' && (i + 1 == o.size() || o[i + 1] != 'o')) r += "char"; else if (o[i] == 'b') r += b; else r += o[i];
      if (sx_choice(2, "class_template") && u != 5)
        compare(S("_ZN") + (k ? "K" : "") + src(b) + "IsEcv" + tmpl[u].in + "IcEEv", b + "<short>::operator " + r + "<char>()" + (k ? " const" : ""));
      else
        compare(S("_ZN") + (k ? "K" : "") + src(b) + "cv" + tmpl[u].in + "IcEEv", b + "::operator " + r + "<char>()" + (k ? " const" : ""));
      break;
  }
}

extern "C" void h_ctor()
{
  Cls c = cls();
  int k = sx_choice(6, "kind");
  static char const* const kinds[] = {"C1", "C2", "C3", "D0", "D1", "D2"};
  S in = "_ZN" + c.prefix + kinds[k], out = c.text + "::" + (k < 3 ? "" : "~") + c.last;
  if (k >= 3) compare(in + "Ev", out + "()");
  else
    switch (sx_choice(4, "args"))
    {
      case 0: compare(in + "Ev", out + "()"); break;
      case 1: compare(in + "ERK" + (c.subs > 1 ? "S" + num(c.subs - 2) + "_" : S("S_")), out + "(" + c.text + " const&)"); break;
      case 2: compare(in + "IiEET_", out + "<int>(int)"); break;
      case 3: compare(in + "EPFvvEc", out + "(void (*)(), char)"); break;
    }
}

extern "C" void h_special()
{
  Cls c = cls();
  switch (sx_choice(9, "special"))
  {
    case 0: compare("_ZTV" + c.type, "vtable for " + c.text); break;
    case 1: compare("_ZTT" + c.type, "VTT for " + c.text); break;
    case 2: compare("_ZTI" + c.type, "typeinfo for " + c.text); break;
    case 3: compare("_ZTS" + c.type, "typeinfo name for " + c.text); break;
    case 4: compare("_ZTIP" + c.type, "typeinfo for " + c.text + "*"); break;
    case 5: compare("_ZGVN" + c.prefix + "1xE", "guard variable for " + c.text + "::x"); break;
    case 6: compare("_ZTC" + c.type + digits(3) + "_1A", "construction vtable for A-in-" + c.text); break;
    case 7: compare("_ZGVZN" + c.prefix + "1fEvE1x", "guard variable for " + c.text + "::f()::x"); break;
    case 8:
    {
      S f = "N" + c.prefix + "1fEi", t = c.text + "::f(int)";
      switch (sx_choice(3, "thunk"))
      {
        case 0: compare("_ZTh" + number(3) + "_" + f, "non-virtual thunk to " + t); break;
        case 1: { S a = number(2); compare("_ZTv" + a + "_" + number(3) + "_" + f, "virtual thunk to " + t); break; }
        case 2:
        {
          S in = "_ZTc";
          for (int i = 0; i < 2; ++i)
            if (sx_choice(2, "virtual")) { in += "v" + number(1) + "_"; in += number(2) + "_"; } else in += "h" + number(2) + "_";
          compare(in + f, "covariant return thunk to " + t);
          break;
        }
      }
      break;
    }
  }
}

// Names inside a function.
extern "C" void h_local()
{
  static struct { char const* in; char const* out; char const* param; char const* ptext; } const fns[] = {
    {"1fv", "f()", "c", "char"}, {"1f1A", "f(A)", "S_", "A"}, {"1fP1A", "f(A*)", "S0_", "A*"}, {"N1N1fEP1A", "N::f(A*)", "PS0_", "A*"}, {"NK1A1fEPKS_", "A::f(A const*) const", "S1_", "A const*"},
    {"1fIiEvT_", "void f<int>(int)", "i", "int"}, {"N1AC1ERKS_", "A::A(A const&)", "S1_", "A const&"}, {"N1AD1Ev", "A::~A()", "S_", "A"}, {"N1ApLERKS_", "A::operator+=(A const&)", "RS0_", "A const&"},
    {"Z1gP1AE1hi", "g(A*)::h(int)", "S0_", "A*"}, {"N1AIiE1fEv", "A<int>::f()", "S0_", "A<int>"}};
  auto const& f = fns[sx_choice(sizeof(fns) / sizeof(fns[0]), "function")];
  S b = ident('L'), fi = f.in, fo = f.out;
  S disc;
  switch (sx_choice(3, "discriminator"))
  {
    case 0: break;
    case 1: { char c = sx_any<char>("digit"); sx_assume(c >= '0' && c <= '9'); disc = S("_") + c; break; }
    case 2: disc = "__" + digits(3) + "_"; break;
  }
  switch (sx_choice(6, "entity"))
  {
    case 0: compare("_ZZ" + fi + "E" + src(b) + disc, fo + "::" + b); break;
    case 1: compare("_ZZ" + fi + "Es" + disc, fo + "::string literal"); break;
    case 2: compare("_ZGVZ" + fi + "E" + src(b) + disc, "guard variable for " + fo + "::" + b); break;
    case 3: compare("_ZZ" + fi + "EN" + src(b) + "1gE" + (disc.empty() ? S(f.param) : disc + f.param), fo + "::" + b + "::g(" + f.ptext + ")"); break;
    case 4: compare("_ZTIZ" + fi + "E" + src(b) + disc, "typeinfo for " + fo + "::" + b); break;
    case 5: sx_assume(disc.empty()); compare("_ZZ" + fi + "EN" + src(b) + "C1E" + f.param, fo + "::" + b + "::" + b + "(" + f.ptext + ")"); break;
  }
}

// Expressions in template arguments, in terms of the template parameters 5 and A.
static S enc, txt;
static void expr(int depth, bool inside_gt)
{
  switch (sx_choice(depth > 0 ? 7 : 3, "expression"))
  {
    case 0: enc += "T_"; txt += "5"; break;
    case 1: { S d = number(1); enc += "Li" + d + "E"; if (d[0] == 'n') txt += '-' + d.substr(1); else txt += d; break; }
    case 2: enc += "stT0_"; txt += "sizeof (A)"; break;
    case 3:
    {
      static char const* const un[][2] = {{"ps", "+"}, {"ng", "-"}, {"ad", "&"}, {"de", "*"}, {"co", "~"}, {"nt", "!"}};
      int u = sx_choice(OPS < 6 ? OPS : 6, "unary");
      enc += un[u][0];
      txt += un[u][1]; txt += "(";
      expr(depth - 1, inside_gt);
      txt += ")";
      break;
    }
    case 4:
    {
      static char const* const bin[][2] = {{"pl", "+"}, {"mi", "-"}, {"ml", "*"}, {"dv", "/"}, {"rm", "%"}, {"an", "&"}, {"or", "|"}, {"eo", "^"}, {"ls", "<<"}, {"rs", ">>"}, {"eq", "=="}, {"ne", "!="}, {"lt", "<"},
        {"gt", ">"}, {"le", "<="}, {"ge", ">="}, {"aa", "&&"}, {"oo", "||"}};
      int b = sx_choice(OPS, "binary");
      if (OPS < 18 && b == 1) b = 13; // The last of two: >.
      enc += bin[b][0];
      bool gt = bin[b][1][0] == '>' && !bin[b][1][1];
      txt += gt ? "((" : "(";
      expr(depth - 1, inside_gt);
      txt += ") "; txt += bin[b][1]; txt += " (";
      expr(depth - 1, inside_gt);
      txt += gt ? "))" : ")";
      break;
    }
    case 5:
      enc += "qu"; txt += "(";
      expr(depth - 1, inside_gt);
      txt += ") ? (";
      expr(0, inside_gt);
      txt += ") : (";
      expr(0, inside_gt);
      txt += ")";
      break;
    case 6: enc += "cvc"; txt += "(char)("; expr(depth - 1, inside_gt); txt += ")"; break;
  }
}
extern "C" void h_expr()
{
  expr(DEPTH, true);
  compare("_Z1fILi5E1AEv1CIX" + enc + "EE", "void f<5, A>(C<" + txt + ">)");
}

// Any substitution out of a long list.
extern "C" void h_seqid()
{
  // Every one of the first CHAIN, and those around S0Z_/S10_, SZ_/S100_-like borders and letters in the first digit.
  static int const far[] = {359, 360, 361, 370, 371, 396, 397, 407, 431, 432};
  int k = sx_choice(CHAIN + sizeof(far) / sizeof(far[0]), "which");
  if (k >= CHAIN) k = far[k - CHAIN];
  int n = k < CHAIN / 2 ? CHAIN / 2 : k + 1;
  S in = "_Z1f", stars;
  for (int i = 0; i < n; ++i) in += 'P';
  in += "1A";
  in += 'S';
  if (k > 0)
  {
    int v = k - 1;
    if (v >= 36) in += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v / 36];
    in += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % 36];
  }
  in += '_';
  compare(in, "f(A" + S(n, '*') + ", A" + S(k, '*') + ")");
}

// Source names are taken literally, except for those of the anonymous namespace.
extern "C" void h_name()
{
  static int const lens[] = {1, 2, 3, 9, 10, 11};
  int n = lens[sx_choice(6, "length")];
  S id = ident('B').substr(1);
  sx_assume(!(id[0] >= '0' && id[0] <= '9'));
  while ((int)id.size() < n) id += id.size() < 3 ? ident('x')[1] : 'x';
  compare("_ZN" + src(id) + "1fEv", id + "::f()");
}
extern "C" void h_anon()
{
  // Names of exactly 11 characters, and other characters around the N, are left open.
  static int const lens[] = {9, 10, 12, 13};
  int n = lens[sx_choice(4, "length")];
  S id("_GLOBAL_");
  while ((int)id.size() < n)
  {
    char c = sx_any<char>("char");
    sx_assume((c >= 'M' && c <= 'O') || (c >= '0' && c <= '1') || c == '_' || c == '.' || c == '$');
    id += c;
  }
  if (n > 11) sx_assume(id[8] == '_' || id[8] == '.' || id[8] == '$' || id[10] != id[8]);
  bool an = n > 11 && (id[8] == '_' || id[8] == '.' || id[8] == '$') && id[9] == 'N' && id[10] == id[8];
  if (an) sx_cover("anonymous");
  compare("_ZN" + src(id) + "1fEv", (an ? S("(anonymous namespace)") : id) + "::f()");
}

extern "C" void h_global()
{
  S rest;
  for (int n = 1 + sx_choice(4, "length"); n > 0; --n)
  {
    char c = sx_any<char>("char");
    sx_assume(c != 0);
    rest += c;
  }
  if (sx_choice(2, "ctor"))
    compare("_GLOBAL__I_" + rest, "global constructors keyed to " + rest);
  else
    compare("_GLOBAL__D_" + rest, "global destructors keyed to " + rest);
}
