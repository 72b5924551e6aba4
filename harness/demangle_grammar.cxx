// Demangler: generated names of the Itanium C++ ABI (the C++98 part) with their substitutions, against an independent printer.
// Components are identified by their mangling without substitutions, as the ABI describes.
#include <cstring>
#include <string>
#include "libcwd/demangle.h"
#include "h.h"
#ifndef DEPTH
#define DEPTH 2                 // Depth of a type
#endif
#ifndef PARAMS
#define PARAMS 2
#endif
#ifndef SHAPES
#define SHAPES 0x7ff          // Allowed type constructors (bit mask)
#endif
#ifndef NAMES
#define NAMES 0xff           // Allowed function names
#endif
#ifndef BUILTINS
#define BUILTINS 2
#endif
#ifndef CLASSES
#define CLASSES 0x7ff
#endif

struct S : std::string
{
  using std::string::string;
  S() { }
  S(std::string const& s) : std::string(s) { }
};

enum Kind { Builtin, Class, Ptr, Ref, Const, Volatile, Arr, Func, Mem, MemFunc, Tpar };
struct Ty
{
  Kind k;
  int which = 0;                // Builtin letter, class, array bound, cv of member function, template parameter
  Ty* a = nullptr;
  Ty* b = nullptr;
};
static char symb;               // A symbolic identifier character
static Ty* targ[2];             // Template arguments of the function
static int ntarg;

static char const letters[] = "icvbdhjlmxystafegnowz";
static char const* const bnames[] = {"int", "char", "void", "bool", "double", "unsigned char", "unsigned int", "long", "unsigned long", "long long",
  "unsigned long long", "short", "unsigned short", "signed char", "float", "long double", "__float128", "__int128", "unsigned __int128", "wchar_t", "..."};

static int pick(unsigned mask, char const* what)
{
  int n = __builtin_popcount(mask), c = n > 1 ? sx_choice(n, what) : 0;
  for (int i = 0;; ++i) if (mask >> i & 1 && c-- == 0) return i;
}

// ---- generation
static Ty* gen(int depth, bool elem = false);
static Ty* mk(Kind k, int w = 0, Ty* a = nullptr, Ty* b = nullptr) { Ty* t = new Ty; t->k = k; t->which = w; t->a = a; t->b = b; return t; }
static Ty* gen_class(int depth)
{
  // 0 A, 1 B?, 2 A::B?, 3 std::S, 4 C<T>, 5 A::C<T>, 6 C<T>::B?, 7 std::C<T>, 8 std::string, 9 std::allocator<T>, 10 std::ostream
  unsigned m = CLASSES;
  if (depth <= 0) m &= ~((1 << 4) | (1 << 5) | (1 << 6) | (1 << 7) | (1 << 9));
  int c = pick(m, "class");
  return mk(Class, c, (c >= 4 && c <= 7) || c == 9 ? gen(depth - 1) : nullptr);
}
static Ty* gen(int depth, bool)
{
  unsigned m = SHAPES;
  if (depth <= 0) m &= (1 << Builtin) | (1 << Class) | (1 << Tpar);
  if (!ntarg) m &= ~(1 << Tpar);
  Kind k = (Kind)pick(m, "type");
  switch (k)
  {
    case Builtin: return mk(k, BUILTINS > 1 ? sx_choice(BUILTINS, "builtin") : 0);
    case Class: return gen_class(depth);
    case Ptr: return mk(k, 0, gen(depth - 1));
    case Ref: { Ty* t = gen(depth - 1); sx_assume(t->k != Ref); return mk(k, 0, t); }
    case Const: case Volatile:
    {
      Ty* t = gen(depth - 1);
      sx_assume(t->k != Ref && t->k != Func && t->k != Const && t->k != Volatile && t->k != Arr && t->k != Tpar);
      return mk(k, 0, t);
    }
    case Arr: { Ty* t = gen(depth - 1); sx_assume(t->k != Ref && t->k != Func && !(t->k == Builtin && t->which == 2)); return mk(k, 4, t); }
    case Func:
    {
      // Only below a pointer or reference.
      Ty* r = sx_choice(2, "void") ? mk(Builtin, 2) : gen(depth - 1);
      sx_assume(r->k != Arr && r->k != Func);
      Ty* p = sx_choice(2, "noarg") ? nullptr : gen(depth - 1);
      sx_assume(!p || (p->k != Arr && p->k != Func));
      return mk(Func, 0, r, p);
    }
    case Mem: { Ty* c = gen_class(0); Ty* t = gen(depth - 1); sx_assume(t->k != Ref && t->k != Func); return mk(k, 0, c, t); }
    case MemFunc:
    {
      Ty* c = gen_class(0);
      Ty* f = mk(Func, sx_choice(2, "constmf"), gen(depth - 1), nullptr);
      sx_assume(f->a->k != Arr && f->a->k != Func);
      return mk(Mem, 1, c, f);
    }
    case Tpar: return mk(k, ntarg > 1 ? sx_choice(ntarg, "tpar") : 0);
  }
  __builtin_trap();
}

// ---- mangling
static S dict[64];
static int ndict;
static S num(int n) { S s; if (n >= 10) s += (char)('0' + n / 10); s += (char)('0' + n % 10); return s; }
static S src(S const& id) { return num(id.size()) + id; }
static S idB() { S s; s += 'B'; s += symb; return s; }
static bool seen(S const& key, S& out)
{
  for (int i = 0; i < ndict; ++i)
    if (dict[i] == key)
    {
      out += 'S';
      if (i > 0)
      {
        int v = i - 1;
        if (v >= 36) out += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v / 36];
        out += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % 36];
      }
      out += '_';
      return true;
    }
  return false;
}
static void add(S const& key) { dict[ndict++] = key; }
static S key(Ty* t);
static S key_args(Ty* t) { return "I" + key(t) + "E"; }
// Prefixes of a nested name are identified by their parts between N and E.
static S key_class(Ty* t)
{
  switch (t->which)
  {
    case 0: return "1A";
    case 1: return src(idB());
    case 2: return "1A" + src(idB());
    case 3: return "St1S";
    case 4: return "1C" + key_args(t->a);
    case 5: return "1A1C" + key_args(t->a);
    case 6: return "1C" + key_args(t->a) + src(idB());
    case 7: return "St1C" + key_args(t->a);
    case 8: return "Ss";
    case 9: return "Sa" + key_args(t->a);
    case 10: return "So";
  }
  __builtin_trap();
}
static S key(Ty* t)
{
  switch (t->k)
  {
    case Builtin: return S(1, letters[t->which]);
    case Class: return key_class(t);
    case Ptr: return "P" + key(t->a);
    case Ref: return "R" + key(t->a);
    case Const: return "K" + key(t->a);
    case Volatile: return "V" + key(t->a);
    case Arr: return "A" + num(t->which) + "_" + key(t->a);
    case Func: return S(t->which ? "K" : "") + "F" + key(t->a) + (t->b ? key(t->b) : S("v")) + "E";
    case Mem: return "M" + key(t->a) + key(t->b);
    case MemFunc: break;
    case Tpar: return t->which ? "T0_" : "T_";
  }
  __builtin_trap();
}
static void enc(Ty* t, S& out);
static void enc_args(Ty* t, S& out) { out += 'I'; enc(t, out); out += 'E'; }
// The parts of a class name as they appear after N (or as prefix of a function name).
static void enc_prefix(Ty* t, S& out)
{
  if (t->which == 8) { out += "Ss"; return; }
  if (t->which == 10) { out += "So"; return; }
  S k = key_class(t);
  if (seen(k, out)) return;
  switch (t->which)
  {
    case 0: out += "1A"; break;
    case 1: out += src(idB()); break;
    case 2: case 5:
      if (t->which == 2 || !seen("1A1C", out))
      {
        if (!seen("1A", out)) { out += "1A"; add("1A"); }
        out += t->which == 2 ? src(idB()) : S("1C");
        if (t->which == 5) add("1A1C");
      }
      if (t->which == 5) enc_args(t->a, out);
      break;
    case 3: out += "St1S"; break;
    case 4: case 6: 
      { Ty c = *t; c.which = 4; S k4 = key_class(&c);
        if (t->which == 6 && seen(k4, out)) { out += src(idB()); break; }
        if (!seen("1C", out)) { out += "1C"; add("1C"); }
        enc_args(t->a, out);
        if (t->which == 6) { add(k4); out += src(idB()); } }
      break;
    case 7: if (!seen("St1C", out)) { out += "St1C"; add("St1C"); } enc_args(t->a, out); break;
    case 9: out += "Sa"; enc_args(t->a, out); break;
  }
  add(k);
}
static void enc_class(Ty* t, S& out)
{
  bool nested = t->which == 2 || t->which == 5 || t->which == 6;
  if (nested)
  {
    S s;
    if (seen(key_class(t), s)) { out += s; return; }
    out += 'N';
  }
  enc_prefix(t, out);
  if (nested) out += 'E';
}
static void enc(Ty* t, S& out)
{
  if (t->k == Builtin) { out += letters[t->which]; return; }
  if (t->k == Class) { enc_class(t, out); return; }
  S k = key(t);
  if (seen(k, out)) return;
  switch (t->k)
  {
    case Ptr: out += 'P'; enc(t->a, out); break;
    case Ref: out += 'R'; enc(t->a, out); break;
    case Const: out += 'K'; enc(t->a, out); break;
    case Volatile: out += 'V'; enc(t->a, out); break;
    case Arr: out += 'A'; out += num(t->which); out += '_'; enc(t->a, out); break;
    case Func: if (t->which) out += 'K'; out += 'F'; enc(t->a, out); if (t->b) enc(t->b, out); else out += 'v'; out += 'E'; break;
    case Mem: out += 'M'; enc(t->a, out); enc(t->b, out); break;
    case Tpar: out += k; break;
    default: __builtin_trap();
  }
  add(k);
}

// ---- printing
static void print(Ty* t, S& left, S& right);
static Ty* real(Ty* t) { while (t->k == Tpar) t = targ[t->which]; return t; }
static S str(Ty* t) { S l, r; print(t, l, r); if (real(t)->k == Func) l += ' '; return l + r; }
static S args(Ty* t) { S s = "<" + str(t); if (s[s.size() - 1] == '>') s += ' '; return s + ">"; }
static S class_str(Ty* t)
{
  switch (t->which)
  {
    case 0: return "A";
    case 1: return idB();
    case 2: return "A::" + idB();
    case 3: return "std::S";
    case 4: return "C" + args(t->a);
    case 5: return "A::C" + args(t->a);
    case 6: return "C" + args(t->a) + "::" + idB();
    case 7: return "std::C" + args(t->a);
    case 8: return "std::string";
    case 9: return "std::allocator" + args(t->a);
    case 10: return "std::ostream";
  }
  __builtin_trap();
}
// Prints everything up to the place of the declarator.
static void print(Ty* t, S& left, S& right)
{
  switch (t->k)
  {
    case Builtin: left += bnames[t->which]; return;
    case Class: left += class_str(t); return;
    case Tpar: print(targ[t->which], left, right); return;
    case Const: case Volatile: print(t->a, left, right); left += t->k == Const ? " const" : " volatile"; return;
    case Arr:
    {
      S r;
      print(t->a, left, r);
      right = " [" + num(t->which) + "]" + right;
      if (r.size() > 1 && r[0] == ' ' && r[1] == '[') r.erase(0, 1);
      right += r;
      return;
    }
    case Func:
    {
      S r;
      print(t->a, left, r);
      right += "(" + (t->b ? str(t->b) : S("")) + ")" + (t->which ? " const" : "") + r;
      return;
    }
    case Ptr: case Ref: case Mem:
    {
      Ty* e = real(t->k == Mem ? t->b : t->a);
      S r;
      print(e, left, r);
      S m = t->k == Ptr ? S("*") : t->k == Ref ? S("&") : class_str(t->a) + "::*";
      if (e->k == Func)
      {
        // A function (pointer) or array pointer that is returned leaves a declarator open.
        S l2, r2;
        print(e->a, l2, r2);
        left += t->k != Mem && r2.size() && left[left.size() - 1] == '*' ? "(" : " (";
        left += m;
        right = ")" + r + right;
      }
      else if (e->k == Arr) { left += " (" + m; right = ")" + r + right; }
      else { left += (t->k == Mem ? " " : "") + m; right = r + right; }
      return;
    }
    default: __builtin_trap();
  }
}

extern "C" void h_grammar()
{
  symb = sx_any<char>("ident");
  sx_assume((symb >= 'a' && symb <= 'z') || (symb >= '0' && symb <= '9') || symb == '_');
  S in = "_Z", want, ret, retr;
  // 0 f(..) 1 A::f(..) 2 A::f(..) const 3 A::A(..) 4 f<T>(..) 5 A::f<T>(..) 6 <class>::f(..) 7 f<T, int>
  int fk = pick(NAMES, "function");
  Ty* cls = nullptr;
  if (fk == 4 || fk == 5 || fk == 7) { targ[0] = gen(DEPTH - 1); sx_assume(targ[0]->k != Func); }
  if (fk == 7) { targ[1] = gen(DEPTH - 1); sx_assume(targ[1]->k != Func); }
  if (fk == 6) cls = gen_class(DEPTH);
  S name;
  bool isconst = false;
  switch (fk)
  {
    case 0: in += "1f"; name = "f"; break;
    case 1: in += "N1A1fE"; add("1A"); name = "A::f"; break;
    case 2: in += "NK1A1fE"; add("1A"); name = "A::f"; isconst = true; break;
    case 3: in += "N1AC1E"; add("1A"); name = "A::A"; break;
    case 4: in += "1f"; add("1f"); enc_args(targ[0], in); name = "f" + args(targ[0]); break;
    case 5: in += "N1A1f"; add("1A"); add("1A1f"); enc_args(targ[0], in); in += "E"; name = "A::f" + args(targ[0]); break;
    case 6: in += "N"; enc_prefix(cls, in); in += "1fE"; name = class_str(cls) + "::f"; break;
    case 7: in += "1f"; add("1f"); in += 'I'; enc(targ[0], in); enc(targ[1], in); in += 'E';
      name = "f<" + str(targ[0]) + ", " + str(targ[1]); if (name[name.size() - 1] == '>') name += ' '; name += ">"; break;
  }
  if (fk == 4 || fk == 5 || fk == 7)
  {
    ntarg = fk == 7 ? 2 : 1;
    Ty* r = gen(DEPTH - 1);
    sx_assume(r->k != Arr && r->k != Func);
    enc(r, in);
    print(r, ret, retr);
    want = ret + " ";
  }
  want += name + "(";
  int np = 1 + (PARAMS > 1 ? sx_choice(PARAMS, "params") : 0);
  for (int i = 0; i < np; ++i)
  {
    Ty* p = gen(DEPTH);
    sx_assume(p->k != Func && p->k != Arr && p->k != Const && p->k != Volatile && !(p->k == Builtin && p->which == 2));
    enc(p, in);
    if (i) want += ", ";
    want += str(p);
  }
  want += ")";
  if (isconst) want += " const";
  want += retr;
  std::string out;
  libcwd::demangle_symbol(in.c_str(), out);
  sx_observe(in.data(), in.size(), "in");
  sx_observe(out.data(), out.size(), "out");
  sx_assert(same(out.data(), out.size(), want.data(), want.size()), "the name is demangled wrongly");
  sx_cover("returned");
}
