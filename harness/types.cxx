// Type information: type_info_of<T>() reports exactly T, for every type of the generated forms and for every schedule of two threads.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#include "h.h"
#ifndef FORMS
#define FORMS 0x1fff
#endif
#ifndef ARRAYS
#define ARRAYS 1
#endif
#ifndef IDLEN
#define IDLEN 2
#endif

extern "C" void stub__ZN6libcwd9_private_11assert_failEPKcS2_iS2_(char const*, char const*, int, char const*) { sx_fail("an assertion of the library failed"); }

// The three names of one type: as template argument of libcwd_type_info_exact, as returned by typeid and as it should be.
struct Name3
{
  Text encap, strip, exact;
  void put(char c) { encap.put(c); strip.put(c); exact.put(c); }
  void put(char const* s) { while (*s) put(*s++); }
  void qual(char const* s) { encap.put(s); exact.put(s); }      // Ignored by typeid.
  static void seq(Text& t, int n)
  {
    t.put('S');
    if (n > 0)
    {
      char d[8]; int k = 0;
      for (int v = n - 1; k == 0 || v > 0; v /= 36) d[k++] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % 36];
      while (k) t.put(d[--k]);
    }
    t.put('_');
  }
  void sub(int n) { seq(encap, n + 1); seq(strip, n); seq(exact, n); }  // The substitution with index n.
  void id()
  {
    char c[IDLEN];
    sx_symbolic(c, IDLEN, "id");
    put((char)('0' + IDLEN));
    for (int i = 0; i < IDLEN; ++i)
    {
      sx_assume(c[i] == '_' || (c[i] >= 'A' && c[i] <= 'Z') || (c[i] >= 'a' && c[i] <= 'z') || (i > 0 && c[i] >= '0' && c[i] <= '9'));
      put(c[i]);
    }
  }
};

static char const* const cvs[4] = {"", "K", "V", "VK"};

extern "C" void h_exact()
{
  static Name3 n;
  n.encap.put("22libcwd_type_info_exactI");
  int form = sx_choice(13, "form");
  sx_assume(FORMS >> form & 1);
  int ref = sx_choice(3, "reference"), cv = sx_choice(4, "cv"), arr = sx_choice(ARRAYS + 1, "arrays");
  sx_assume(!((form == 8) && (cv || arr)));     // A function type.
  if (ref) n.qual(ref == 1 ? "R" : "O");
  for (int i = 0; i < arr; ++i) { n.put("A"); n.put(sx_choice(2, "bound") ? "10" : i ? "4" : ""); n.put("_"); }
  n.qual(cvs[cv]);
  switch (form)
  {
    case 0: n.put("i"); break;
    case 1: n.id(); break;
    case 2: n.put("2T2I"); n.id(); n.sub(0); n.put("IiiEE"); break;
    case 3: n.put("2T2I"); n.id(); n.put(cvs[sx_choice(4, "cv2")]); n.sub(1); n.put("E"); break;
    case 4: n.put("2T2I"); n.id(); n.put("A3_"); n.put(cvs[sx_choice(4, "cv2")]); n.sub(1); n.put("E"); break;
    case 5: n.put("N"); n.id(); n.id(); n.put("E"); break;
    case 6:
    {
      static int const ks[] = {1, 2, 9, 10, 11, 12, 35, 36, 37, 38, 72, 73, 1296, 1297, 1298, 1332, 1333};
      int k = ks[sx_choice(sizeof ks / sizeof *ks, "pointers")];
      n.put("2T2I"); for (int i = 0; i < k; ++i) n.put("P"); n.put("i"); n.sub(k); n.put("E");
      break;
    }
    case 7: n.put("P"); n.put(cvs[sx_choice(4, "cv2")]); n.id(); break;
    case 8: n.put("F"); n.id(); n.sub(0); n.put("E"); break;
    case 9: n.put("M"); n.id(); n.put(cvs[sx_choice(4, "cv2")]); n.put("FviE"); break;
    case 10: n.put("St6vectorI"); n.id(); n.put("SaI"); n.sub(1); n.put("EE"); break;
    case 11: n.put("Z1f"); n.id(); n.put("E"); n.id(); break;
    case 12: n.put("2T2IN"); n.id(); n.id(); n.put("EN"); n.sub(1); n.id(); n.put("EE"); break;
  }
  n.encap.put("E"); n.encap.put('\0'); n.strip.put('\0'); n.exact.put('\0');
  // The function may look at these names only.
  char* e = new char[n.encap.n]; memcpy(e, n.encap.data, n.encap.n);
  char* s = new char[n.strip.n]; memcpy(s, n.strip.data, n.strip.n);
  char const* r = libcwd::_private_::extract_exact_name(e, s);
  int len = strlen(r);
  sx_observe(r, len, "name");
  sx_assert(same(r, len, n.exact.data, n.exact.n - 1), "the exact name of the type is wrong");
  sx_cover("returned");
}

// ---- Real types
template<class A, class B> struct T2 { A* a; B* b; };
struct fooS { char c[5]; };
struct Inc;
struct Tn { libcwd::TypeInfo const* (*get)(); char const* name; char const* demangled; size_t size, ref; };
template<class T> libcwd::TypeInfo const* exact() { return &libcwd::type_info_of<T>(); }
template<class T> libcwd::TypeInfo const* object() { return &libcwd::type_info_of(*(T*)8); }
static Tn const types[] = {
  {exact<int>, "i", "int", 4, 0},
  {exact<char const(&)[6]>, "RA6_Kc", "char const (&) [6]", 6, 0},
  {exact<fooS const*>, "PK4fooS", "fooS const*", 8, 5},
  {exact<fooS const* const>, "KPK4fooS", "fooS const* const", 8, 0},
  {exact<Inc*>, "P3Inc", "Inc*", 8, 0},
  {exact<void*>, "Pv", "void*", 8, 0},
  {exact<int (*)[3]>, "PA3_i", "int (*) [3]", 8, 12},
  {object<int (*)[3]>, "PA3_i", "int (*) [3]", 8, 12},
  {exact<T2<fooS, T2<int, fooS>> const&>, "RK2T2I4fooSS_IiS0_EE", "T2<fooS, T2<int, fooS> > const&", 16, 0},
  {object<fooS const>, "4fooS", "fooS", 5, 0},
  {object<fooS* const>, "P4fooS", "fooS*", 8, 5},
  {object<void*>, "Pv", "void*", 8, 0},
};
static void check(Tn const& t)
{
  libcwd::TypeInfo const* i = t.get();
  sx_assert(i->name() && strcmp(i->name(), t.name) == 0, "TypeInfo::name is wrong");
  sx_assert(i->demangled_name() && strcmp(i->demangled_name(), t.demangled) == 0, "TypeInfo::demangled_name is wrong");
  sx_assert(i->size() == t.size && i->ref_size() == t.ref, "TypeInfo::size or ref_size is wrong");
  sx_assert(t.get() == i, "another object the second time");
}
static void* type_thread(void* p) { check(*(Tn const*)p); return nullptr; }

extern "C" void h_type_threads()
{
  int t[2], id[2];
  t[0] = sx_choice(sizeof types / sizeof *types, "type");
  t[1] = sx_choice(2, "same") ? t[0] : (t[0] + 1) % (sizeof types / sizeof *types);
  for (int i = 0; i < 2; ++i) id[i] = sx_thread_create(type_thread, (void*)&types[t[i]]);
  for (int i = 0; i < 2; ++i) sx_thread_join(id[i]);
  for (int i = 0; i < 2; ++i) check(types[t[i]]);
  sx_cover("end");
}
