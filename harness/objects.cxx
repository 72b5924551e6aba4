// Which object file an address belongs to, after any history of dlopen and dlclose.
// The dynamic loader (the real dlopen and dlclose, dl_iterate_phdr, dlinfo) and /proc/self/exe are stand-ins.
#define NO_ENV_STUBS
#include "dbg.h"
#include "cwd_dwarf.h"
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <string>
#ifndef OPS
#define OPS 4
#endif
#ifndef SAME
#define SAME 0
#endif
#ifndef LIBS
#define LIBS 2
#endif

// ---- the loader
struct Obj
{
  char const* name;
  ElfW(Phdr) ph[3];
  int nph;
  bool startup, present, nodelete;      // present: dlopen can find it.
  int slot;                             // Where it is mapped, or -1.
  int refs;
};
static int const nobj = 4 + LIBS;       // The executable, the vdso, a library without anything to load, a library that is linked with, libraries that are only dlopen-ed.
static Obj objs[nobj];
static int const nslots = nobj;
static struct link_map slots[nslots];
static int in_slot[nslots];
static int calls_open, calls_close;
static int const base0 = 0x100000;
static std::string exe;
static int exe_len;
static int nested = -1;                 // The object that a constructor of a library opens.

// The loader does one thing at a time.
static pthread_mutex_t loader_lock = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
struct Lock { Lock() { pthread_mutex_lock(&loader_lock); } ~Lock() { pthread_mutex_unlock(&loader_lock); } };

static bool no_reuse;                   // An object never comes where another was, or gets the handle of another.
static int first_free;
static void map(Obj& o)
{
  int s = first_free;
  while (in_slot[s] != -1) ++s;         // The first free place: an object may well come where another was.
  if (no_reuse) first_free = s + 1;
  in_slot[s] = &o - objs;
  o.slot = s;
  slots[s].l_addr = base0 * (s + 1);
  slots[s].l_name = (char*)o.name;
}
static void* fake_dlopen(char const* name, int flags)
{
  Lock l;
  ++calls_open;
  if (!name || !*name) { ++objs[0].refs; return &slots[0]; }
  for (int i = 1; i < nobj; ++i)
  {
    Obj& o = objs[i];
    if (strcmp(name, o.name) != 0 || !o.present) continue;
    bool fresh = o.slot == -1;
    if (fresh)
    {
      if (flags & RTLD_NOLOAD) return nullptr;
      map(o);
    }
    if (flags & RTLD_NODELETE) o.nodelete = true;
    ++o.refs;
    if (fresh && nested != -1) { int n = nested; nested = -1; dlopen(objs[n].name, RTLD_NOW); }
    return &slots[o.slot];
  }
  return nullptr;
}
static int fake_dlclose(void* h)
{
  Lock l;
  ++calls_close;
  int s = 0;
  while (s < nslots && h != &slots[s]) ++s;
  if (s == nslots || in_slot[s] == -1 || objs[in_slot[s]].refs == 0) return -1;
  Obj& o = objs[in_slot[s]];
  if (--o.refs == 0 && !o.startup && !o.nodelete) { in_slot[s] = -1; o.slot = -1; }
  return 0;
}
static void setup();
extern "C" {
// One initialization at a time; recursive, for initializations that need other ones.
int stub_pthread_once(pthread_once_t* c, void (*f)(void))
{
  static pthread_mutex_t m = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
  pthread_mutex_lock(&m);
  if (!*c) { f(); *c = 2; }
  pthread_mutex_unlock(&m);
  return 0;
}
char* stub_getenv(char const*) { return nullptr; }
int stub_getrlimit(int, struct rlimit* r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
int stub_setrlimit(int, struct rlimit const*) { return 0; }
void* stub_dlsym(void* h, char const* n)
{
  sx_assert(h == RTLD_NEXT, "the next definition of dlopen or dlclose is needed");
  if (strcmp(n, "dlopen") == 0) return (void*)&fake_dlopen;
  if (strcmp(n, "dlclose") == 0) return (void*)&fake_dlclose;
  return nullptr;
}
int stub_dlinfo(void* h, int what, void* p)
{
  sx_assert(what == RTLD_DI_LINKMAP, "what is asked for");
  *(struct link_map**)p = (struct link_map*)h;
  return 0;
}
int stub_dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data)
{
  setup();
  Lock l;
  for (int s = 0; s < nslots; ++s)
  {
    if (in_slot[s] == -1) continue;
    Obj& o = objs[in_slot[s]];
    struct dl_phdr_info info;
    memset(&info, 0, sizeof info);
    info.dlpi_addr = slots[s].l_addr;
    info.dlpi_name = &o == objs ? "" : o.name;
    info.dlpi_phdr = o.ph;
    info.dlpi_phnum = o.nph;
    int r = cb(&info, sizeof info, data);
    if (r) return r;
  }
  return 0;
}
ssize_t stub_readlink(char const* n, char* buf, size_t size)
{
  setup();
  size_t len = exe.size() < size ? exe.size() : size;
  memcpy(buf, exe.data(), len);
  return len;
}
}

static void seg(Obj& o, unsigned type, uintptr_t start, uintptr_t size)
{
  ElfW(Phdr)& p = o.ph[o.nph++];
  memset(&p, 0, sizeof p);
  p.p_type = type; p.p_vaddr = start; p.p_memsz = size; p.p_flags = PF_R | PF_X;
}
// The start of the program: this is first needed by the constructors of global objects.
static void setup()
{
  static bool done;
  if (done) return;
  done = true;
  static char const* const names[] = {"", "vdso", "/lib/none.so", "/lib/start.so", "/lib/x.so", "y.so", "/lib/z.so"};
  for (int i = 0; i < nslots; ++i) in_slot[i] = -1;
  for (int i = 0; i < nobj; ++i)
  {
    Obj& o = objs[i];
    o.name = names[i];
    o.slot = -1; o.present = true; o.startup = i < 4;
    if (o.startup) map(o);
  }
  exe = "/bin/main";
#ifdef LONGNAME
  int const lengths[] = { 254, 255, 256, 257, 511, 512, 513, 700 };
  exe = '/' + std::string(lengths[sx_choice(8, "length")] - 3, 'd') + "/m";
#endif
  for (int i = 0; i < nobj; ++i)
  {
    if (i != 2) seg(objs[i], PT_LOAD, 0, 0x1000 + 16 * i);
    seg(objs[i], PT_DYNAMIC, 0x3000, 0x10);
    if (i != 2) seg(objs[i], PT_LOAD, 0x2000, 0x3000 - i);
  }
}

// What find_object_file must return: the object that is mapped there.
static void look_up(uintptr_t addr)
{
  LIBCWD_TSD_DECLARATION;
  dwarf::ObjectFileInterface const* f = dwarf::find_object_file((void const*)addr, LIBCWD_TSD);
  Obj* want = nullptr;
  for (int i = 0; i < nobj; ++i)
  {
    Obj& o = objs[i];
    if (o.slot == -1) continue;
    for (int k = 0; k < o.nph; ++k)
      if (o.ph[k].p_type == PT_LOAD && addr - slots[o.slot].l_addr >= o.ph[k].p_vaddr && addr - slots[o.slot].l_addr < o.ph[k].p_vaddr + o.ph[k].p_memsz) want = &o;
  }
  if (!want)
  {
    sx_assert(!f, "an address where nothing is loaded belongs to an object file");
    sx_cover("unmapped");
    return;
  }
  sx_assert(f != nullptr, "the object file that is loaded at an address is not found");
  char const* path = f->get_object_file().filepath();
  char const* name = f->get_object_file().filename();
  char const* full = want == objs ? exe.c_str() : want->name;
  sx_assert(strcmp(path, full) == 0, "an address belongs to the wrong object file");
  char const* slash = strrchr(full, '/');
  sx_assert(strcmp(name, slash ? slash + 1 : full) == 0, "wrong file name");
  sx_assert(f->get_lbase() == slots[want->slot].l_addr, "wrong load base");
  if (want->startup) sx_cover("startup"); else sx_cover("dlopen");
}

extern "C" void h_history()
{
  setup();
  void* held[2 * OPS] = {};
  int nheld = 0;
#ifdef LEAN
  bool nest = false;
#else
  bool nest = sx_choice(2, "nest");
#endif
  for (int k = 0; k < OPS; ++k)
  {
    int op = sx_choice(nheld ? 3 : 2, "op");
    if (op < 2)
    {
      // dlopen
#ifdef LEAN
      int which = 3 + sx_choice(LIBS + 1, "lib");
#else
      int which = sx_choice(LIBS + 5, "lib");
#endif
      int fl = sx_choice(3, "flags");
      int flags = RTLD_NOW | (fl == 1 ? RTLD_NOLOAD : fl == 2 ? RTLD_NODELETE : 0);
      if (op == 1) flags |= RTLD_NOLOAD | RTLD_NODELETE, sx_assume(fl == 0);
      char const* name = which == 0 ? nullptr : which == 1 ? "" : which == LIBS + 4 ? "missing.so" : objs[which].name;
      if (which <= 1) sx_assume(fl == 0 && op == 0);
      if (which == LIBS + 4) sx_assume(op == 0 && fl == 0);
      nested = nest && which >= 4 && which != 4 + LIBS ? 4 : -1;
      bool nests = nested != -1 && objs[which].slot == -1 && !(flags & RTLD_NOLOAD);
      int before = calls_open;
      void* h = dlopen(name, flags);
      nested = -1;
      sx_assert(calls_open == before + 1 + nests, "the real dlopen was not called once");
      void* want = which <= 1 ? &slots[0] : which == LIBS + 4 || objs[which].slot == -1 ? nullptr : &slots[objs[which].slot];
      sx_assert(h == want, "dlopen returned something else than the real dlopen");
      if (h) held[nheld++] = h;
      if (nests) held[nheld++] = &slots[objs[4].slot];
    }
    else
    {
      int i = sx_choice(nheld, "close");
      int before = calls_close;
      void* h = held[i];
      held[i] = held[--nheld];
      sx_assert(dlclose(h) == 0, "dlclose fails");
      sx_assert(calls_close == before + 1, "the real dlclose was not called once");
#ifndef LEAN
      if (sx_choice(2, "bogus")) sx_assert(dlclose(&objs[0]) == -1, "dlclose of a wrong handle must fail");
#endif
    }
  }
#ifdef LEAN
  int s = 3 + sx_choice(LIBS + 1, "slot");
#else
  int s = sx_choice(nslots, "slot");
#endif
  unsigned short off = sx_any<unsigned short>("offset");
  look_up(base0 * (s + 1) + off);
  sx_cover("end");
}

#ifndef SEGS
#define SEGS 2
#endif
// Any layout of the segments of the libraries.
extern "C" void h_segments()
{
  setup();
  for (int i = 4; i < 4 + LIBS; ++i)
  {
    Obj& o = objs[i];
    o.nph = 0;
    unsigned char last = 0;
    for (int k = 0; k < SEGS; ++k)
    {
      unsigned char type = sx_any<unsigned char>("type"), start = sx_any<unsigned char>("start"), size = sx_any<unsigned char>("size");
      sx_assume(type <= 2);
      sx_assume(start >= last);         // Segments are sorted and do not overlap.
      sx_assume(start + size <= 255);
      seg(o, type, start << 4, size << 4);
      if (type == PT_LOAD) last = start + size;
    }
  }
  void* h[LIBS];
  for (int i = 0; i < LIBS; ++i) { h[i] = dlopen(objs[4 + i].name, RTLD_LAZY); sx_assert(h[i] == &slots[4 + i], "dlopen returned something else than the real dlopen"); }
  if (sx_choice(2, "close")) sx_assert(dlclose(h[0]) == 0, "dlclose fails");
  int s = 4 + sx_choice(LIBS, "slot");
  unsigned short off = sx_any<unsigned short>("offset");
  sx_assume(off < 0x1800);
  look_up(base0 * (s + 1) + off);
  sx_cover("end");
}

// Two threads that open and use libraries.
static int opened[2];
static void* use(void* p)
{
  int i = (int)(size_t)p;
  void* h = dlopen(objs[opened[i]].name, RTLD_NOW);
  sx_assert(h != nullptr, "dlopen fails");
  pthread_mutex_lock(&loader_lock);     // For the reference.
  uintptr_t a = base0 * (objs[opened[i]].slot + 1);
  pthread_mutex_unlock(&loader_lock);
  LIBCWD_TSD_DECLARATION;
  dwarf::ObjectFileInterface const* f = dwarf::find_object_file((void const*)a, LIBCWD_TSD);
  sx_assert(f != nullptr, "a library that is open is not found");
  sx_assert(strcmp(f->get_object_file().filepath(), objs[opened[i]].name) == 0, "an address belongs to the wrong object file");
  return h;
}
static void* use_and_close(void* p)
{
  sx_assert(dlclose(use(p)) == 0, "dlclose fails");
  return nullptr;
}
static void two(void* (*f)(void*), void* (*g)(void*))
{
  int a = sx_thread_create(f, (void*)0), b = sx_thread_create(g, (void*)1);
  sx_thread_join(a); sx_thread_join(b);
}
// Both open a library; afterwards every close must be counted.
extern "C" void h_two_open()
{
  setup();
  opened[0] = 3 + sx_choice(2, "lib");
  opened[1] = 3 + sx_choice(3, "lib");
  two(use, use);
  for (int i = 0; i < 2; ++i)
  {
    void* h = &slots[objs[opened[i]].slot];
    sx_assert(dlclose(h) == 0, "dlclose fails");
    for (int k = 0; k < 6; ++k) look_up(base0 * (k + 1));
  }
  sx_cover("end");
}
// Both open and close a library.
static void open_and_close(bool same)
{
  setup();
  opened[0] = 3 + sx_choice(2, "lib");
  opened[1] = same ? opened[0] : opened[0] == 3 ? 4 : 5;
  two(use_and_close, use_and_close);
  for (int k = 0; k < 6; ++k) look_up(base0 * (k + 1));
  sx_cover("end");
}
extern "C" void h_two_close() { no_reuse = true; open_and_close(false); }
// The same while an object can come where another was, or can be opened again while it is closed.
extern "C" void h_reuse() { open_and_close(SAME); }
