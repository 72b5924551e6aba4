// Which function an address belongs to, given the debug information and the symbol tables of its object file.
// libdw, libdwfl and libelf, and the loader, are stand-ins that serve the data below.
#define NO_ENV_STUBS
#include "dbg.h"
#include "cwd_dwarf.h"
#include "libcwd/pc_mangled_function_name.h"
#include <dwarf.h>
#include <elf.h>
#include <elfutils/libdw.h>
#include <elfutils/libdwfl.h>
#include <gelf.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <unistd.h>
#include <atomic>
#include <string>
#ifndef NF
#define NF 2                            // Functions in the debug information, one per compilation unit.
#endif
#ifndef NR
#define NR 1                            // Address ranges per function.
#endif
#ifndef NE
#define NE 2                            // Symbols in the symbol tables, one per table.
#endif
#ifndef TT
#define TT uint64_t                     // The type of the addresses and sizes in the debug information.
#endif
#ifndef LOOKUPS
#define LOOKUPS 1
#endif
typedef unsigned __int128 Wide;

// ---- the object file
static uintptr_t lbase = 0x100000;
static char const* const exe = "/bin/main";
static char const* const lib = "/lib/x.so";
static char const* file = exe;          // The one that is looked at.
static bool lib_loaded;
static char const* const separate = "/usr/lib/debug/main.debug";

struct Fn
{
  char const* linkage; char const* mips; char const* plain;     // DW_AT_linkage_name etc.
  int nr;
  Dwarf_Addr start[2], end[2];
  int error_at;                         // dwarf_ranges fails here.
  bool no_die;                          // dwarf_offdie fails for its compilation unit.
  bool no_funcs;                        // dwarf_getfuncs fails.
};
struct Sym
{
  GElf_Sym sym;
  char const* name;
  unsigned table;                       // Type of the section.
  bool no_header, no_entsize, no_sym;
};
static Fn fns[NF + 1];
static Sym syms[NE + 1];
static int nfn, nsym;
static int debug_file;                  // What libdwfl finds: 0 nothing, 1 the object file itself, 2 a separate file, 3 empty names.
static int fail;                        // What fails: see below.
enum { none, f_dwfl_begin, f_report_offline, f_report_end, f_open_dwarf, f_dwarf_begin, f_nextcu, f_elf_version, f_open_elf, f_elf_begin, nfail };

// ---- what happened
static std::atomic<int> fds, dwfls, dwarfs, elfs;       // Open now.
static std::atomic<int> dwarf_begins, elf_begins;
static int die_mem[NF + 1];
static int scratch[8];
static Fn& fn(Dwarf_Die* die) { int i = (int*)die->addr - die_mem; if (i < 0 || i >= nfn) sx_fail("a wrong DIE is used"); return fns[i]; }
extern "C" {
int stub_pthread_once(pthread_once_t* c, void (*f)(void))
{
  static pthread_mutex_t m = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
  pthread_mutex_lock(&m);
  if (!*c) { f(); *c = 2; }
  pthread_mutex_unlock(&m);
  return 0;
}
char* stub_getenv(char const*) { return nullptr; }
int stub_getrlimit(int, struct rlimit* r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
int stub_setrlimit(int, struct rlimit const*) { return 0; }
ssize_t stub_readlink(char const*, char* buf, size_t) { memcpy(buf, exe, strlen(exe)); return strlen(exe); }
int stub_dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data)
{
  ElfW(Phdr) ph;
  memset(&ph, 0, sizeof ph);
  ph.p_type = PT_LOAD; ph.p_vaddr = 0; ph.p_memsz = 0x10000; ph.p_flags = PF_R | PF_X;
  struct dl_phdr_info info;
  memset(&info, 0, sizeof info);
  info.dlpi_addr = 0x100000; info.dlpi_name = ""; info.dlpi_phdr = &ph; info.dlpi_phnum = 1;
  int r = cb(&info, sizeof info, data);
  if (r || !lib_loaded) return r;
  info.dlpi_addr = 0x200000; info.dlpi_name = lib;
  return cb(&info, sizeof info, data);
}
static struct link_map map;
static void* fake_dlopen(char const*, int) { lib_loaded = true; map.l_addr = 0x200000; return &map; }
static int fake_dlclose(void*) { lib_loaded = false; return 0; }
void* stub_dlsym(void*, char const* n) { return strcmp(n, "dlopen") == 0 ? (void*)&fake_dlopen : (void*)&fake_dlclose; }
int stub_dlinfo(void*, int, void* p) { *(struct link_map**)p = &map; return 0; }
int stub_open(char const* name, int flags, ...)
{
  sx_assert(flags == O_RDONLY, "a file is not opened for reading");
  bool sep = strcmp(name, separate) == 0;
  sx_assert(sep || strcmp(name, file) == 0, "a wrong file is opened");
  if (fail == f_open_dwarf && dwarf_begins == 0 && elfs == 0) { fail = none; return -1; }
  if (fail == f_open_elf && dwarf_begins) { fail = none; return -1; }
  ++fds;
  return sep ? 102 : 101;
}
int stub_close(int fd) { sx_assert(fd == 101 || fd == 102, "a wrong file is closed"); --fds; return 0; }

// libdwfl
Dwfl* stub_dwfl_begin(Dwfl_Callbacks const*) { if (fail == f_dwfl_begin) return nullptr; ++dwfls; return (Dwfl*)&scratch[0]; }
void stub_dwfl_end(Dwfl*) { --dwfls; }
Dwfl_Module* stub_dwfl_report_offline(Dwfl*, char const*, char const* name, int)
{
  sx_assert(strcmp(name, file) == 0, "debug information of another file");
  return fail == f_report_offline ? nullptr : (Dwfl_Module*)&scratch[1];
}
int stub_dwfl_report_end(Dwfl*, int (*)(Dwfl_Module*, void*, char const*, Dwarf_Addr, void*), void*) { return fail == f_report_end ? -1 : 0; }
Dwarf* stub_dwfl_module_getdwarf(Dwfl_Module*, Dwarf_Addr* bias) { *bias = 0; return nullptr; }
char const* stub_dwfl_module_info(Dwfl_Module*, void***, Dwarf_Addr*, Dwarf_Addr*, Dwarf_Addr*, Dwarf_Addr*, char const** mainfile, char const** debugfile)
{
  if (debug_file == 1 || debug_file == 2) *mainfile = file;
  if (debug_file == 2) *debugfile = separate;
  if (debug_file == 3) *mainfile = *debugfile = "";
  return file;
}
char const* stub_dwfl_errmsg(int) { return "dwfl error"; }

// libdw
Dwarf* stub_dwarf_begin(int fd, Dwarf_Cmd)
{
  bool sep = debug_file == 2 && fail != f_dwfl_begin && fail != f_report_offline && fail != f_report_end;
  sx_assert(fd == (sep ? 102 : 101), "the debug information is read from the wrong file");
  ++dwarf_begins;
  if (fail == f_dwarf_begin) return nullptr;
  ++dwarfs;
  return (Dwarf*)&scratch[2];
}
int stub_dwarf_end(Dwarf*) { --dwarfs; return 0; }
char const* stub_dwarf_errmsg(int) { return "dwarf error"; }
int stub_dwarf_nextcu(Dwarf*, Dwarf_Off off, Dwarf_Off* next, size_t* hs, Dwarf_Off*, uint8_t*, uint8_t*)
{
  int i = off / 100;
  if (fail == f_nextcu && i == nfn - 1) return -1;
  if (i == nfn) return 1;
  *hs = 11;
  *next = off + 100;
  return 0;
}
Dwarf_Die* stub_dwarf_offdie(Dwarf*, Dwarf_Off off, Dwarf_Die* d)
{
  sx_assert(off % 100 == 11, "wrong offset of a compilation unit");
  int i = off / 100;
  if (fns[i].no_die) return nullptr;
  memset(d, 0, sizeof *d);
  d->addr = &die_mem[i];
  return d;
}
ptrdiff_t stub_dwarf_getfuncs(Dwarf_Die* cu, int (*cb)(Dwarf_Die*, void*), void* arg, ptrdiff_t)
{
  if (fn(cu).no_funcs) return -1;
  Dwarf_Die d = *cu;
  cb(&d, arg);
  return 0;
}
Dwarf_Attribute* stub_dwarf_attr_integrate(Dwarf_Die* die, unsigned name, Dwarf_Attribute* a)
{
  Fn& f = fn(die);
  char const* v = name == DW_AT_linkage_name ? f.linkage : name == DW_AT_MIPS_linkage_name ? f.mips : nullptr;
  if (!v) return nullptr;
  memset(a, 0, sizeof *a);
  a->valp = (unsigned char*)v;
  return a;
}
char const* stub_dwarf_formstring(Dwarf_Attribute* a) { return a ? (char const*)a->valp : nullptr; }
char const* stub_dwarf_diename(Dwarf_Die* die) { return fn(die).plain; }
ptrdiff_t stub_dwarf_ranges(Dwarf_Die* die, ptrdiff_t off, Dwarf_Addr* base, Dwarf_Addr* s, Dwarf_Addr* e)
{
  Fn& f = fn(die);
  if (off == f.error_at) return -1;
  if (off == f.nr) return 0;
  *base = 0; *s = f.start[off]; *e = f.end[off];
  return off + 1;
}
Dwarf_Die* stub_dwarf_diecu(Dwarf_Die*, Dwarf_Die*, uint8_t*, uint8_t*) { return nullptr; }

// libelf
unsigned stub_elf_version(unsigned v) { return fail == f_elf_version ? EV_NONE : v; }
char const* stub_elf_errmsg(int) { return "elf error"; }
Elf* stub_elf_begin(int fd, Elf_Cmd, Elf*)
{
  sx_assert(fd == 101, "symbols are read from the wrong file");
  ++elf_begins;
  if (fail == f_elf_begin) return nullptr;
  ++elfs;
  return (Elf*)&scratch[3];
}
int stub_elf_end(Elf*) { --elfs; return 0; }
Elf_Scn* stub_elf_nextscn(Elf*, Elf_Scn* s)
{
  int i = s ? (Sym*)s - syms + 1 : 0;
  return i < nsym ? (Elf_Scn*)&syms[i] : nullptr;
}
GElf_Shdr* stub_gelf_getshdr(Elf_Scn* s, GElf_Shdr* h)
{
  Sym& y = *(Sym*)s;
  if (y.no_header) return nullptr;
  memset(h, 0, sizeof *h);
  h->sh_type = y.table;
  h->sh_entsize = y.no_entsize ? 0 : sizeof(Elf64_Sym);
  h->sh_link = 7;
  return h;
}
static Elf_Data data_of[NE + 1];
Elf_Data* stub_elf_getdata(Elf_Scn* s, Elf_Data* d)
{
  Sym& y = *(Sym*)s;
  Elf_Data& e = data_of[&y - syms];
  if (d) { sx_assert(d == &e, "data of another section"); return nullptr; }
  memset(&e, 0, sizeof e);
  e.d_size = sizeof(Elf64_Sym) + (&y - syms);   // A partial entry is no entry.
  return &e;
}
GElf_Sym* stub_gelf_getsym(Elf_Data* d, int i, GElf_Sym* out)
{
  sx_assert(i == 0, "a symbol that does not exist is read");
  Sym& y = syms[d - data_of];
  if (y.no_sym) return nullptr;
  *out = y.sym;
  return out;
}
char const* stub_elf_strptr(Elf*, size_t link, size_t off)
{
  sx_assert(link == 7, "the name of a symbol is looked up in another string table");
  return off < (size_t)nsym ? syms[off].name : nullptr;
}
}

// ---- what must be found
static bool in(Wide s, Wide e, uintptr_t a) { return (s < e) & (e <= (Wide)(uintptr_t)-1) & (s <= a) & (a < e); }
static char const* name_of(Fn const& f) { return f.linkage ? f.linkage : f.mips ? f.mips : f.plain; }
static char const* expected(uintptr_t a, bool dwarf, bool elf, int ncu)
{
  char const* got = nullptr;
  Wide size = 0;
  if (dwarf)
    for (int i = 0; i < ncu; ++i)
    {
      Fn& f = fns[i];
      if (!name_of(f) || f.no_die || f.no_funcs) continue;
      for (int k = 0; k < f.nr && k != f.error_at; ++k)
        if (in((Wide)lbase + f.start[k], (Wide)lbase + f.end[k], a) && (!got || f.end[k] - f.start[k] < size)) { got = name_of(f); size = f.end[k] - f.start[k]; }
    }
  if (got) { sx_cover("debug information"); return got; }
  if (elf)
    for (int i = 0; i < nsym; ++i)
    {
      Sym& y = syms[i];
      if (y.no_header || y.no_entsize || y.no_sym || (y.table != SHT_SYMTAB && y.table != SHT_DYNSYM) || !y.name || !*y.name) continue;
      if ((y.sym.st_shndx == SHN_UNDEF) | (((y.sym.st_info & 15) != STT_FUNC) & ((y.sym.st_info & 15) != STT_GNU_IFUNC))) continue;
      if (in((Wide)lbase + y.sym.st_value, (Wide)lbase + y.sym.st_value + y.sym.st_size, a) && (!got || y.sym.st_size < size)) { got = y.name; size = y.sym.st_size; }
    }
  if (got) { sx_cover("symbol table"); return got; }
  sx_cover("unknown");
  return unknown_function_c;
}
static void check(uintptr_t a, char const* want)
{
  char const* got = pc_mangled_function_name((void const*)a);
  sx_assert(strcmp(got, want) == 0, "an address belongs to another function");
  sx_observe(got, strlen(got), "function");
  Location l((void const*)a);
  sx_assert(l.mangled_function_name() == got, "Location gives another name");
  sx_assert(l.object_file() && strcmp(l.object_file()->filepath(), file) == 0, "Location gives another object file");
  sx_assert(!l.is_known(), "a location without line is known");
  sx_assert(dwfls == 0 && elfs == 0, "a handle of libelf or libdwfl is left open");
  sx_assert(dwarf_begins <= 1 && elf_begins <= 1, "symbols are loaded more than once");
  sx_assert(fds == dwarfs, "a file is left open");
}
static void setup()
{
  Debug(main_reached());
  dwarf_begins = 0;
}
static char const* const dnames[] = { "d0", "d1", "d2" };
static char const* const mnames[] = { "m0", "m1", "m2" };
static char const* const pnames[] = { "p0", "p1", "p2" };
static char const* const enames[] = { "e0", "e1", "e2" };

// Any address ranges.
extern "C" void h_symbols()
{
  setup();
  debug_file = 1;
  nfn = NF; nsym = NE;
  for (int i = 0; i < nfn; ++i)
  {
    Fn& f = fns[i];
    f.linkage = dnames[i];
    f.nr = NR; f.error_at = -1;
    for (int k = 0; k < NR; ++k) { f.start[k] = sx_any<TT>("start"); f.end[k] = sx_any<TT>("end"); }
  }
  for (int i = 0; i < nsym; ++i)
  {
    Sym& y = syms[i];
    y.name = enames[i];
    y.table = i ? SHT_DYNSYM : SHT_SYMTAB;
    y.sym.st_name = i;
    y.sym.st_value = sx_any<TT>("value");
    y.sym.st_size = sx_any<TT>("size");
    y.sym.st_info = sx_any<unsigned char>("info");
    y.sym.st_shndx = sx_any<unsigned short>("section");
  }
  uintptr_t a = lbase + sx_any<unsigned short>("address");
  check(a, expected(a, true, true, nfn));
  sx_cover("end");
}

// Any names, kinds of tables and failures.
extern "C" void h_sources()
{
  setup();
  nfn = NF; nsym = NE;
  int special = sx_choice(3, "what");
  debug_file = special == 0 ? sx_choice(4, "file") : 1;
  fail = special == 0 ? sx_choice(nfail, "fail") : none;
  int f0 = fail;
  for (int i = 0; i < nfn; ++i)
  {
    Fn& f = fns[i];
    f.nr = 2; f.error_at = -1;
    int k = special == 1 ? sx_choice(8, "names") : 1;
    if (k & 1) f.linkage = dnames[i];
    if (k & 2) f.mips = mnames[i];
    if (k & 4) f.plain = pnames[i];
    for (int j = 0; j < 2; ++j) { f.start[j] = 0x1000 * (2 * i + j); f.end[j] = f.start[j] + 0x800; }
    if (special == 1)
      switch (sx_choice(6, "error"))
      {
        case 1: f.error_at = 0; break;
        case 2: f.error_at = 1; break;
        case 3: f.no_die = true; break;
        case 4: f.no_funcs = true; break;
        case 5: f.end[0] = f.start[0]; break;
      }
  }
  for (int i = 0; i < nsym; ++i)
  {
    Sym& y = syms[i];
    y.name = enames[i];
    y.table = i ? SHT_DYNSYM : SHT_SYMTAB;
    y.sym.st_name = i;
    y.sym.st_value = 0x400 + 0x1000 * i;
    y.sym.st_size = 0x1000;
    y.sym.st_info = STT_FUNC | STB_GLOBAL << 4;
    y.sym.st_shndx = 1;
    if (special == 2)
      switch (sx_choice(8, "symbol"))
      {
        case 1: y.no_header = true; break;
        case 2: y.no_entsize = true; break;
        case 3: y.no_sym = true; break;
        case 4: y.name = nullptr; break;
        case 5: y.name = ""; break;
        case 6: y.table = sx_any<unsigned>("table"); break;
        case 7: y.sym.st_name = 99; y.name = nullptr; break;
      }
  }
  bool dwarf = f0 != f_open_dwarf && f0 != f_dwarf_begin;
  bool elf = f0 != f_elf_version && f0 != f_open_elf && f0 != f_elf_begin;
  uintptr_t a = lbase + 0x400 * sx_choice(4 * 2 * NF + 1, "at") + sx_any<unsigned char>("offset");
  check(a, expected(a, dwarf, elf, f0 == f_nextcu ? nfn - 1 : nfn));
  uintptr_t b = lbase + 0x400 * sx_choice(4, "at");
  check(b, expected(b, dwarf, elf, f0 == f_nextcu ? nfn - 1 : nfn));
  check(a, expected(a, dwarf, elf, f0 == f_nextcu ? nfn - 1 : nfn));
  sx_cover("end");
}

// A library that is closed again, and maybe opened once more.
extern "C" void h_unload()
{
  setup();
  file = lib; lbase = 0x200000;
  nfn = 1; nsym = 1;
  fns[0].linkage = dnames[0]; fns[0].nr = 1; fns[0].error_at = -1; fns[0].start[0] = 0x1000; fns[0].end[0] = 0x1800;
  syms[0].name = enames[0]; syms[0].table = SHT_SYMTAB; syms[0].sym.st_value = 0x1400; syms[0].sym.st_size = 0x1000; syms[0].sym.st_info = STT_FUNC; syms[0].sym.st_shndx = 1;
  for (int k = 0; k < 2; ++k)
  {
    debug_file = sx_choice(4, "file");
    int f0 = fail = sx_choice(nfail, "fail");
    bool dwarf = f0 != f_open_dwarf && f0 != f_dwarf_begin;
    bool elf = f0 != f_elf_version && f0 != f_open_elf && f0 != f_elf_begin;
    void* h = dlopen("x.so", RTLD_NOW);
    int n = sx_choice(LOOKUPS + 1, "lookups");
    for (int i = 0; i < n; ++i)
    {
      uintptr_t a = lbase + 0x400 * sx_choice(10, "at");
      check(a, expected(a, dwarf, elf, f0 == f_nextcu ? nfn - 1 : nfn));
    }
    sx_assert(dlclose(h) == 0, "dlclose fails");
    sx_assert(fds == 0 && dwarfs == 0 && elfs == 0 && dwfls == 0, "something of a library that is closed is left open");
    dwarf_begins = elf_begins = 0;
  }
  sx_cover("end");
}

// Threads that look up addresses for the first time.
static void* thread(void* p)
{
  uintptr_t a = lbase + (uintptr_t)p;
  char const* got = pc_mangled_function_name((void const*)a);
  char const* want = expected(a, true, true, nfn);
  sx_assert(strcmp(got, want) == 0, "an address belongs to another function");
  return nullptr;
}
extern "C" void h_two()
{
  setup();
  nfn = 1; nsym = 1;
  fns[0].linkage = dnames[0]; fns[0].nr = 1; fns[0].error_at = -1; fns[0].start[0] = 0x1000; fns[0].end[0] = 0x1800;
  debug_file = 1;
  syms[0].name = enames[0]; syms[0].table = SHT_SYMTAB; syms[0].sym.st_value = 0x1400; syms[0].sym.st_size = 0x1000; syms[0].sym.st_info = STT_FUNC; syms[0].sym.st_shndx = 1;
  static uintptr_t const at[] = { 0x1500, 0x1900, 0x3000 };
  int i = sx_choice(3, "at"), j = sx_choice(3, "at");
  int a = sx_thread_create(thread, (void*)at[i]), b = sx_thread_create(thread, (void*)at[j]);
  sx_thread_join(a); sx_thread_join(b);
  sx_assert(dwfls == 0 && elfs == 0, "a handle of libelf or libdwfl is left open");
  sx_assert(dwarf_begins == 1 && elf_begins <= 1, "symbols are loaded more than once");
  sx_assert(fds == dwarfs, "a file is left open");
  sx_cover("end");
}
