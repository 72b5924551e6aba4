// What a Location tells about an address, what is printed, and histories of Location objects.
// libdw, libdwfl and libelf, and the loader, are stand-ins that serve the data below.
#define NO_ENV_STUBS
#include "dbg.h"
#include "cwd_dwarf.h"
#include <dwarf.h>
#include <elf.h>
#include <elfutils/libdw.h>
#include <elfutils/libdwfl.h>
#include <gelf.h>
#include <link.h>
#include <pthread.h>
#include <string>
#ifndef NODES
#define NODES 3                         // DIEs inside the function.
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef PL
#define PL 3                            // Length of the path of a source file.
#endif

// ---- the object file: one function, with DIEs inside.
static uintptr_t const lbase = 0x100000;
static char const* const exe = "/bin/main";
static uintptr_t const fbegin = 0x1000, fend = 0x2000;
struct Node
{
  int tag, parent;
  bool covers;                          // The looked up address.
  char const* linkage; char const* plain;
};
static Node nodes[NODES + 2];           // The first is the function; the last is the compilation unit.
static int nnodes;
static bool scopes_fail, no_cu;
static int scratch[8];
struct Line { bool found, no_line, no_file; unsigned line; char path[16]; };
static Line lines[16];                  // By offset from the address that is looked up.
static uintptr_t pc0 = 0x1100;          // (Relative to the load base.)
static bool other_half;                 // Addresses from 0x1800 belong to a function without DIEs.
static int lbytes;

static Node& nd(Dwarf_Die* d) { Node* n = (Node*)d->addr; if (n < nodes || n > &nodes[NODES + 1]) sx_fail("a wrong DIE is used"); return *n; }
static Node& cu() { return nodes[NODES + 1]; }
static void set(Dwarf_Die* d, Node* n) { memset(d, 0, sizeof *d); d->addr = n; }
static void during_initialization();
extern "C" {
int stub_pthread_once(pthread_once_t* c, void (*f)(void)) { if (!*c) { f(); *c = 2; } return 0; }
char* stub_getenv(char const*) { return nullptr; }
int stub_getrlimit(int, struct rlimit* r) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
int stub_setrlimit(int, struct rlimit const*) { return 0; }
ssize_t stub_readlink(char const*, char* buf, size_t) { memcpy(buf, exe, strlen(exe)); return strlen(exe); }
int stub_dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data)
{
  during_initialization();
  ElfW(Phdr) ph;
  memset(&ph, 0, sizeof ph);
  ph.p_type = PT_LOAD; ph.p_vaddr = 0; ph.p_memsz = 0x10000; ph.p_flags = PF_R | PF_X;
  struct dl_phdr_info info;
  memset(&info, 0, sizeof info);
  info.dlpi_addr = lbase; info.dlpi_name = ""; info.dlpi_phdr = &ph; info.dlpi_phnum = 1;
  return cb(&info, sizeof info, data);
}
int stub_open(char const*, int, ...) { return 101; }
int stub_close(int) { return 0; }
Dwfl* stub_dwfl_begin(Dwfl_Callbacks const*) { return nullptr; }
char const* stub_dwfl_errmsg(int) { return "dwfl error"; }
Dwarf* stub_dwarf_begin(int, Dwarf_Cmd) { return (Dwarf*)&scratch[2]; }
int stub_dwarf_end(Dwarf*) { return 0; }
char const* stub_dwarf_errmsg(int) { return "dwarf error"; }
int stub_dwarf_nextcu(Dwarf*, Dwarf_Off off, Dwarf_Off* next, size_t* hs, Dwarf_Off*, uint8_t*, uint8_t*)
{
  if (off) return 1;
  *hs = 11; *next = 100;
  return 0;
}
Dwarf_Die* stub_dwarf_offdie(Dwarf*, Dwarf_Off, Dwarf_Die* d) { set(d, &cu()); return d; }
ptrdiff_t stub_dwarf_getfuncs(Dwarf_Die*, int (*cb)(Dwarf_Die*, void*), void* arg, ptrdiff_t)
{
  Dwarf_Die d;
  set(&d, &nodes[0]);
  cb(&d, arg);
  return 0;
}
Dwarf_Attribute* stub_dwarf_attr_integrate(Dwarf_Die* die, unsigned name, Dwarf_Attribute* a)
{
  char const* v = name == DW_AT_linkage_name ? nd(die).linkage : nullptr;
  if (!v) return nullptr;
  memset(a, 0, sizeof *a);
  a->valp = (unsigned char*)v;
  return a;
}
char const* stub_dwarf_formstring(Dwarf_Attribute* a) { return a ? (char const*)a->valp : nullptr; }
char const* stub_dwarf_diename(Dwarf_Die* die) { return nd(die).plain; }
ptrdiff_t stub_dwarf_ranges(Dwarf_Die* die, ptrdiff_t off, Dwarf_Addr* base, Dwarf_Addr* s, Dwarf_Addr* e)
{
  sx_assert(&nd(die) == nodes, "the ranges of another DIE");
  if (off) return 0;
  *base = 0; *s = fbegin; *e = other_half ? 0x1800 : fend;
  return 1;
}
Dwarf_Die* stub_dwarf_diecu(Dwarf_Die* die, Dwarf_Die* r, uint8_t*, uint8_t*)
{
  sx_assert(&nd(die) == nodes, "the compilation unit of another DIE");
  if (no_cu) return nullptr;
  set(r, &cu());
  return r;
}
int stub_dwarf_tag(Dwarf_Die* die) { return nd(die).tag; }
int stub_dwarf_haspc(Dwarf_Die* die, Dwarf_Addr pc)
{
  return nd(die).covers && pc >= pc0 && pc <= pc0 + 15;
}
static Node* next(int parent, int after)
{
  for (int i = after + 1; i < nnodes; ++i) if (nodes[i].parent == parent) return &nodes[i];
  return nullptr;
}
int stub_dwarf_child(Dwarf_Die* die, Dwarf_Die* r)
{
  Node* n = next(&nd(die) - nodes, 0);
  if (!n) return 1;
  set(r, n);
  return 0;
}
int stub_dwarf_siblingof(Dwarf_Die* die, Dwarf_Die* r)
{
  Node* n = next(nd(die).parent, &nd(die) - nodes);
  if (!n) return 1;
  set(r, n);
  return 0;
}
int stub_dwarf_getscopes(Dwarf_Die* die, Dwarf_Addr pc, Dwarf_Die** scopes)
{
  sx_assert(&nd(die) == &cu(), "the scopes in another compilation unit");
  if (scopes_fail) return -1;
  if (pc < pc0 || pc > pc0 + 15) return 0;
  int chain[NODES + 2], n = 0;
  for (int i = 0; i != -1;)
  {
    chain[n++] = i;
    int k = -1;
    for (int j = i + 1; j < nnodes; ++j) if (nodes[j].parent == i && nodes[j].covers) k = j;
    i = k;
  }
  *scopes = (Dwarf_Die*)malloc((n + 1) * sizeof(Dwarf_Die));
  int m = 0;
  for (int i = n - 1; i >= 0; --i)
  {
    set(&(*scopes)[m++], &nodes[chain[i]]);
    if (nodes[chain[i]].tag == DW_TAG_inlined_subroutine) break;    // What follows are the scopes of its definition.
  }
  set(&(*scopes)[m++], &cu());
  return m;
}
Dwarf_Line* stub_dwarf_getsrc_die(Dwarf_Die* die, Dwarf_Addr pc)
{
  sx_assert(&nd(die) == &cu(), "the lines of another compilation unit");
  if (pc < pc0 || pc >= pc0 + 16 || !lines[pc - pc0].found) return nullptr;
  return (Dwarf_Line*)&lines[pc - pc0];
}
int stub_dwarf_lineno(Dwarf_Line* l, int* n)
{
  Line& x = *(Line*)l;
  if (x.no_line) return -1;
  *n = x.line;
  return 0;
}
char const* stub_dwarf_linesrc(Dwarf_Line* l, Dwarf_Word*, Dwarf_Word*) { Line& x = *(Line*)l; return x.no_file ? nullptr : x.path; }
// The symbol table: nothing but the function without DIEs.
unsigned stub_elf_version(unsigned v) { return v; }
Elf* stub_elf_begin(int, Elf_Cmd, Elf*) { return (Elf*)&scratch[3]; }
int stub_elf_end(Elf*) { return 0; }
Elf_Scn* stub_elf_nextscn(Elf*, Elf_Scn* s) { return s || !other_half ? nullptr : (Elf_Scn*)&scratch[4]; }
GElf_Shdr* stub_gelf_getshdr(Elf_Scn*, GElf_Shdr* h) { memset(h, 0, sizeof *h); h->sh_type = SHT_SYMTAB; h->sh_entsize = sizeof(Elf64_Sym); return h; }
static Elf_Data elf_data;
Elf_Data* stub_elf_getdata(Elf_Scn*, Elf_Data* d) { if (d) return nullptr; memset(&elf_data, 0, sizeof elf_data); elf_data.d_size = sizeof(Elf64_Sym); return &elf_data; }
GElf_Sym* stub_gelf_getsym(Elf_Data*, int, GElf_Sym* y)
{
  memset(y, 0, sizeof *y);
  y->st_value = 0x1800; y->st_size = 0x100; y->st_info = STT_FUNC; y->st_shndx = 1;
  return y;
}
char const* stub_elf_strptr(Elf*, size_t, size_t) { return "elf"; }
// The memory of the paths.
void* stub__Znam(size_t n) { ++lbytes; return malloc(n); }
void stub__ZdaPv(void* p) { if (p) --lbytes; free(p); }
void stub__ZdaPvm(void* p, size_t) { if (p) --lbytes; free(p); }
}

static void start()
{
  Debug(main_reached());
  nodes[0].tag = DW_TAG_subprogram; nodes[0].parent = -1; nodes[0].covers = true; nodes[0].linkage = "f0";
  cu().tag = DW_TAG_compile_unit; cu().parent = -1;
  nnodes = 1;
}

// The innermost inlined function with a name.
static char const* innermost(int i)
{
  for (int j = i + 1; j < nnodes; ++j)
  {
    if (nodes[j].parent != i) continue;
    if (nodes[j].tag == DW_TAG_inlined_subroutine && !nodes[j].covers) continue;
    char const* r = innermost(j);
    if (r) return r;
    if (nodes[j].tag == DW_TAG_inlined_subroutine) { r = nodes[j].linkage ? nodes[j].linkage : nodes[j].plain; if (r) return r; }
  }
  return nullptr;
}
static bool covered(int i)                      // The address is in i or in something in i.
{
  if (nodes[i].covers) return true;
  for (int j = i + 1; j < nnodes; ++j) if (nodes[j].parent == i && covered(j)) return true;
  return false;
}

// Which function.
extern "C" void h_inline()
{
  start();
  static int const tags[] = { DW_TAG_inlined_subroutine, DW_TAG_lexical_block, DW_TAG_subprogram, DW_TAG_variable };
  static char const* const names[] = { "", "i1", "i2", "i3", "i4" };
  static char const* const plain[] = { "", "p1", "p2", "p3", "p4" };
  nnodes = 1 + NODES;
  for (int i = 1; i <= NODES; ++i)
  {
    Node& n = nodes[i];
    n.parent = i == 1 ? 0 : sx_choice(i, "parent");
    n.tag = tags[sx_choice(4, "tag")];
    n.covers = n.tag != DW_TAG_variable && sx_choice(2, "covers");
    int k = n.tag == DW_TAG_inlined_subroutine ? sx_choice(4, "name") : 1;
    n.linkage = k & 1 ? names[i] : nullptr;
    n.plain = k & 2 ? plain[i] : nullptr;
    Node& p = nodes[n.parent];
    sx_assume(p.tag != DW_TAG_variable);
    // An address inside a DIE is inside what that is in, except that a subprogram can be without addresses.
    if (n.covers) sx_assume(p.covers || p.tag == DW_TAG_subprogram);
    if (n.tag == DW_TAG_subprogram) for (int a = n.parent; a; a = nodes[a].parent) sx_assume(nodes[a].tag != DW_TAG_inlined_subroutine);
  }
  // An address is in one of several siblings.
  for (int i = 0; i < nnodes; ++i)
  {
    int k = 0;
    for (int j = i + 1; j < nnodes; ++j) if (nodes[j].parent == i) k += covered(j);
    sx_assume(k <= 1);
    if (!nodes[i].covers && nodes[i].parent > 0 && covered(i)) sx_assume(nodes[nodes[i].parent].covers);
  }
  scopes_fail = sx_choice(2, "fail");
  Location l((void const*)(lbase + pc0));
  char const* want = innermost(0);
  if (!want) { want = "f0"; sx_cover("physical"); } else sx_cover("inlined");
  sx_assert(strcmp(l.mangled_function_name(), want) == 0, "wrong function");
  sx_observe(l.mangled_function_name(), strlen(l.mangled_function_name()), "function");
  sx_assert(!l.is_known() && l.object_file() && strcmp(l.object_file()->filepath(), exe) == 0, "wrong object file");
  {
    LEAKS_FROM
    { Location again((void const*)(lbase + pc0)); again.clear(); again.pc_location((void const*)(lbase + pc0)); }
    LEAKS_TO
  }
  sx_cover("end");
}

// ---- the text of a location
static void number(Text& t, unsigned long v, unsigned b)
{
  char d[24];
  int n = 0;
  do { d[n++] = "0123456789abcdef"[v % b]; v /= b; } while (v);
  while (n) t.put(d[--n]);
}
static void expect(Text& t, bool known, char const* path, unsigned line, char const* func, bool obj, uintptr_t pc, int fmt)
{
  if (known)
  {
    if (fmt & show_objectfile) { t.put("main"); t.put(':'); }
    if (fmt & show_function) { t.put(func); t.put(':'); }
    char const* file = path;
    if (!(fmt & show_path)) for (char const* p = path; *p; ++p) if (*p == '/') file = p + 1;
    t.put(file); t.put(':'); number(t, line, 10);
  }
  else if (obj) { t.put("main:"); t.put(func); }
  else
  {
    t.put("<unknown object file> (at ");
    if (pc) { t.put("0x"); number(t, pc, 16); } else t.put('0');
    t.put(')');
  }
}
static Cap out;
static void print(Location const& l) { out.clear(); out.os << l; }

// Which file and line.
extern "C" void h_line()
{
  start();
  out.os.flush();
  Line& x = lines[0];
  int k = sx_choice(5, "line");
  x.found = k != 1; x.no_line = k == 2 || k == 4; x.no_file = k == 3 || k == 4;
  static unsigned const some[] = { 1, 9, 10, 123456789, 2147483647 };
  int zero = k == 0 ? sx_choice(2, "zero") : 0;
  x.line = zero ? 0 : some[sx_choice(5, "number")];
  int len = sx_choice(PL + 1, "len");
  sx_symbolic(x.path, len, "path");
  for (int i = 0; i < len; ++i) sx_assume(x.path[i] != 0);
  no_cu = sx_choice(2, "no_cu");
  unsigned want = x.line;
  if (zero)
  {
    // Compiled with clang, the line of a next instruction is taken if there is none for this one.
    unsigned n = 0;
    bool stop = false;
    for (int i = 1; i < 16; ++i)
    {
      Line& y = lines[i];
      if (i < 4 || i > 8) { y = x; y.line = 77 + i; continue; }
      int kind = i < 7 ? sx_choice(4, "next") : 0;
      y = x;
      if (kind == 1) y.found = false; else if (kind == 2) y.no_line = true;
      y.line = kind == 3 ? 5 + i : 0;
      if (kind == 1 || kind == 2) stop = true;
      if (!stop && !n) n = y.line;
    }
#ifdef __clang__
    want = n;
#endif
  }
  int fmt = sx_choice(8, "format");
  sx_assert(location_format(fmt) == 0, "the format was not what it must be");
  Location l((void const*)(lbase + pc0));
  bool known = x.found && !x.no_line && !x.no_file && !no_cu;
  sx_assert(l.is_known() == known, "known");
  sx_assert(strcmp(l.mangled_function_name(), "f0") == 0, "wrong function");
  if (known)
  {
    sx_assert(l.line() == want, "wrong line");
    int slash = 0;
    for (int i = 0; i < len; ++i) if (x.path[i] == '/') slash = i + 1;
    std::string f = l.file();
    sx_assert(same(f.data(), f.size(), x.path + slash, len - slash), "wrong file");
    sx_assert(l.filename_length() == (size_t)(len - slash) && l.filepath_length() == (size_t)len, "wrong length");
    sx_cover("known");
  }
  else
  {
    sx_assert(l.filename_length() == 0 && l.filepath_length() == 0, "an unknown location has a file");
    sx_cover("not known");
  }
  Text t;
  expect(t, known, x.path, want, "f0", true, 0, fmt);
  print(l);
  sx_assert(same(out, t), "wrong text");
  {
    LEAKS_FROM
    { Location again((void const*)(lbase + pc0)); print(again); Location copy(again); std::string f = known ? copy.file() : std::string(); }
    LEAKS_TO
  }
  sx_observe(out.data, out.n, "text");
  sx_assert(location_format(0) == fmt, "the format was not what it must be");
  sx_cover("end");
}

// ---- histories
enum Kind { uninitialized, cleared, in_file, in_file2, no_lines, elf_only, no_function, no_object };
static uintptr_t const where[] = { 0, 0, 0x1100, 0x1101, 0x1102, 0x1850, 0x3000, 0x7000000 };
struct Ref { Kind kind; int path; bool owner, locked, relocked; };
static Ref ref[3];
static int npaths;
static bool alive(int path) { for (Ref& r : ref) if (r.path == path && r.owner && path) return true; return false; }
static bool isknown(Ref const& r) { return r.kind == in_file || r.kind == in_file2; }
alignas(Location) static char mem[3][sizeof(Location)];
static Location& L(int i) { return *(Location*)mem[i]; }
static int base;
static void check(int i)
{
  Ref& r = ref[i];
  Location& l = L(i);
  bool known = isknown(r);
  char const* func = r.kind == uninitialized ? "<uninitialized Location>" : r.kind == cleared ? "<cleared location ct>" : r.kind == elf_only ? "elf" : r.kind < elf_only ? "f0" : "<unknown function>";
  sx_assert(l.is_known() == known, "known");
  sx_assert(strcmp(l.mangled_function_name(), func) == 0, "wrong function");
  bool obj = r.kind >= in_file && r.kind != no_object;
  sx_assert(obj ? l.object_file() != nullptr && strcmp(l.object_file()->filename(), "main") == 0 : l.object_file() == nullptr, "wrong object file");
  uintptr_t pc = r.kind == no_object ? lbase + where[no_object] : 0;
  sx_assert(l.unknown_pc() == (void const*)pc && !l.initialization_delayed(), "wrong address");
  if (known)
  {
    sx_assert(l.line() == (r.kind == in_file ? 11u : 22u), "wrong line");
    if (!alive(r.path)) return;
    char const* f = r.kind == in_file ? "a.cc" : "b.cc";
    sx_assert(l.file() == f && l.filename_length() == 4 && l.filepath_length() == (r.kind == in_file ? 6u : 4u), "wrong file");
  }
  print(l);
  Text t;
  expect(t, known, r.kind == in_file ? "s/a.cc" : "b.cc", r.kind == in_file ? 11 : 22, func, obj, pc, 1);
  sx_assert(same(out, t), "wrong text");
}
static void look(Ref& r)
{
  bool keep = !isknown(r) && r.owner;
  r.kind = (Kind)(in_file + sx_choice(6, "where"));
  if (!keep) { r.path = 0; r.owner = false; }
  if (r.kind <= no_lines) { r.path = ++npaths; r.owner = true; }
}
static void copy(Ref& d, Ref& s)
{
  sx_assume(!s.relocked);
  // The path of a location without line number is kept until another path replaces it.
  bool keep = !isknown(d) && d.owner;
  d.kind = s.kind;
  if (!isknown(s) && keep) return;
  d.path = 0; d.owner = false;
  if (!isknown(s)) return;
  d.path = s.path;
  if (!s.locked) { d.owner = s.owner; s.owner = false; }
}
extern "C" void h_copies()
{
  start();
  other_half = true;
  for (int i = 0; i < 3; ++i) { lines[i].found = true; strcpy(lines[i].path, i == 0 ? "s/a.cc" : i == 1 ? "b.cc" : "c"); lines[i].line = 11 * (i + 1); }
  lines[2].no_line = true;
  location_format(show_path);
  { Location warm_up((void const*)(lbase + where[no_function])); print(warm_up); }
  base = lbytes;
  int const n = 3;
  for (int i = 0; i < n; ++i) { new (mem[i]) Location; ref[i] = Ref(); }
  for (int k = 0; k < OPS; ++k)
  {
    int i = sx_choice(n, "which");
    Ref& r = ref[i];
    switch (sx_choice(6, "op"))
    {
      case 0:
        L(i).~Location();
        r = Ref();
        look(r);
        new (mem[i]) Location((void const*)(lbase + where[r.kind]));
        break;
      case 1:
      {
        if (r.locked) r.relocked = true;
        look(r);
        L(i).pc_location((void const*)(lbase + where[r.kind]));
        break;
      }
      case 2:
      {
        int j = sx_choice(n, "from");
        if (j == i) { L(i) = *&L(j); break; }
        sx_assume(!r.locked);
        copy(r, ref[j]);
        L(i) = L(j);
        break;
      }
      case 3:
      {
        int j = sx_choice(n, "from");
        sx_assume(i != j);
        L(i).~Location();
        r = Ref();
        copy(r, ref[j]);
        new (mem[i]) Location(L(j));
        break;
      }
      case 4:
        if (r.locked) r.relocked = true;
        L(i).clear();
        if (isknown(r)) { r.path = 0; r.owner = false; }
        r.kind = cleared;
        break;
      case 5:
        sx_assume(!isknown(r) || r.owner);
        L(i).lock_ownership();
        if (isknown(r)) r.locked = true;
        break;
    }
    for (int j = 0; j < n; ++j) check(j);
    int paths = 0;
    for (int j = 0; j < n; ++j) paths += ref[j].owner;
    sx_assert(lbytes - base <= paths, "the path of a location that is gone is not freed");
  }
  for (int i = 0; i < n; ++i) L(i).~Location();
  sx_assert(lbytes == base, "a path is not freed");
  sx_cover("end");
}

// ---- a location that was looked up while libcwd was being initialized: it only remembers the address
alignas(Location) static char early_mem[sizeof(Location)];
static int early_at = -1;
static void during_initialization()
{
  if (early_at >= 0) return;
#ifdef DELAYED
  early_at = sx_choice(4, "where");
#else
  early_at = 0;
#endif
  new (early_mem) Location((void const*)(lbase + where[in_file + (early_at < 2 ? early_at : early_at + 2)]));
}
static void delayed(Location& l, uintptr_t pc)
{
  sx_assert(!l.is_known() && l.initialization_delayed() && l.unknown_pc() == (void const*)pc && !l.object_file(), "the address is not remembered");
  sx_assert(strcmp(l.mangled_function_name(), "<pre libcwd initialization>") == 0, "wrong function");
  sx_assert(l.filename_length() == 0 && l.filepath_length() == 0, "an unknown location has a file");
  print(l);
  Text t;
  expect(t, false, "", 0, "", false, pc, 1);
  sx_assert(same(out, t), "wrong text");
}
extern "C" void h_delayed()
{
  start();
  other_half = true;
  for (int i = 0; i < 2; ++i) { lines[i].found = true; strcpy(lines[i].path, i == 0 ? "s/a.cc" : "b.cc"); lines[i].line = 11 * (i + 1); }
  location_format(show_path);
  { Location warm_up((void const*)(lbase + where[no_function])); print(warm_up); }
  base = lbytes;
  Kind kind = (Kind)(in_file + (early_at < 2 ? early_at : early_at + 2));
  uintptr_t pc = lbase + where[kind];
  Location& e = *(Location*)early_mem;
  delayed(e, pc);
  // Copy it, over something or not.
  Ref& r = ref[0];
  switch (sx_choice(3, "copy"))
  {
    case 0: new (mem[0]) Location(e); break;
    case 1: new (mem[0]) Location; L(0) = e; break;
    case 2: look(r); new (mem[0]) Location((void const*)(lbase + where[r.kind])); L(0) = e; if (isknown(r)) { r.path = 0; r.owner = false; } break;
  }
  delayed(L(0), pc);
  delayed(e, pc);
  if (sx_choice(2, "clear"))
  {
    L(0).clear();
    r.kind = cleared;
    check(0);
    sx_cover("cleared");
  }
  // Look it up now.
  L(0).pc_location(sx_choice(2, "of_copy") && r.kind != cleared ? L(0).unknown_pc() : e.unknown_pc());
  bool keep = r.owner && kind > no_lines;
  r.kind = kind;
  if (kind <= no_lines) { r.path = ++npaths; r.owner = true; } else if (!keep) { r.path = 0; r.owner = false; }
  check(0);
  delayed(e, pc);
  // And the other way around.
  if (sx_choice(2, "assign")) { L(0) = e; delayed(L(0), pc); }
  L(0).~Location();
  e = Location();
  sx_assert(!e.initialization_delayed() && !e.unknown_pc(), "the address is still there");
  e.~Location();
  sx_assert(lbytes == base, "a path is not freed");
  sx_cover("end");
}
