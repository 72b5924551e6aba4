// What libcwd prints by itself: nothing before main with LIBCWD_NO_STARTUP_MSGS, a warning about a core size that is limited,
// what it does with shared libraries with LIBCWD_PRINT_LOADING. The states of libcw_do and of the channels are not changed by it.
// The process (its environment and limits) and the dynamic loader are stand-ins.
#define NO_ENV_STUBS
#include "dbg.h"
#include "cwd_dwarf.h"
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#ifndef OPS
#define OPS 2
#endif

static char const exe[] = "/bin/main", lib[] = "/lib/plugin.so", startup[] = "/lib/startup.so";
static int no_msgs, print_loading;      // Not set, empty, or set to something.
static bool get_fails, set_fails;
static rlim_t soft, hard;
static int limit_set;
static bool limit_raised;
static int loaded;                      // References to lib.
static bool started;
static int asked;
alignas(Cap) static unsigned char st_err[sizeof(Cap)];
static Cap& err() { return *(Cap*)st_err; }
static char const* const values[] = { nullptr, "", "1" };

extern "C" {
int stub_pthread_once(pthread_once_t* c, void (*f)(void)) { if (!*c) { f(); *c = 2; } return 0; }
char* stub_getenv(char const* n)
{
  if (strcmp(n, "LIBCWD_NO_STARTUP_MSGS") == 0) { ++asked; return (char*)values[no_msgs]; }
  if (strcmp(n, "LIBCWD_PRINT_LOADING") == 0) { ++asked; return (char*)values[print_loading]; }
  return nullptr;
}
int stub_getrlimit(int what, struct rlimit* r)
{
  sx_assert(what == RLIMIT_CORE, "a wrong limit is asked for");
  if (get_fails) { errno = EINVAL; return -1; }
  r->rlim_cur = soft; r->rlim_max = hard;
  return 0;
}
int stub_setrlimit(int what, struct rlimit const* r)
{
  sx_assert(what == RLIMIT_CORE, "a wrong limit is changed");
  ++limit_set;
  limit_raised = r->rlim_cur == hard && r->rlim_max == hard;
  if (set_fails) { errno = EPERM; return -1; }
  return 0;
}
ssize_t stub_readlink(char const*, char* buf, size_t) { memcpy(buf, exe, strlen(exe)); return strlen(exe); }
static int one(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data, char const* name, uintptr_t base)
{
  ElfW(Phdr) ph;
  memset(&ph, 0, sizeof ph);
  ph.p_type = PT_LOAD; ph.p_vaddr = 0; ph.p_memsz = 0x10000; ph.p_flags = PF_R | PF_X;
  struct dl_phdr_info info;
  memset(&info, 0, sizeof info);
  info.dlpi_addr = base; info.dlpi_name = name; info.dlpi_phdr = &ph; info.dlpi_phnum = 1;
  return cb(&info, sizeof info, data);
}
int stub_dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data)
{
  int r = one(cb, data, "", 0x100000);
  if (!r) r = one(cb, data, startup, 0x200000);
  if (!r && loaded) r = one(cb, data, lib, 0x300000);
  return r;
}
static struct link_map map;
static void* fake_dlopen(char const* name, int) { if (!name) return nullptr; ++loaded; map.l_addr = 0x300000; return &map; }
static int fake_dlclose(void*) { --loaded; return 0; }
void* stub_dlsym(void*, char const* n) { return strcmp(n, "dlopen") == 0 ? (void*)&fake_dlopen : (void*)&fake_dlclose; }
int stub_dlinfo(void*, int, void* p) { *(struct link_map**)p = &map; return 0; }
int stub_open(char const*, int, ...) { errno = ENOENT; return -1; }

char* stub_strerror_r(int, char* buf, size_t) { strcpy(buf, "reason"); return buf; }
void stub_abort() { sx_fail("abort"); }
}

// Whether some line of the output has this text; every line must have the label.
static bool has(char const* text)
{
  Cap& c = err();
  int n = strlen(text);
  for (int i = 0; i + n <= c.n; ++i) if (memcmp(c.data + i, text, n) == 0) return true;
  return false;
}
static void check_label(int from, char const* label)
{
  Cap& c = err();
  sx_assert(c.n == 0 || c.data[c.n - 1] == '\n', "a line is not finished");
  for (int i = from; i < c.n;)
  {
    sx_assert(i + 8 <= c.n && memcmp(c.data + i, label, 8) == 0, "an unexpected line is printed");
    while (c.data[i++] != '\n') ;
  }
}
static void fatal_exit(char const* why)
{
  sx_assert(get_fails || set_fails, "the program is terminated");
  sx_assert(has(why), "the reason is not told");
  sx_cover("fatal");
  sx_done();
}
extern "C" void stub__Exit(int code)
{
  sx_assert(code == 180, "wrong exit code");
  sx_assert(!started, "the program is terminated");
  fatal_exit(get_fails ? "getrlimit(RLIMIT_CORE, &corelim)" : "unlimit core size failed");
  for (;;) ;
}

struct Before { Before(); };
Before::Before()
{
  new (&err()) Cap;
  capture_cerr(err());
  no_msgs = sx_choice(3, "no_startup_msgs");
  print_loading = sx_choice(3, "print_loading");
  get_fails = sx_choice(2, "getrlimit_fails");
  set_fails = sx_choice(2, "setrlimit_fails");
  static rlim_t const limits[] = { 0, 1023, 1024, 5 * 1024 * 1024 + 7, RLIM_INFINITY - 1, RLIM_INFINITY };
  hard = limits[sx_choice(6, "hard")];
  soft = sx_any<rlim_t>("soft");
  sx_assume(soft <= hard);
  initialize();
}
__attribute__((init_priority(200))) static Before before;

static bool warned() { return !no_msgs && hard != RLIM_INFINITY && hard != 0; }
static bool forced() { return print_loading && !no_msgs; }

static void check_states(int off, int elf, int notice)
{
  LIBCWD_TSD_DECLARATION;
  sx_assert(libcw_do.is_on(LIBCWD_TSD) == (off < 0), "libcw_do is turned on or off by itself");
  sx_assert(dc::elfutils.is_on() == (elf < 0), "dc::elfutils is turned on or off by itself");
  sx_assert(dc::warning.is_on() && dc::notice.is_on() == (notice < 0), "a channel is turned on or off by itself");
}

extern "C" void h_environment()
{
  sx_assert(asked == 2, "the environment is not looked at once");
  sx_assert(!get_fails && !set_fails, "a failure is ignored");
  sx_assert(limit_set == 1 && limit_raised, "the core size is not unlimited");
  started = true;
  // What was printed until now.
  Cap& c = err();
  int from = 0;
  if (warned())
  {
    Text t;
    char d[24];
    int n = 0;
    uint64_t v = (uint64_t)hard / 1024;
    do { d[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    t.put("WARNING : core size is limited (hard limit: ");
    while (n) t.put(d[--n]);
    t.put(" kb).  Core dumps might be truncated!\n");
    sx_assert(c.n >= t.n && same(c.data, t.n, t.data, t.n), "there is no warning that the core size is limited");
    from = t.n;
    sx_observe(c.data, t.n, "warning");
    sx_cover("warned");
  }
  check_label(from, "ELFUTILS");
  if (forced())
  {
    sx_assert(has(exe) && has(startup), "the libraries that the program started with are not shown");
    sx_cover("forced");
  }
  else sx_assert(c.n == from, no_msgs ? "something is printed before main, though LIBCWD_NO_STARTUP_MSGS is set" : "something is printed before main");
  int off = 0, elf = 0, notice = 0;
  check_states(off, elf, notice);
  void* handle = nullptr;
  for (int i = 0; i < OPS; ++i)
  {
    c.clear();
    bool on = off < 0 && elf < 0;
    switch (sx_choice(6, "op"))
    {
      case 0: if (off < 0) { libcw_do.off(); ++off; } else { libcw_do.on(); --off; } break;
      case 1: libcw_do.off(); ++off; break;
      case 2: if (elf < 0) { dc::elfutils.off(); ++elf; } else { dc::elfutils.on(); --elf; } break;
      case 3: if (notice < 0) { dc::notice.off(); ++notice; } else { dc::notice.on(); --notice; } break;
      case 5: dc::elfutils.off(); ++elf; break;
      case 4:
        if (!handle)
        {
          handle = dlopen(lib, RTLD_NOW);
          sx_assert(handle == &map, "dlopen returned something else than the real dlopen");
        }
        else
        {
          sx_assert(dlclose(handle) == 0, "dlclose fails");
          handle = nullptr;
        }
        check_label(0, "ELFUTILS");
        if (forced() || on) { sx_assert(has(lib), "a library that is loaded or unloaded is not shown"); sx_cover(on ? "shown, on" : "shown, forced"); }
        else { sx_assert(c.n == 0, "something is printed while it is off"); sx_cover("not shown"); }
        break;
    }
    check_states(off, elf, notice);
  }
  // How often they were turned off is not changed either.
  while (off > 0) { libcw_do.on(); --off; check_states(off, elf, notice); }
  if (!off) { libcw_do.on(); check_states(-1, elf, notice); }
  while (elf >= 0) { dc::elfutils.on(); --elf; check_states(-1, elf, notice); }
  sx_cover("end");
}
