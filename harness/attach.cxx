// attach_gdb(): for every setting of gdb and xterm in the rcfile and for everything that fork, system and waitpid can do, the
// configured debugger is started on this process and the call returns when it is attached, or the program ends with a message.
#include "dbg.h"
#include <fstream>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef NSYM
#define NSYM 3
#endif

extern int libcwd_attach_gdb_hook;
static Cap cap, err;
static CapBuf script;                   // gdb.cmds
static bool opened, closed;
static int const PID1 = 1234, PID2 = 77;
static enum { PARENT, CHILD, FAILED } forked;
static int system_result, nsleeps, attach_at, nwaits, wait_kind, wait_at, status, before_off, code;
static bool slept_with_hook, started;
static Text command;                    // What must be executed.
static bool contains(CapBuf const& c, char const* s, int n)
{
  for (int i = 0; i + n <= c.n; ++i) if (memcmp(c.data + i, s, n) == 0) return true;
  return false;
}
static bool contains(CapBuf const& c, char const* s) { return contains(c, s, strlen(s)); }
static void check_script();
static bool too_long_gdb, empty_gdb;
static void ended(bool core)
{
  sx_observe(cap.data, cap.n, "out");
  if (empty_gdb) { sx_assert(!core && contains(cap, "rcfile: value of keyword 'gdb' is empty"), "no message about an empty 'gdb'"); sx_cover("empty"); }
  else if (too_long_gdb) { sx_assert(!core && contains(cap, "rcfile: value of keyword 'gdb' too long"), "no message about a too long 'gdb'"); sx_cover("too long"); }
  else if (!started) { sx_assert(!core && command.n >= 512 && contains(cap, "rcfile: value of keyword 'xterm' too long"), "ended before the debugger was started"); sx_cover("too long xterm"); }
  else if (forked == FAILED) { sx_assert(!core && contains(cap, "fork(): EAGAIN"), "no message about a failing fork"); sx_cover("fork failed"); }
  else
  {
    sx_assert(forked == PARENT && core && nwaits && wait_kind != 0 && contains(cap, "Failed to start gdb: 'xterm' terminated"), "ended without a reason");
    if (wait_kind == 1)
    {
      // Which exit code, or which signal.
      char buf[32];
      int v = sx_concretize((status & 0x7f) ? status & 0x7f : (status >> 8) & 0xff);
      snprintf(buf, sizeof buf, (status & 0x7f) ? "signal %d " : "exit code %d ", v);
      sx_assert(contains(cap, buf), "the message does not tell how the debugger ended");
    }
    else sx_assert(!contains(cap, "exit code") && !contains(cap, "signal"), "the message tells how the debugger ended, which is not known");
    sx_cover("terminated");
  }
  sx_done();
}
extern "C" {
char* stub_strerror_r(int, char* buf, size_t) { buf[0] = 'E'; buf[1] = 0; return buf; }
pid_t stub_getpid() { return PID1; }
pid_t stub_fork()
{
  sx_assert(!started, "forked twice");
  started = true;
  sx_assert(closed, "forked before the commands for gdb were written");
  sx_assert(libcwd_attach_gdb_hook != 0, "the debugger is started before this process is told to wait for it");
  if (forked == FAILED) errno = EAGAIN;
  return forked == FAILED ? -1 : forked == CHILD ? 0 : PID2;
}
int stub_system(char const* c)
{
  sx_assert(started && forked == CHILD, "the debugger is started by the wrong process");
  check_script();
  int n = strlen(c);
  sx_observe(c, n, "command");
  sx_assert(n == command.n, "the wrong command is executed");
  sx_assert(memcmp(c, command.data, n) == 0, "the wrong command is executed");
  nsleeps = 1;
  return system_result;
}
void stub__exit(int code)
{
  sx_assert(forked == CHILD && nsleeps, "the program ends");
  int r = system_result, sig = r & 0x7f;
  int want = r == -1 ? 255 : sig == SIGINT || sig == SIGQUIT ? 126 : (r >> 8) & 0xff;
  sx_assert((code & 0xff) == want, "wrong exit code of the child");
  sx_cover("child");
  sx_done();
}
pid_t stub_waitpid(pid_t pid, int* st, int options)
{
  sx_assert(forked == PARENT && started && pid == PID2, "waiting for the wrong process");
  sx_assert(options & WNOHANG, "waits for the debugger, while it can not attach");
  ++nwaits;
  if (nwaits < wait_at) { if (wait_kind == 3) { errno = EINTR; return -1; } return 0; }
  switch (wait_kind)
  {
    case 1: *st = status; return PID2;
    case 2: errno = ECHILD; return -1;
    case 3: errno = EINTR; return -1;
  }
  return 0;
}
int stub_nanosleep(struct timespec const* t, struct timespec*)
{
  sx_assert(t->tv_sec > 0 || t->tv_nsec > 0, "waits without sleeping");
  if (++nsleeps == attach_at) { sx_assert(libcwd_attach_gdb_hook != 0, "stopped waiting for the debugger"); libcwd_attach_gdb_hook = 0; }
  sx_assert(nsleeps <= 80, "waits forever");
  return 0;
}
void* stub__ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode(void* fb, char const* n, int mode)
{
  sx_assert(!opened && strcmp(n, "gdb.cmds") == 0, "the wrong file is written");
  sx_assert(!(mode & std::ios::app), "the file is appended to");
  opened = true;
  static std::ofstream probe;
  std::ofstream* f = (std::ofstream*)((char*)fb - ((char*)probe.rdbuf() - (char*)&probe));
  static_cast<std::ios*>(f)->rdbuf(&script);
  return fb;
}
void* stub__ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv(void* fb)
{
  if (!opened || closed) return nullptr;
  closed = true;
  return fb;
}
void stub_abort() { ended(true); }
void stub__Exit(int code) { sx_assert(code == 180, "wrong exit code"); ended(false); }
}

__attribute__((noinline)) static void call()
{
  attach_gdb();
  asm volatile("" ::: "memory");
}
// A breakpoint where attach_gdb returns to, and the end of the wait.
static void check_script()
{
  char const* p = script.data;
  char const* e = p + script.n;
  static char const last[] = "\nset *(int*)&libcwd_attach_gdb_hook=0\nc\n";
  sx_assert(script.n > 5 && memcmp(p, "b *0x", 5) == 0, "the commands for gdb are wrong");
  uint64_t a = 0;
  for (p += 5; p < e && ((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f')); ++p) a = a * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10);
  sx_assert((a - (uint64_t)&call) < (uint64_t)(sx_symbolic_run() ? 16 : 65536), "the breakpoint is not where attach_gdb returns to");
  sx_assert(e - p == sizeof last - 1, "the commands for gdb are wrong");
  sx_assert(memcmp(p, last, sizeof last - 1) == 0, "the commands for gdb are wrong");
}

static int const lens[] = { 100, 214, 215, 216, 217, 218, 219, 300 };
extern "C" void h_attach()
{
  capture_cerr(err);
  libcw_do.set_ostream(&cap.os);
  libcw_do.on();
  std::string gdb, xterm;
  forked = PARENT;
#ifdef SETTINGS
  // What is executed.
  if (sx_choice(2, "long"))
  {
    gdb.assign(lens[sx_choice(8, "gdb_len")], 'g');
    static int const xl[] = { 0, 200, 296, 297, 298, 299, 300, 511 };
    xterm.assign(xl[sx_choice(8, "xterm_len")], 'x');
    xterm += " %s";
  }
  else
  {
    Str g = any_str(1, "gdb"), x = any_str(NSYM, "xterm");
    gdb.assign(g.s, g.n); xterm.assign(x.s, x.n);
  }
  forked = sx_choice(2, "child") ? CHILD : PARENT;
#else
  gdb = "gdb"; xterm = "xt -e %s";
  forked = (decltype(forked))sx_choice(3, "fork");
#endif
  using RC = RcFile;
  rcfile.gdb_bin_ = gdb;
  rcfile.konsole_command_ = xterm;
  Text c;
  c.put(gdb.data(), gdb.size());
  c.put(" -n -x gdb.cmds /proc/1234/exe 1234");
  too_long_gdb = c.n >= 256;
  empty_gdb = gdb.empty();
  for (size_t i = 0; i < xterm.size(); ++i)
  {
    char p = xterm[i], q = i + 1 < xterm.size() ? xterm[i + 1] : 0;
    if (p == '%' && q == 's') { command.put(c.data, c.n); ++i; }
    else { if (p == '%' && q == '%') ++i; command.put(p); }
  }
#ifndef SETTINGS
  if (forked == CHILD)
  {
    system_result = sx_any<int>("system");
    sx_assume(system_result == -1 || (system_result & ~0xffff) == 0);
    // Exited, or killed by a signal.
    sx_assume(system_result == -1 || (system_result & 0x7f) == 0 || ((system_result & 0x7f) != 0x7f && (system_result & 0xff00) == 0));
  }
  else
  {
    static int const at[] = { 1, 2, 50, 51, 52, 53, 60, 1000 };
    attach_at = at[sx_choice(8, "attach_at")];
    wait_kind = sx_choice(4, "wait");
    wait_at = wait_kind == 0 ? 0 : 1 + sx_choice(3, "wait_at");
    status = sx_any<unsigned short>("status");
    sx_assume((status & 0x7f) == 0 ? (status & 0x80) == 0 : (status & 0x7f) != 0x7f && (status & 0xff00) == 0);
    sx_assume(attach_at < 1000 || wait_kind == 1 || wait_kind == 2);     // The debugger attaches or ends.
  }
#else
  attach_at = 1;
#endif
  call();
  sx_assert(started && forked == PARENT, "attach_gdb returned in the wrong process");
  check_script();
  sx_assert(libcwd_attach_gdb_hook == 0 && nsleeps == attach_at, "attach_gdb returned before the debugger attached");
  sx_assert(contains(cap, "ATTACHED!"), "the debugger attached without a message");
  Text ex; ex.put("Executing \""); ex.put(command.data, command.n); ex.put("\".\n");
  sx_assert(contains(cap, ex.data, ex.n), "the command that is executed is not shown");
  sx_observe(cap.data, cap.n, "out");
  // The debug object is on as before: off() turns it off.
  cap.clear();
  DOUT(dc::always, "on");
  sx_assert(cap.n > 0, "attach_gdb turned off the debug output");
  libcw_do.off();
  cap.clear();
  DOUT(dc::always, "off");
  sx_assert(cap.n == 0, "attach_gdb turned on the debug output");
  libcw_do.on();
  sx_cover("attached");
}
