// Debug output from the constructors of global objects: libcwd works from the moment that it is initialized, before, between and
// after its own global objects are constructed, and whatever was set then is still so when main starts.
#include "dbg.h"
#include <mutex>
#ifndef OPS
#define OPS 2
#endif
struct Lock
{
  std::mutex m;
  int locked = 0, used = 0;
  void lock() { m.lock(); ++locked; ++used; }
  bool try_lock() { if (!m.try_lock()) return false; ++locked; ++used; return true; }
  void unlock() { --locked; m.unlock(); }
};
struct LCap : CapBuf
{
  Lock* lk = nullptr;
  void chk() { sx_assert(!lk || lk->locked == 1, "output is written without holding the lock of the stream"); }
  int_type overflow(int_type c) override { chk(); return CapBuf::overflow(c); }
  std::streamsize xsputn(char const* s, std::streamsize l) override { chk(); return CapBuf::xsputn(s, l); }
};
alignas(Cap) static unsigned char st_err[sizeof(Cap)];
alignas(LCap) static unsigned char st_cap[sizeof(LCap)];
alignas(std::ostream) static unsigned char st_os[sizeof(std::ostream)];
alignas(Lock) static unsigned char st_lock[sizeof(Lock)];
static Cap& err() { return *(Cap*)st_err; }
static LCap& cap() { return *(LCap*)st_cap; }
static std::ostream& os() { return *(std::ostream*)st_os; }
static Lock& lock_() { return *(Lock*)st_lock; }

// What is set.
static int off_count, notice_count, debug_count, custom_count, indent, always;
static int where;                       // 0: std::cerr, 1: cap.
static char margin, marker, color;
static int width = 8;

static void check_line(char c)
{
  CapBuf& to = where ? (CapBuf&)cap() : (CapBuf&)err();
  CapBuf& other = where ? (CapBuf&)err() : (CapBuf&)cap();
  to.clear(); other.clear();
  to.flushes = 0;
  int used = where == 1 && cap().lk ? lock_().used : 0;
  DOUT(dc::notice, c);
  Text t;
  if (off_count < 0 && notice_count < 0)
  {
    if (color) t.put(color);
    if (margin) t.put(margin);
    t.put("NOTICE"); t.pad(width - 6);
    if (marker) t.put(marker); else t.put(": ");
    t.pad(indent);
    t.put(c); t.put('\n');
    sx_assert(to.flushes > 0 || !always, "always_flush_on is forgotten");
    if (where == 1 && cap().lk) sx_assert(lock_().used > used && lock_().locked == 0, "the lock of the stream is not used");
    sx_cover("line");
  }
  sx_observe(to.data, to.n, "out");
  sx_assert(same(to, t), "a line is not what was asked for");
  sx_assert(other.n == 0, "output is written to the wrong stream");
}

struct Before
{
  Before();
};
static void set_up()
{
  new (&err()) Cap;
  new (&cap()) LCap;
  new (&os()) std::ostream(&cap());
  new (&lock_()) Lock;
  capture_cerr(err());
}
static bool any_early;
static void some()
{
  switch (sx_choice(11, "op"))
  {
    case 0: libcw_do.on(); --off_count; break;
    case 1: libcw_do.off(); ++off_count; break;
    case 2: sx_assume(notice_count >= 0); dc::notice.on(); --notice_count; break;
    case 3: dc::notice.off(); ++notice_count; break;
    case 4: libcw_do.set_ostream(&os()); where = 1; break;
    case 5: libcw_do.set_ostream(&os(), &lock_()); where = 1; cap().lk = &lock_(); break;
    case 6: margin = 'M'; libcw_do.margin().assign("M", 1); break;
    case 7: marker = '>'; libcw_do.marker().assign(">", 1); break;
    case 8: color = 'C'; libcw_do.color_on().assign("C", 1); break;
    case 9: libcw_do.always_flush_on(); ++always; break;
    case 10: libcw_do.inc_indent(2); indent += 2; break;
  }
}
Before::Before()
{
  set_up();
  any_early = sx_choice(2, "early");
  if (!any_early) return;
  // Nothing is constructed yet.
  initialize();
  for (int i = 0; i < OPS; ++i) some();
  check_line('e');
  sx_cover("early");
}
__attribute__((init_priority(200))) static Before before;
// A channel of a library, which is constructed before the channels of libcwd. Its label is longer.
__attribute__((init_priority(300))) static Channel custom("MYCHANNEL1");
#ifdef OBJECT
// Another debug object, which is constructed before libcw_do.
__attribute__((init_priority(400))) static DebugObject my_do;
#define MY_DOUT(cntrl, ...) LibcwDout(libcwd::channels, my_do, cntrl, __VA_ARGS__)
#endif
struct Between { Between() { width = 10; if (any_early) check_line('b'); } };
static Between between;

static int nlabels;
extern "C" void h_early()
{
  if (!any_early) { initialize(); sx_cover("late"); }
  sx_assert(libcw_do.get_ostream() == (where ? &os() : &std::cerr), "the stream is forgotten");
  sx_assert(libcw_do.has_mutex() == (cap().lk != nullptr), "the lock is forgotten");
  // Every channel is there once.
  static char const* const want[] = { "DEBUG", "ELFUTILS", "MYCHANNEL1", "NOTICE", "SYSTEM", "WARNING" };
  ForAllDebugChannels(
    char const* l = debugChannel.get_label();
    if (nlabels < 6) sx_assert(strncmp(l, want[nlabels], strlen(want[nlabels])) == 0 && strlen(l) == 10, "a channel is lost");
    if (&debugChannel != &libcwd::channels::dc::notice) sx_assert(debugChannel.is_on() == (l[0] == 'W'), "a channel is on or off by itself");
    ++nlabels;
  );
  sx_assert(nlabels == 6, "a channel is registered twice, or lost");
  int nobjects = 0;
#ifdef OBJECT
  ForAllDebugObjects(sx_assert(&debugObject == &libcw_do || &debugObject == &my_do, "an unknown debug object"); ++nobjects);
  sx_assert(nobjects == 2, "a debug object is registered twice");
  if (notice_count >= 0) dc::notice.on();
  if (notice_count <= 0)
  {
    err().clear(); cap().clear();
    MY_DOUT(dc::notice, 'x');
    sx_assert(err().n == 0 && cap().n == 0, "the other debug object is on by itself");
    my_do.on();
    MY_DOUT(dc::notice, 'x');
    Text t; t.put("NOTICE    : x\n");
    sx_assert(same(err(), t) && cap().n == 0, "the settings of one debug object are used by the other");
    sx_cover("object");
    // What the other one did does not change libcw_do.
    my_do.margin().assign("X", 1);
    notice_count = -1;
    check_line('m');
  }
#else
  ForAllDebugObjects(sx_assert(&debugObject == &libcw_do, "an unknown debug object"); ++nobjects);
  sx_assert(nobjects == 1, "the debug object is registered twice");
  check_line('m');
#endif
  sx_cover("end");
}
