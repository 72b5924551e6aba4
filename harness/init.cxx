// init() and init_thread(): the state of the channels, the debug object and the margin of main and of every new thread.
// Reading the runtime configuration file is a stand-in that turns on any set of channels.
#include "dbg.h"
#include <libcwd/init_functions.h>
#include <libcwd/RcFile.h>
#include <string>
#include <atomic>
#include <pthread.h>
#ifndef NT
#define NT 2
#endif
#ifndef RCB
#define RCB 3
#endif
#ifndef NAMES
#define NAMES 3
#endif
#ifndef MODES
#define MODES 4
#endif

namespace libcwd::channels::dc { static Channel one("ONE"); static Channel two("TWO"); }
namespace libcwd::init_functions { extern thread_init_t default_thread_init; extern std::atomic_bool threads_created; }

static Channel* const chs[] = {&dc::one, &dc::two, &dc::warning, &dc::notice};
static int const NC = sizeof chs / sizeof *chs;
static bool rc_on[NC], all_off;

extern "C" {
// Each of the channels ends on or off, as the configuration file says.
void stub__ZN6libcwd6RcFile4readEv(void*)
{
  LIBCWD_TSD_DECLARATION;
  sx_assert(libcw_do.is_on(LIBCWD_TSD), "the debug object is off while the rcfile is read");
  all_off = true;
  ForAllDebugChannels(if (debugChannel.is_on()) all_off = false);
  for (int i = 0; i < NC; ++i)
    if (rc_on[i])
      while (!chs[i]->is_on()) chs[i]->on();
}
int stub_pthread_setname_np(unsigned long, char const*) { return 0; }
}

static void any_rc()
{
  for (int i = 0; i < 3; ++i) rc_on[i] = i < RCB ? sx_choice(2, "rc") : i != 1;
  rc_on[3] = sx_choice(2, "rc_notice");
}

static void any_default() { libcwd::init_functions::default_thread_init = (thread_init_t)(1 + sx_choice(3, "default")); }

extern "C" void h_init()
{
  Cap cap;
  libcw_do.set_ostream(&cap.os);
  any_rc();
  any_default();
  thread_init_t def = libcwd::init_functions::default_thread_init;
  // What happened to the channels before main reached init().
  for (int i = 0; i < 3; ++i)
    switch (sx_choice(3, "before"))
    {
      case 1: if (!chs[i]->is_on()) chs[i]->on(); break;
      case 2: chs[i]->off(); break;
    }
  init();
  sx_assert(all_off, "a channel is on before the rcfile is read");
  LIBCWD_TSD_DECLARATION;
  for (int i = 0; i < NC; ++i) sx_assert(chs[i]->is_on() == rc_on[i], "after init a channel is on when and only when the rcfile says so");
  // In main itself there is nothing to copy from: libcw_do is still off.
  sx_assert(libcw_do.is_on(LIBCWD_TSD) == (def == from_rcfile), "the debug object is in the wrong state after init");
  sx_assert(libcw_do.get_ostream() == &cap.os && libcw_do.has_mutex(), "the debug stream was changed or has no lock");
  sx_assert(libcw_do.margin().size() == 0, "the first thread got a margin");
  sx_assert(cap.n == 0, "output without reason");
  if (def == from_rcfile && rc_on[0]) { DOUT(dc::one, "x"); sx_assert(cap.is("ONE     : x\n"), "output after init is wrong"); sx_cover("output"); }
  libcw_do.off();
  sx_assert(!libcw_do.is_on(LIBCWD_TSD), "one off() turns the debug object off");
  sx_cover("end");
}

static char const* const names[5] = {"", "ab", "0123456789abcdef", "0123456789abcde", "0123456789abcdefgh"};
static bool main_on[NC], main_do;
static struct { int mode, name; } par[NT];

static void* thread_main(void* p)
{
  int t = (int)(size_t)p, mode = par[t].mode;
  char const* name = names[par[t].name];
  if (mode) init_thread(name, (thread_init_t)mode);
  else if (*name) init_thread(name);
  else init_thread();
  if (mode == 0) mode = libcwd::init_functions::default_thread_init;
  LIBCWD_TSD_DECLARATION;
  for (int i = 0; i < NC; ++i)
    sx_assert(chs[i]->is_on() == (mode == from_rcfile ? rc_on[i] : mode == copy_from_main ? main_on[i] : false), "a channel of the new thread is in the wrong state");
  bool on = mode == from_rcfile || (mode == copy_from_main && main_do);
  sx_assert(libcw_do.is_on(LIBCWD_TSD) == on, "the debug object of the new thread is in the wrong state");
  Text m;
  if (*name)
  {
    int l = strlen(name);
    for (int i = 0; i < 16; ++i) m.put(i < l && i < 15 ? name[i] : ' ');
  }
  else
  {
    sx_assert(libcwd::init_functions::threads_created, "threads_created is not set");
    size_t id = (size_t)pthread_self();
    char h[17]; int k = 0;
    do { h[k++] = "0123456789abcdef"[id & 15]; id >>= 4; } while (id);
    m.pad(12 - k);
    while (k) m.put(h[--k]);
    m.put(' ');
    sx_cover("id");
  }
  DebugString& margin = libcw_do.margin();
  sx_assert(same(margin.c_str(), margin.size(), m.data, m.n), "the margin of the new thread is wrong");
  if (on) sx_cover("on"); else sx_cover("off");
  return nullptr;
}

static Cap* capp;
static void start(bool late)
{
  static Cap cap;
  capp = &cap;
  libcw_do.set_ostream(&cap.os);
  any_rc();
  init();
  if (!late) any_default();
  for (int i = 0; i < NC; ++i) main_on[i] = rc_on[i];
  main_do = true;
}

static void threads(int nt)
{
  int id[NT];
  bool started[NT];
  for (int t = 0; t < nt; ++t) { par[t].mode = sx_choice(MODES, "mode"); par[t].name = sx_choice(NAMES, "name"); }
  for (int t = 0; t < nt; ++t) id[t] = sx_thread_create(thread_main, (void*)(size_t)t);
  for (int t = 0; t < nt; ++t) sx_thread_join(id[t]);
  LIBCWD_TSD_DECLARATION;
  // Main is not affected.
  for (int i = 0; i < NC; ++i) sx_assert(chs[i]->is_on() == main_on[i], "a new thread changed a channel of main");
  sx_assert(libcw_do.is_on(LIBCWD_TSD) == main_do, "a new thread changed the debug object of main");
  sx_assert(libcw_do.margin().size() == 0, "a new thread changed the margin of main");
  // Each named thread in which notice is on tells that it started.
  Text want[2];
  int n = 0;
  for (int t = 0; t < nt; ++t)
  {
    int mode = par[t].mode ? par[t].mode : libcwd::init_functions::default_thread_init;
    bool on = mode == from_rcfile ? rc_on[3] : mode == copy_from_main ? main_do && main_on[3] : false;
    char const* name = names[par[t].name];
    if (!on || !*name) continue;
    char m[17];
    int l = strlen(name);
    for (int i = 0; i < 16; ++i) m[i] = i < l && i < 15 ? name[i] : ' ';
    m[16] = 0;
    want[n].put(m); want[n].put(dc::notice.get_label()); want[n].put(": Thread started. Set debug margin to \""); want[n].put(m); want[n].put("\".\n");
    ++n;
  }
  Text a, b;
  for (int i = 0; i < n; ++i) { a.put(want[i].data, want[i].n); b.put(want[n - 1 - i].data, want[n - 1 - i].n); }
  sx_assert(same(*capp, a) || same(*capp, b), "the output of the new threads is wrong");
  if (n) sx_cover("told");
}

extern "C" void h_init_threads()
{
  start(false);
  // Main goes on with one of its channels and the debug object changed.
  if (sx_choice(2, "change")) { if (main_on[1]) chs[1]->off(); else chs[1]->on(); main_on[1] = !main_on[1]; }
  if (sx_choice(2, "do_off")) { libcw_do.off(); main_do = false; }
  threads(NT);
  sx_cover("end");
}

// A channel that is created after init(), for example because a shared library was loaded, with any label.
extern "C" void h_late()
{
  start(true);
  static char label[16];
  int len = 1 + sx_choice(14, "len");
  for (int i = 0; i < len; ++i) label[i] = 'L';
  if (sx_choice(2, "first")) label[0] = 'A';
  static Channel late(label);
  sx_assert(!late.is_on(), "a new channel must be off");
  threads(1);
  sx_cover("end");
}
