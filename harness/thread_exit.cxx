// The debug state of a thread: a thread starts with a state of its own, which is gone when the thread is; what another
// thread has is not touched.
#include "dbg.h"
#include <mutex>
#ifndef STEPS
#define STEPS 2
#endif
#ifndef NT
#define NT 2
#endif
#ifndef SEQ
#define SEQ 1
#endif
#ifndef SLEN
#define SLEN 2
#endif
static Channel& the_notice = dc::notice;
static DebugObject* obj[2];
static CapBuf cap[2];
static std::mutex mtx[2];

// What the debug state of the current thread should be, for one debug object.
struct State
{
  bool on = false;
  char margin[64]; int mn = 0;
  char marker[64]; int kn = 2;
  int indent = 0;
  State() { marker[0] = ':'; marker[1] = ' '; }
};
static void check_state(DebugObject& d, State const& s, char const* what)
{
  sx_assert((int)d.margin().size() == s.mn && memcmp(d.margin().c_str(), s.margin, s.mn) == 0 && d.margin().c_str()[s.mn] == 0, what);
  sx_assert((int)d.marker().size() == s.kn && memcmp(d.marker().c_str(), s.marker, s.kn) == 0, what);
  sx_assert(d.get_indent() == s.indent, what);
}
static void check_line(int o, State const& s, char c)
{
  int from = cap[o].n;
  LibcwDout(libcwd::channels, (*obj[o]), dc::notice, c);
  if (!s.on) { sx_assert(cap[o].n == from, "output of a debug object that is off in this thread"); return; }
  char const* p = cap[o].data + from;
  int n = cap[o].n - from;
  sx_assert(n == s.mn + 8 + s.kn + s.indent + 2, "a line of output is wrong");
  sx_assert(memcmp(p, s.margin, s.mn) == 0 && memcmp(p + s.mn, "NOTICE  ", 8) == 0, "a line of output is wrong");
  p += s.mn + 8;
  sx_assert(memcmp(p, s.marker, s.kn) == 0, "a line of output is wrong");
  p += s.kn;
  for (int i = 0; i < s.indent; ++i) sx_assert(p[i] == ' ', "a line of output is wrong");
  sx_assert(p[s.indent] == c && p[s.indent + 1] == '\n', "a line of output is wrong");
}

// Output from the destructor of a thread_local object.
static int dtors;
struct Tls
{
  bool used = false;
  State* expect = nullptr;
  ~Tls()
  {
    if (!used) return;
    ++dtors;
    sx_cover("output from a destructor of a thread");
    check_state(*obj[0], *expect, "the state of a thread is lost before its thread_local objects are destructed");
    check_line(0, *expect, 'T');
  }
};
static thread_local Tls tls;

struct Prog { int op[STEPS]; int o[STEPS]; Str s[STEPS]; bool tls; };
static Prog prog[NT];
static State last[NT];

static bool par;
static void run(Prog const& p, State& s0)
{
  State s[2];
  for (int o = 0; o < OBJS; ++o) check_state(*obj[o], s[o], "a new thread does not start with the default state");
  sx_assert(!the_notice.is_on(), "a new thread does not start with its channels off");
  the_notice.on();
  for (int o = 0; o < OBJS; ++o) if (!par || o == p.o[0]) check_line(o, s[o], 'a');    // A new thread has its debug objects turned off.
  for (int i = 0; i < STEPS; ++i)
  {
    LIBCWD_TSD_DECLARATION;
    sx_assert(obj[p.o[i]]->is_on(LIBCWD_TSD) == s[p.o[i]].on, "a debug object is on or off, which it should not be");
    DebugObject& d = *obj[p.o[i]];
    State& t = s[p.o[i]];
    Str const& a = p.s[i];
    switch (p.op[i])
    {
      case 0: if (!t.on) d.on(); t.on = true; break;
      case 1: d.margin().assign(a.s, a.n); memcpy(t.margin, a.s, a.n); t.mn = a.n; break;
      case 2: d.marker().assign(a.s, a.n); memcpy(t.marker, a.s, a.n); t.kn = a.n; break;
      case 3: d.push_margin(); d.margin().append(a.s, a.n); memcpy(t.margin + t.mn, a.s, a.n); t.mn += a.n; break;
      case 4: d.push_marker(); d.marker().append(a.s, a.n); memcpy(t.marker + t.kn, a.s, a.n); t.kn += a.n; break;
      case 5: d.set_indent(i + 1); t.indent = i + 1; break;
      case 6: d.color_on().assign("[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[", a.n * 20); d.color_on().assign("", 0); break;
      case 7: { State q = t; d.push_margin(); d.margin().assign(a.s, a.n); d.pop_margin(); d.push_marker(); d.marker().assign(a.s, a.n); d.pop_marker(); break; }
    }
    for (int o = 0; o < OBJS; ++o) check_state(*obj[o], s[o], "the state of a thread is wrong");
    check_line(p.o[i], t, 'b');
  }
  s0 = s[0];
}
static void* thread_main(void* a)
{
  int t = (int)(size_t)a;
  run(prog[t], last[t]);
  if (prog[t].tls) { tls.used = true; tls.expect = &last[t]; }
  return nullptr;
}
static void any_prog(Prog& p, int o = -1)
{
  for (int i = 0; i < STEPS; ++i)
  {
    p.op[i] = sx_choice(8, "op");
    p.o[i] = o >= 0 ? o : OBJS > 1 ? sx_choice(OBJS, "object") : 0;
    p.s[i].n = 0;
    if (p.op[i] != 0 && p.op[i] != 5) p.s[i] = any_str(SLEN, "str");
  }
  p.tls = TLS && sx_choice(2, "tls");
}
static void* nothing(void*) { LIBCWD_TSD_DECLARATION; tls.used = false; return nullptr; }
static void setup()
{
  static std::ostream os0(&cap[0]), os1(&cap[1]);
  obj[0] = &libcw_do;
  libcw_do.set_ostream(&os0, &mtx[0]);
#if OBJS > 1
  static DebugObject second;
  obj[1] = &second;
  second.set_ostream(&os1, &mtx[1]);
#endif
  (void)os1;
}

// One thread after another.
extern "C" void h_exit()
{
  setup();
  State m[2];
  for (int o = 0; o < OBJS; ++o) { obj[o]->on(); m[o].on = true; obj[o]->margin().assign("mm", 2); memcpy(m[o].margin, "mm", 2); m[o].mn = 2; }
  the_notice.on();
  if (SEQ > 1) sx_thread_join(sx_thread_create(nothing, nullptr));      // Otherwise it is the first thread.
  for (int i = 0; i < SEQ; ++i)
  {
    any_prog(prog[i]);
    int d = dtors;
    int id = sx_thread_create(thread_main, (void*)(size_t)i);
    unsigned long before = sx_live_bytes();
    sx_thread_join(id);
    sx_assert(sx_live_bytes() == before, "memory of a thread is still allocated after the thread is gone");
    sx_assert(dtors == d + (int)prog[i].tls, "a destructor of a thread did not run");
    for (int o = 0; o < OBJS; ++o) { check_state(*obj[o], m[o], "the exit of a thread changes the state of another"); check_line(o, m[o], 'M'); }
  }
  sx_cover("end");
}

// Two threads at the same time.
extern "C" void h_par()
{
  setup();
  par = true;
  State m[2];
  for (int o = 0; o < OBJS; ++o) { obj[o]->on(); m[o].on = true; obj[o]->marker().assign("!", 1); m[o].marker[0] = '!'; m[o].kn = 1; }
  the_notice.on();
  sx_thread_join(sx_thread_create(nothing, nullptr));
  for (int i = 0; i < 2; ++i) any_prog(prog[i], i % OBJS);
  int a = sx_thread_create(thread_main, (void*)0), b = sx_thread_create(thread_main, (void*)1);
  unsigned long before = sx_live_bytes();
  sx_thread_join(a); sx_thread_join(b);
  sx_assert(sx_live_bytes() == before, "memory of a thread is still allocated after the thread is gone");
  for (int o = 0; o < OBJS; ++o) { check_state(*obj[o], m[o], "the exit of a thread changes the state of another"); check_line(o, m[o], 'M'); }
  sx_cover("end");
}

// A thread_local object that is constructed before the first use of libcwd in its thread is destructed after the state of
// the thread is gone: using libcwd is then a first use again.
struct Early { bool used = false; ~Early() { if (used) run(prog[0], last[0]); } };
static thread_local Early early;
static void* early_main(void* p) { early.used = p; return thread_main((void*)1); }
extern "C" void h_early()
{
  setup();
  obj[0]->on(); the_notice.on();
  sx_thread_join(sx_thread_create(nothing, nullptr));
  any_prog(prog[0]);
  any_prog(prog[1]);
  bool used = sx_choice(2, "used");
  int id = sx_thread_create(early_main, (void*)(size_t)used);
  unsigned long before = sx_live_bytes();
  sx_thread_join(id);
  sx_assert(used || sx_live_bytes() == before, "memory of a thread is still allocated after the thread is gone");
  sx_cover(used ? "used again" : "not used again");
  sx_assert(sx_live_bytes() == before, "the state that a thread gets after its state was freed is never freed");
  sx_cover("end");
}
