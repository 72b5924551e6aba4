// DoutFatal and the misuses that are fatal: the message is written (and flushed) before the process terminates with abort()
// for dc::core and with exit code 180 for dc::fatal; the code after it never runs; the lock is not left in a wrong state.
#include "dbg.h"
#include <unistd.h>
struct Lock
{
  int held = 0;
  int busy = 0;         // So often try_lock fails because "another thread" has the lock.
  void lock() { sx_assert(!held, "deadlock: the lock is already held by this thread"); held = 1; }
  bool try_lock() { sx_assert(!held, "try_lock of a lock that this thread holds"); if (busy > 0) { --busy; return false; } return held = 1; }
  void unlock() { sx_assert(held, "unlock of a lock that is not held"); held = 0; }
};
static Lock lck;
static Cap* cap;
static Cap* err;
static Text want, other;         // What must be written to the stream that the message is written to; and what is written to the debug stream if that is another.
static int kind, prior, locked;
static char const* phrase;       // Must appear in the message of a misuse.
static bool to_cerr;
static bool done;

static bool contains(CapBuf const& c, char const* s)
{
  int n = strlen(s);
  for (int i = 0; i + n <= c.n; ++i) if (memcmp(c.data + i, s, n) == 0) return true;
  return false;
}
static void check(bool core)
{
  CapBuf& out = to_cerr ? (CapBuf&)*err : (CapBuf&)*cap;
  sx_assert(!done, "the process terminates twice");
  done = true;
  sx_observe(out.data, out.n < 60 ? out.n : 60, "out");
  sx_assert(core == (kind != 0 && kind != 13), "terminated in the wrong way");
  if (phrase)
  {
    sx_assert(out.n >= want.n && memcmp(out.data, want.data, want.n) == 0, "the message has the wrong prefix");
    sx_assert(out.n && out.data[out.n - 1] == '\n', "the message is not complete");
    sx_assert(contains(out, phrase), "the message does not tell what is wrong");
  }
  else sx_assert(same(out, want), "the fatal message is not what was asked for");
  if (to_cerr) sx_assert(same(*cap, other), "something else was written to the debug stream than what precedes the fatal message");
  if (kind != 9 && kind != 10) sx_assert(out.flushes > 0 || to_cerr, "the fatal message was not flushed");
  sx_assert(!lck.held, "the stream lock is held while the process terminates");
  sx_cover(core ? "abort" : "exit");
  sx_done();
}
extern "C" void stub_abort() { check(true); }
extern "C" void stub__Exit(int code) { sx_assert(code == 180, "wrong exit code"); check(false); }
extern "C" int stub_nanosleep(struct timespec const*, struct timespec*) { return 0; }
extern "C" void stub__ZN6libcwd8Location20M_pc_location_createEPKvRNS_9_private_18ThreadSpecificDataE(void*, void const*, void*) { }

static char msg[2];
static int nested() { DFATAL(dc::core, msg[0] << msg[1]); return 0; }

#ifndef KINDS
#define KINDS 17
#endif
extern "C" void h_fatal()
{
  static Cap c, e;
  cap = &c; err = &e;
  capture_cerr(e);
  kind = sx_choice(KINDS, "kind");
  prior = sx_choice(4, "prior");
  locked = sx_choice(2, "lock");
  if (locked) { libcw_do.set_ostream(&c.os, &lck); lck.busy = sx_choice(3, "busy"); }
  else libcw_do.set_ostream(&c.os);
  sx_symbolic(msg, 2, "msg");
  Str con = {"<", 1}, coff = {">", 1};
  bool colors = sx_choice(2, "colors");
  if (colors) { libcw_do.color_on().assign(con.s, con.n); libcw_do.color_off().assign(coff.s, coff.n); }
  else con.n = coff.n = 0;
  int indent = 0;
  if (prior != 1) libcw_do.on();
  dc::notice.on();
  if (prior >= 2)
  {
    DOUT(dc::notice | continued_cf, "a");
    want.put(con.s, con.n); want.put("NOTICE  : a");
    if (prior == 3)
    {
      DOUT(dc::finish, "b");
      want.put("b"); want.put(coff.s, coff.n); want.put("\n");
    }
    else indent = 4;
  }
  auto prefix = [&](char const* label) {
    if (indent) { want.put(coff.s, coff.n); want.put("<unfinished>\n"); }
    want.put(con.s, con.n); want.put(label); want.put(": "); want.pad(indent);
  };
  auto whole = [&](char const* label) { prefix(label); want.put(msg[0]); want.put(msg[1]); want.put(coff.s, coff.n); want.put("\n"); };
  switch (kind)
  {
    case 0: whole("FATAL   "); DFATAL(dc::fatal, msg[0] << msg[1]); break;
    case 1: whole("COREDUMP"); DFATAL(dc::core, msg[0] << msg[1]); break;
    case 2:
      // Fatal while evaluating the arguments of another Dout.
      sx_assume(prior == 0 || prior == 3);
      indent += 4; want.put(con.s, con.n); want.put("COREDUMP:     "); want.put(msg[0]); want.put(msg[1]); want.put(coff.s, coff.n); want.put("\n");
      DOUT(dc::notice, "x" << nested());
      break;
    case 3:
      sx_assume(prior != 1);
      phrase = "Channel::on()"; prefix("COREDUMP");
      dc::notice.on();
      break;
    case 4: phrase = "pop_margin"; prefix("COREDUMP"); libcw_do.pop_margin(); break;
    case 5: phrase = "pop_marker"; prefix("COREDUMP"); libcw_do.pop_marker(); break;
    case 6:
      sx_assume(prior == 0 || prior == 3);
      phrase = "dc::continued"; want.put(coff.s, coff.n); want.put("\n"); prefix("COREDUMP");
      DOUT(dc::continued, "x");
      break;
    case 7:
      sx_assume(prior == 0 || prior == 3);
      phrase = "dc::finish"; prefix("COREDUMP");
      DOUT(dc::finish, "x");
      break;
    case 8: phrase = "> 16"; prefix("COREDUMP"); { static Channel ch("SEVENTEENLETTERSX"); } break;
    case 9:
    {
      // off() and on() not in pairs between force_on() and restore().
      Channel::OnOffState st;
      dc::system.force_on(st, "SYSTEM");
      dc::system.off();
      if (prior == 2) want.n = 0;
      dc::system.restore(st);
      break;
    }
    case 10:
    {
      DebugObject::OnOffState st;
      libcw_do.force_on(st);
      libcw_do.off();
      if (prior == 2) want.n = 0;
      libcw_do.restore(st);
      break;
    }
    case 11:
      // Only the fatal message itself goes to cerr.
      to_cerr = true;
      if (indent) { want.put(coff.s, coff.n); want.put("<unfinished>\n"); }
      other = want; want.n = 0;
      want.put(con.s, con.n); want.put("COREDUMP: "); want.pad(indent);
      want.put(msg[0]); want.put(msg[1]); want.put(coff.s, coff.n); want.put("\n");
      DFATAL(dc::core | cerr_cf, msg[0] << msg[1]);
      break;
    case 12: want.put(con.s, con.n); sx_assume(prior == 0); want.put(msg[0]); want.put(msg[1]); DFATAL(dc::core | noprefix_cf | nonewline_cf, msg[0] << msg[1]); break;
    // Fatal channels of the program, with labels that are padded, or that make the others longer.
    case 13: { static FatalChannel mine("TWELVELETTER", fatal_maskbit); whole("TWELVELETTER"); DFATAL(mine, msg[0] << msg[1]); break; }
    case 14: { static FatalChannel mine("MY", coredump_maskbit); whole("MY      "); DFATAL(mine, msg[0] << msg[1]); break; }
    case 15: { static FatalChannel mine("TWELVELETTER", fatal_maskbit); whole("COREDUMP    "); DFATAL(dc::core, msg[0] << msg[1]); break; }
    case 16:
    {
      static FatalChannel mine("MY", coredump_maskbit);
      static Channel wide("TWELVELETTER");
      whole("MY          ");
      DFATAL(mine, msg[0] << msg[1]);
      break;
    }
  }
  sx_fail("the process was not terminated");
}
