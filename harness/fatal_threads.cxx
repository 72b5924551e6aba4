// Fatal output in several threads at the same time: for every schedule the process is terminated exactly once, by a thread whose
// message is complete, in the way that this thread asked for; the other threads do not go on and no line is mixed.
#include "dbg.h"
#include <atomic>
#include <mutex>
#ifndef NT
#define NT 2
#endif
#ifndef KINDS
#define KINDS 5
#endif
static thread_local bool owns;       // Does this thread own the lock?
struct Lock
{
  std::mutex m;
  void lock() { m.lock(); owns = true; }
  bool try_lock() { return owns = m.try_lock(); }
  void unlock() { sx_assert(owns, "unlock by a thread that does not own the lock"); owns = false; m.unlock(); }
};
static Lock* lck;
struct LCap : CapBuf
{
  void chk() { sx_assert(owns, "output is written without holding the lock"); }
  int_type overflow(int_type c) override { chk(); return CapBuf::overflow(c); }
  std::streamsize xsputn(char const* s, std::streamsize l) override { chk(); return CapBuf::xsputn(s, l); }
  int sync() override { chk(); return CapBuf::sync(); }
};
static LCap* cap;
static int kind[NT];
static thread_local int self = -1;
static void lines(int t, Text& w)
{
  char c = (char)('1' + t);
  if (kind[t] == 2 || kind[t] == 3) { w.put(c); w.put("NOTICE  : a\n"); }
  if (kind[t] == 1 || kind[t] == 3) { w.put(c); w.put("COREDUMP: b"); w.put(c); w.put("\n"); }
  if (kind[t] == 0 || kind[t] == 2) { w.put(c); w.put("FATAL   : b"); w.put(c); w.put("\n"); }
}
static std::atomic<int> terminating;
static void ended(bool core)
{
  int t = self;
  sx_assert(terminating.fetch_add(1) == 0, "two threads terminate the process");
  sx_yield();           // It takes a while.
  sx_assert(t >= 0, "terminated by a thread that did not ask for it");
  sx_assert(core == (kind[t] == 1 || kind[t] == 3 || kind[t] == 4), "the process is terminated in the wrong way");
  sx_assert(!owns, "the lock is held by the thread that terminates the process");
  lck->m.lock();
  // Take the output apart: each thread has written a part of its lines, this one all of them.
  Text w[NT];
  int pos[NT];
  for (int i = 0; i < NT; ++i) { lines(i, w[i]); pos[i] = 0; }
  for (int p = 0; p < cap->n; )
  {
    int i = cap->data[p] - '1';
    sx_assert(i >= 0 && i < NT && pos[i] < w[i].n, "output of nobody");
    while (p < cap->n && pos[i] < w[i].n)
    {
      sx_assert(cap->data[p] == w[i].data[pos[i]], "the lines of two threads are mixed");
      ++p;
      if (w[i].data[pos[i]++] == '\n') break;
    }
  }
  sx_assert(pos[t] == w[t].n, "the process is terminated while the fatal message is not complete");
  if (kind[t] != 4) sx_assert(cap->flushes > 0, "the message was not flushed");
  sx_cover(core ? "abort" : "exit");
  sx_done();
}
static std::mutex never;
extern "C" {
void stub_abort() { ended(true); }
void stub__Exit(int code) { sx_assert(code == 180, "wrong exit code"); ended(false); }
// A thread that sleeps because another thread terminates the process: it never comes back.
int stub_nanosleep(struct timespec const* t, struct timespec*)
{
  if (t->tv_sec < 3600) return 0;
  never.lock();        // Held by the main thread for ever.
  return 0;
}
int stub_clock_nanosleep(int, int, struct timespec const* t, struct timespec* r) { return stub_nanosleep(t, r); }
void stub__ZN6libcwd8Location20M_pc_location_createEPKvRNS_9_private_18ThreadSpecificDataE(void*, void const*, void*) { }
}

static void* run(void* p)
{
  int t = (int)(size_t)p;
  self = t;
  libcw_do.on();
  dc::notice.on();
  char c = (char)('1' + t);
  libcw_do.margin().assign(&c, 1);
  switch (kind[t])
  {
    case 0: DFATAL(dc::fatal, 'b' << c); break;
    case 1: DFATAL(dc::core, 'b' << c); break;
    case 2: DOUT(dc::notice, 'a'); DFATAL(dc::fatal, 'b' << c); break;
    case 3: DOUT(dc::notice, 'a'); DFATAL(dc::core, 'b' << c); break;
    case 4: core_dump(); break;
  }
  sx_fail("a thread goes on after a fatal error");
  return nullptr;
}

extern "C" void h_fatal_threads()
{
  static Lock l;
  lck = &l;
  static LCap c;
  cap = &c;
  static std::ostream os(&c);
  libcw_do.set_ostream(&os, &l);
  never.lock();
  int id[NT];
  for (int t = 0; t < NT; ++t) { kind[t] = sx_choice(KINDS, "kind"); }
  for (int t = 0; t < NT; ++t) id[t] = sx_thread_create(run, (void*)(size_t)t);
  for (int t = 0; t < NT; ++t) sx_thread_join(id[t]);
  sx_fail("the process was not terminated");
}
