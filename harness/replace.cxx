// Replacing the stream and the lock of a debug object while other threads write to it: for every schedule every line is written
// completely, to a stream that is set at that moment, under the lock that belongs to it; what was replaced is never used
// again after set_ostream returned; and nothing waits forever.
#include "dbg.h"
#include <mutex>
#include <atomic>
#ifndef WRITERS
#define WRITERS 1
#endif
#ifndef STMTS
#define STMTS 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef KINDS
#define KINDS 3
#endif

#ifdef UNLOCKS
extern "C" { __attribute__((used)) int sx_unlock_points = 1; }         // The moment before an unlock is a scheduling point too.
#endif

struct Lock
{
  std::mutex m;
  int owner = -1;
  bool replaced = false;        // set_ostream returned; the lock may be destroyed.
  void lock() { sx_assert(!replaced, "a lock is used after it was replaced"); m.lock(); owner = sx_self(); }
  bool try_lock() { sx_assert(!replaced, "a lock is used after it was replaced"); if (!m.try_lock()) return false; owner = sx_self(); return true; }
  void unlock() { sx_assert(owner == sx_self(), "unlock by a thread that does not own the lock"); owner = -1; m.unlock(); }
};
static int const NS = OPS + 1;
static Lock* lk;
static bool pairs[NS][NS];              // Which combinations of stream and lock were ever set.
struct LCap : CapBuf
{
  int nr = 0;
  bool replaced = false;
  void chk()
  {
    sx_assert(!replaced, "a stream is used after it was replaced");
    bool ok = false;
    for (int l = 0; l < NS; ++l)
      if (pairs[nr][l] && lk[l].owner == sx_self() && !lk[l].replaced) ok = true;
    sx_assert(ok, "output is written without holding the lock of the stream");
  }
  int_type overflow(int_type c) override { chk(); return CapBuf::overflow(c); }
  std::streamsize xsputn(char const* s, std::streamsize l) override { chk(); return CapBuf::xsputn(s, l); }
  int sync() override { chk(); return CapBuf::sync(); }
};
static LCap* cap;
static std::ostream* os[NS];
static int prog[WRITERS][STMTS];

static void* writer(void* p)
{
  int t = (int)(size_t)p;
  libcw_do.on();
  dc::notice.on();
  char m = (char)('1' + t);
  libcw_do.margin().assign(&m, 1);
  for (int i = 0; i < STMTS; ++i)
    switch (prog[t][i])
    {
      case 0: DOUT(dc::notice, (char)('a' + i)); break;
      case 1: DOUT(dc::notice | flush_cf, (char)('a' + i)); break;
      case 2: DOUT(dc::notice | continued_cf, (char)('a' + i)); DOUT(dc::finish, ""); break;
    }
  return nullptr;
}

static bool readers;
static void* reader(void*)
{
  // The application writes to the stream too.
  bool h = libcw_do.has_mutex();
  sx_assert(h, "has_mutex is wrong");
  lk[0].lock();
  std::ostream* o = libcw_do.get_ostream();
  h = libcw_do.has_mutex();
  sx_assert(h, "has_mutex is wrong");
  bool found = false;
  for (int s = 0; s < NS; ++s) if (o == os[s]) found = true;
  sx_assert(found, "get_ostream returns a stream that was never set");
  lk[0].unlock();
  sx_cover("read");
  return nullptr;
}

static int kind[OPS];
static void replace()
{
  int s = 0, l = 0;
  for (int i = 0; i < OPS; ++i)
  {
    int os_old = s, l_old = l;
    if (kind[i] != 2) s = i + 1;
    if (kind[i] != 1) l = i + 1;
    if (kind[i] == 1) libcw_do.set_ostream(os[s]);
    else libcw_do.set_ostream(os[s], &lk[l]);
    sx_assert(libcw_do.get_ostream() == os[s], "get_ostream does not return the new stream");
    if (s != os_old) cap[os_old].replaced = true;
    if (l != l_old) lk[l_old].replaced = true;
  }
}

extern "C" void h_replace()
{
  static Lock locks[NS];
  lk = locks;
  static LCap caps[NS];
  cap = caps;
  static std::ostream oss[NS] = { std::ostream(&caps[0]), std::ostream(&caps[1]),
#if OPS > 1
    std::ostream(&caps[2]),
#endif
#if OPS > 2
    std::ostream(&caps[3]),
#endif
  };
  for (int i = 0; i < NS; ++i) { caps[i].nr = i; os[i] = &oss[i]; }
  pairs[0][0] = true;
  libcw_do.set_ostream(os[0], &locks[0]);
  for (int i = 0; i < OPS; ++i) kind[i] = sx_choice(3, "op");
  for (int i = 0, s = 0, l = 0; i < OPS; ++i)
  {
    if (kind[i] != 2) s = i + 1;
    if (kind[i] != 1) l = i + 1;
    pairs[s][l] = true;
  }
  for (int t = 0; t < WRITERS; ++t)
    for (int i = 0; i < STMTS; ++i) prog[t][i] = sx_choice(KINDS, "stmt");
  int id[WRITERS];
  for (int t = 0; t < WRITERS; ++t) id[t] = sx_thread_create(writer, (void*)(size_t)t);
  replace();
  for (int t = 0; t < WRITERS; ++t) sx_thread_join(id[t]);
  // The streams together hold all lines.
  int next[WRITERS], used = 0;
  for (int t = 0; t < WRITERS; ++t) next[t] = 0;
  for (int s = 0; s < NS; ++s)
  {
    if (caps[s].n) ++used;
    sx_observe(caps[s].data, caps[s].n, "out");
    sx_assert(caps[s].n % 13 == 0, "a line is incomplete");
    for (int p = 0; p < caps[s].n; p += 13)
    {
      int t = caps[s].data[p] - '1';
      sx_assert(t >= 0 && t < WRITERS && next[t] < STMTS, "a line of nobody");
      Text w; w.put((char)('1' + t)); w.put("NOTICE  : "); w.put((char)('a' + next[t])); 
      sx_assert(memcmp(caps[s].data + p, w.data, w.n) == 0, "a line is mixed, lost or out of order");
      ++next[t];
    }
  }
  for (int t = 0; t < WRITERS; ++t) sx_assert(next[t] == STMTS, "a line was lost");
  for (int i = 0; i < NS; ++i) sx_assert(locks[i].owner == -1, "a lock is still held");
  if (used > 1) sx_cover("both");
  sx_cover("end");
}

// A recursive lock, that the application holds while it uses Dout.
struct RLock
{
  std::mutex m;
  std::atomic<int> owner{-1};
  int depth = 0;
  void lock() { if (owner != sx_self()) { m.lock(); owner = sx_self(); } ++depth; }
  bool try_lock() { if (owner != sx_self()) { if (!m.try_lock()) return false; owner = sx_self(); } ++depth; return true; }
  void unlock() { if (--depth == 0) { owner = -1; m.unlock(); } }
};
static RLock rl;
static void* holder(void* p)
{
  rl.lock();
  writer(p);
  rl.unlock();
  return nullptr;
}
extern "C" void h_held()
{
  static Cap c;
  libcw_do.set_ostream(&c.os, &rl);
  int a = sx_thread_create(writer, (void*)0), b = sx_thread_create(holder, (void*)1);
  sx_thread_join(a); sx_thread_join(b);
  sx_assert(c.n == 2 * 13 * STMTS, "output was lost");
  sx_cover("end");
}

// The lock is also used by the application, that looks at the debug object while it holds it.
extern "C" void h_shared()
{
  static Lock locks[NS];
  lk = locks;
  static LCap caps[NS];
  cap = caps;
  static std::ostream oss(&caps[0]);
  for (int i = 0; i < NS; ++i) { caps[i].nr = i; os[i] = &oss; }
  pairs[0][0] = true;
  libcw_do.set_ostream(os[0], &locks[0]);
  for (int i = 0; i < STMTS; ++i) prog[0][i] = sx_choice(KINDS, "stmt");
  int a = sx_thread_create(writer, (void*)0), b = sx_thread_create(reader, nullptr);
  sx_thread_join(a); sx_thread_join(b);
  sx_cover("end");
}
