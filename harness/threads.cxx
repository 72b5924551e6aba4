// Two threads that write debug output to the same stream under a user supplied lock: for every schedule each line holds
// output of one thread only, nothing is lost or reordered, interruptions are marked, the lock is held during every write
// and released afterwards.
#include "dbg.h"
#include <mutex>
#ifndef STMTS
#define STMTS 2
#endif
#ifndef KINDS
#define KINDS 3
#endif
#ifndef NT
#define NT 2
#endif
struct Lock
{
  std::mutex m;
  int owner = -1;
  void lock() { m.lock(); owner = sx_self(); }
  bool try_lock() { if (!m.try_lock()) return false; owner = sx_self(); return true; }
  void unlock() { sx_assert(owner == sx_self(), "unlock by a thread that does not own the lock"); owner = -1; m.unlock(); }
};
static Lock* lck;
struct LCap : CapBuf
{
  void chk() { sx_assert(lck->owner == sx_self(), "output is written without holding the lock"); }
  int_type overflow(int_type c) override { chk(); return CapBuf::overflow(c); }
  std::streamsize xsputn(char const* s, std::streamsize l) override { chk(); return CapBuf::xsputn(s, l); }
  int sync() override { chk(); return CapBuf::sync(); }
};

static int prog[NT][STMTS];
static char const first[3] = {'a', 'A', 'n'};

// Thread t uses margin '1' + t and the letters from first[t].
static void* thread_main(void* p)
{
  int t = (int)(size_t)p;
  char c = first[t];
  libcw_do.on();
  dc::notice.on();
  char m = (char)('1' + t);
  libcw_do.margin().assign(&m, 1);
  for (int i = 0; i < STMTS; ++i)
  {
    switch (prog[t][i])
    {
      case 0: DOUT(dc::notice, c); ++c; break;
      case 1: DOUT(dc::notice | continued_cf | flush_cf, c); ++c; DOUT(dc::finish, c); ++c; break;
      case 2: DOUT(dc::notice | nonewline_cf, c); ++c; DOUT(dc::notice | noprefix_cf, c); ++c; break;
      case 3: DOUT(dc::notice | continued_cf, c); ++c; DOUT(dc::notice, c); ++c; DOUT(dc::finish, c); ++c; break;
      case 4: DOUT(dc::notice | continued_cf | flush_cf, c); ++c; DOUT(dc::continued, c); ++c; DOUT(dc::finish, c); ++c; break;
      case 5: DOUT(dc::notice | nonewline_cf, c); ++c; break;
      case 6: DOUT(dc::notice | continued_cf | flush_cf, c); ++c; DOUT(dc::finish | nonewline_cf, ""); break;
    }
  }
  return nullptr;
}

extern "C" void h_threads()
{
  static Lock l;
  lck = &l;
  static LCap cap;
  static std::ostream os(&cap);
  libcw_do.set_ostream(&os, &l);
  int id[NT];
  for (int t = 0; t < NT; ++t)
    for (int i = 0; i < STMTS; ++i) { prog[t][i] = sx_choice(KINDS, "stmt"); sx_assume(prog[t][i] < 5 || i == STMTS - 1); }
  for (int t = 0; t < NT; ++t) id[t] = sx_thread_create(thread_main, (void*)(size_t)t);
  for (int t = 0; t < NT; ++t) sx_thread_join(id[t]);
  sx_observe(cap.data, cap.n, "out");
  sx_assert(l.owner == -1, "the lock is still held");
  // Parse the output.
  char next[NT];
  int pos = 0;
  bool open[NT], nonl[NT];        // An unfinished line of this thread that must be continued; a line without newline.
  for (int t = 0; t < NT; ++t) { next[t] = first[t]; open[t] = nonl[t] = false; }
  auto at = [&](char const* s) { int n = strlen(s); return pos + n <= cap.n && memcmp(cap.data + pos, s, n) == 0; };
  while (pos < cap.n)
  {
    int t = cap.data[pos] - '1';
    bool prefix = true;
    if (t < 0 || t >= NT || (++pos, !at("NOTICE  : ")))
    {
      // The rest of a nonewline_cf line, printed without prefix.
      for (t = NT - 1; t >= 0 && cap.data[pos] != next[t]; --t) ;
      sx_assert(t >= 0 && nonl[t], "a line without prefix");
      nonl[t] = false;
      prefix = false;
    }
    if (prefix) pos += 10;
    while (at("    ")) pos += 4;
    if (at("<continued> ")) { pos += 12; sx_assert(open[t], "<continued> without <unfinished>"); open[t] = false; sx_cover("continued"); }
    while (pos < cap.n)
    {
      if (cap.data[pos] == next[t]) { ++next[t]; ++pos; }
      else break;
    }
    if (at("<unfinished>\n")) { pos += 13; open[t] = true; }
    else if (at("<no newline>\n")) { pos += 13; nonl[t] = true; sx_cover("no newline"); }
    else if (pos == cap.n && prog[t][STMTS - 1] >= 5) break;
    else { sx_assert(pos < cap.n && cap.data[pos] == '\n', "output of different threads is mixed, lost or out of order"); ++pos; }
  }
  for (int t = 0; t < NT; ++t)
  {
    int n = 0;
    for (int i = 0; i < STMTS; ++i) n += prog[t][i] == 0 || prog[t][i] >= 5 ? 1 : prog[t][i] < 3 ? 2 : 3;
    sx_assert(next[t] == first[t] + n, "output was lost");
    sx_assert(!open[t] || prog[t][STMTS - 1] == 6, "an unfinished line was not continued");
  }
  sx_cover("end");
}
