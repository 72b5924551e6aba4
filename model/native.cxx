// Native run-time of the harnesses: replays one assignment of the symbolic inputs against the real build.
//   prog ENTRY INPUTS [OBS]
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>

struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In>* ins;
static size_t inpos;
static FILE* obs;

static void say(char const* what, char const* msg)
{
  fprintf(stderr, "%s %s\n", what, msg);
  fflush(stderr);
}

static In const* next_in(char const* name, size_t n)
{
  if (inpos >= ins->size()) { say("SX-DIVERGED", "no more inputs"); if (obs) fflush(obs); _exit(78); }
  In const& i = (*ins)[inpos++];
  if (i.name != name || i.b.size() != n) { say("SX-DIVERGED", (i.name + " / " + name).c_str()); if (obs) fflush(obs); _exit(78); }
  return &i;
}

static void obsname(char const* n) { for (; *n; ++n) fputc(*n == ' ' ? '_' : *n, obs); }

extern "C" {
void sx_symbolic(void* p, size_t n, char const* name)
{
  In const* i = next_in(name, n);
  memcpy(p, i->b.data(), n);
}
void sx_assume(int c) { if (!c) { say("SX-DIVERGED", "assumption"); if (obs) fflush(obs); _exit(78); } }
void sx_assert(int c, char const* msg) { if (!c) sx_fail(msg); }
void sx_fail(char const* msg) { say("SX-ASSERT", msg); if (obs) fflush(obs); _exit(77); }
void sx_cover(char const* what) { if (obs) { obsname(what); fprintf(obs, " \n"); } }
void sx_observe(void const* p, size_t n, char const* name)
{
  if (!obs) return;
  obsname(name); fputc(' ', obs);
  for (size_t i = 0; i < n; ++i) fprintf(obs, "%02x", ((unsigned char const*)p)[i]);
  fputc('\n', obs);
}
void sx_done(void) { if (obs) fflush(obs); _exit(0); }
void sx_native_exit(int) { sx_done(); }
void sx_native__exit(int) { sx_done(); }
void sx_note(char const* w) { say("SX-NOTE", w); }
void sx_note_u64(char const* w, uint64_t v) { fprintf(stderr, "SX-NOTE %s = %lu\n", w, v); }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_symbolic_run(void) { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
int sx_valid(void const*, size_t) { return 1; }

// ---- threads: the recorded schedule
struct Thr { bool done = false; pthread_mutex_t* waitMutex = nullptr; int* rw = nullptr; int waitRW = -1; int waitJoin = -1; void* (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t t; };
static std::vector<Thr*> th __attribute__((init_priority(101))) (1, new Thr);
static int cur;
static thread_local int self;
static thread_local bool running;       // In main, or the function or destructors of thread_local objects of another thread.
static pthread_key_t endkey;

// The turns are taken without synchronisation that a race detector can see.
extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
static void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void* p) { if (__tsan_release) __tsan_release(p); }
static void wait_turn()
{
  while (__atomic_load_n(&cur, __ATOMIC_RELAXED) != self) sched_yield();
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
static bool runnable(int t)
{
  Thr& T = *th[t];
  if (T.done) return false;
  if (T.waitMutex && T.waitMutex->__data.__lock) return false;
  if (T.rw && (T.waitRW == 0 ? T.rw[1] != 0 : T.waitRW == 2 ? (T.rw[0] || T.rw[1]) : (T.rw[1] || T.rw[0] != 1))) return false;
  if (T.waitJoin >= 0 && !th[T.waitJoin]->done) return false;
  return true;
}
static void schedule(bool wait = true)
{
  std::vector<int> r;
  for (int t = 0; t < (int)th.size(); ++t) if (runnable(t)) r.push_back(t);
  if (r.empty()) { say("SX-DEADLOCK", "no runnable thread"); if (obs) fflush(obs); _exit(76); }
  int n = r[0];
  if (r.size() > 1) n = next_in("sched", 1)->b[0];
  if (n >= (int)th.size() || !runnable(n)) { say("SX-DIVERGED", "schedule"); _exit(78); }
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  __atomic_store_n(&cur, n, __ATOMIC_RELAXED);
  if (wait) wait_turn();
}
static void thread_end(void*)
{
  rel(th[self]);
  th[self]->done = true;
  running = false;
  schedule(false);
}
static void* thread_main(void* p)
{
  self = (int)(size_t)p;
  wait_turn();
  pthread_setspecific(endkey, (void*)1);
  running = true;
  th[self]->fn(th[self]->arg);
  return nullptr;
}
int sx_thread_create(void* (*fn)(void*), void* arg)
{
  if (th.size() == 1) pthread_key_create(&endkey, thread_end);
  int id = th.size();
  Thr* t = new Thr;
  t->fn = fn; t->arg = arg;
  th.push_back(t);
  pthread_create(&t->t, nullptr, thread_main, (void*)(size_t)id);
  return id;
}
void sx_thread_join(int t)
{
  while (!th[t]->done) { th[self]->waitJoin = t; schedule(); }
  th[self]->waitJoin = -1;
  acq(th[t]);
}
void sx_atomic(void const*, int) { if (th.size() > 1) schedule(); }
int __sanitizer_install_malloc_and_free_hooks(void (*)(void const volatile*, size_t), void (*)(void const volatile*)) __attribute__((weak));
size_t __sanitizer_get_allocated_size(void const volatile*) __attribute__((weak));
static volatile unsigned long live;
static bool counts() { return running; }
static void count_malloc(void const volatile*, size_t n) { if (counts()) __atomic_fetch_add(&live, n, __ATOMIC_RELAXED); }
static void count_free(void const volatile* p) { if (p && counts()) __atomic_fetch_sub(&live, __sanitizer_get_allocated_size(p), __ATOMIC_RELAXED); }
unsigned long sx_live_bytes(void)
{
  static bool installed;
  if (!installed && __sanitizer_install_malloc_and_free_hooks) { installed = true; __sanitizer_install_malloc_and_free_hooks(count_malloc, count_free); }
  return live;
}
void sx_yield(void) { if (th.size() > 1) schedule(); }
int sx_self(void) { return self; }

int sx_pthread_mutex_lock(pthread_mutex_t* m)
{
  auto& d = m->__data;
  if (d.__lock && d.__owner == self + 1)
  {
    if (d.__kind == 1) { ++d.__count; return 0; }
    say("SX-DEADLOCK", "mutex locked twice by the same thread");
    if (obs) fflush(obs);
    _exit(76);
  }
  th[self]->waitMutex = m;
  if (th.size() > 1) schedule();
  else if (d.__lock) { say("SX-DEADLOCK", "no runnable thread"); if (obs) fflush(obs); _exit(76); }
  th[self]->waitMutex = nullptr;
  d.__lock = 1; d.__owner = self + 1;
  acq(m);
  return 0;
}
void sx_rwlock(int* m, int op)
{
  auto bad = [](char const* t) { say("SX-DEADLOCK", t); if (obs) fflush(obs); _exit(76); };
  if (op == 0 || op == 2 || op == 4)
  {
    th[self]->rw = m; th[self]->waitRW = op;
    if (th.size() > 1) schedule();
    else if (!runnable(self)) bad("no runnable thread (read/write lock)");
    th[self]->rw = nullptr;
    if (op == 0) ++m[0];
    else { m[0] = 0; m[1] = self + 1; }
    acq(m);
    if (op) acq(m + 1);
  }
  else
  {
    if (op == 1 ? !m[0] : m[1] != self + 1) bad("unlock of a read/write lock that is not owned");
    rel(op == 1 ? m + 1 : m);
    if (op == 1) --m[0];
    else { m[1] = 0; if (op == 5) m[0] = 1; }
  }
}
extern int sx_unlock_points __attribute__((weak));
int sx_pthread_mutex_trylock(pthread_mutex_t* m)
{
  auto& d = m->__data;
  if (th.size() > 1) schedule();
  if (d.__lock)
  {
    if (d.__kind == 1 && d.__owner == self + 1) { ++d.__count; return 0; }
    return 16;
  }
  d.__lock = 1; d.__owner = self + 1;
  acq(m);
  return 0;
}
int sx_pthread_mutex_unlock(pthread_mutex_t* m)
{
  auto& d = m->__data;
  if (!d.__lock || d.__owner != self + 1) { say("SX-DEADLOCK", "unlock of a mutex that is not owned"); if (obs) fflush(obs); _exit(76); }
  if (!d.__count && &sx_unlock_points && th.size() > 1) schedule();
  if (d.__count) --d.__count;
  else { rel(m); d.__lock = 0; d.__owner = 0; }
  return 0;
}
}

// Runs before every other constructor: static constructors of the code under test may call stubs that read inputs.
__attribute__((constructor(101))) static void setup(int argc, char** argv)
{
  ins = new std::vector<In>;
  if (argc > 2)
  {
    FILE* f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); _exit(70); }
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0)
    {
      while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
      if (!n || line[0] == '#') continue;
      char* sp = strchr(line, ' ');
      if (!sp) continue;
      In i; i.name.assign(line, sp - line);
      for (char* q = sp + 1; q[0] && q[1]; q += 2) { char t[3] = {q[0], q[1], 0}; i.b.push_back((unsigned char)strtoul(t, nullptr, 16)); }
      ins->push_back(i);
    }
    free(line);
    fclose(f);
  }
  if (argc > 3) obs = fopen(argv[3], "w");
  if (obs) { static char buf[4096]; setvbuf(obs, buf, _IOFBF, sizeof(buf)); }
}

int main(int argc, char** argv)
{
  if (argc < 2) return 70;
  running = true;
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 70; }
  e();
  if (obs) fflush(obs);
  fflush(stdout);
  _exit(0);
}
