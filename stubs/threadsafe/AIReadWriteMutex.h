// Environment model of the (absent) git submodule include/threadsafe: see DESIGN.md.
// A multiple readers / single writer lock; the operations are primitives of the symbolic executor and of the native
// replay run time, that are scheduling points and order the accesses they protect.
#pragma once
#include <exception>
#include <pthread.h>

extern "C" void sx_rwlock(int* state, int op);  // op: 0 rdlock, 1 rdunlock, 2 wrlock, 3 wrunlock, 4 rd2wrlock, 5 wr2rdlock

class AIReadWriteMutex
{
 private:
  int state_[2]{};                              // The number of readers; the writer plus one, or zero.
  pthread_mutex_t converting_ = PTHREAD_MUTEX_INITIALIZER; // Held while a reader waits to become the writer.

 public:
  void rdlock() { sx_rwlock(state_, 0); }
  void rdunlock() { sx_rwlock(state_, 1); }
  void wrlock() { sx_rwlock(state_, 2); }
  void wrunlock() { sx_rwlock(state_, 3); }
  // Two readers that both want to become the writer wait for each other: the second one must give up.
  struct Busy : std::exception { };
  void rd2wrlock()
  {
    if (pthread_mutex_trylock(&converting_) != 0) throw Busy();
    sx_rwlock(state_, 4);
    pthread_mutex_unlock(&converting_);
  }
  void wr2rdlock() { sx_rwlock(state_, 5); }
  // After giving up: wait for the other one.
  void rd2wryield() { pthread_mutex_lock(&converting_); pthread_mutex_unlock(&converting_); }
};
