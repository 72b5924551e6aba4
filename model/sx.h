// Harness interface.  Symbolically executed: intrinsics of symx.  Natively compiled (replay): model/native.cxx.
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif
void sx_symbolic(void* p, size_t n, char const* name);
void sx_assume(int cond);
void sx_assert(int cond, char const* msg);
void sx_fail(char const* msg) __attribute__((noreturn));
void sx_cover(char const* what);
void sx_done(void) __attribute__((noreturn));
void sx_observe(void const* p, size_t n, char const* name);
void sx_note(char const* what);
void sx_note_u64(char const* what, uint64_t v);
uint64_t sx_concretize(uint64_t v);
int sx_symbolic_run(void);
int sx_thread_create(void* (*fn)(void*), void* arg);
void sx_thread_join(int t);
unsigned long sx_live_bytes(void);      // Only the difference of two values means something.
void sx_yield(void);
int sx_self(void);
#ifdef __cplusplus
}

// A fresh value of type T.
template<typename T>
inline T sx_any(char const* name) { T t; sx_symbolic(&t, sizeof(T), name); return t; }

// A fresh value in [lo, hi], kept symbolic.
inline int sx_range(int lo, int hi, char const* name)
{
  int v = sx_any<int>(name);
  sx_assume(v >= lo);
  sx_assume(v <= hi);
  return v;
}

// A fresh value in [0, n), one path per value.
inline int sx_choice(int n, char const* name)
{
  unsigned char v = sx_any<unsigned char>(name);
  sx_assume(v < n);
  return (int)sx_concretize(v);
}
#endif
