// The debug.h of an application, which utils/AIRefCount.h includes.
#pragma once
#include <libcwd/debug.h>
#if NODEBUG
#undef CW_DEBUG
#define CW_DEBUG 0
#define ASSERT(...) do { } while (0)
#define DEBUG_ONLY(x)
#else
#define ASSERT(...) sx_assert(__VA_ARGS__, "a reference count is wrong")
#define DEBUG_ONLY(x) x
#endif
