#pragma once
#include <stdlib.h>
#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
#define assert(x) ((x) ? (void)0 : abort())
#endif
#ifndef static_assert
#define static_assert _Static_assert
#endif
