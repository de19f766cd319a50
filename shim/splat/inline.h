#pragma once
#if defined(__cplusplus)
#   define FORCE_INLINE inline __attribute__((always_inline))
#else
#   define FORCE_INLINE inline __attribute__((always_inline))
#endif
#define NO_INLINE __attribute__((noinline))
