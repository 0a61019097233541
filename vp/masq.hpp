#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <new>
#include <limits>
#include <chrono>
#include <ratio>
#include <type_traits>
#include <utility>
#include <iosfwd>
#include <algorithm>
#include <atomic>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cfloat>
#include <float.h>
#include <cassert>
#include <string>
#include <immintrin.h>
#if __cplusplus >= 202002L
#include <bit>
#include <version>
#endif
#include <utility>
#include <thread>
#include <mutex>
/* what g++ 13 answers to __has_builtin for every name Boost asks about */
#undef __has_builtin
#define __has_builtin(x) VP_HB_##x
#define VP_HB___builtin_addressof 1
#define VP_HB___builtin_bit_cast 1
#define VP_HB___builtin_clear_padding 1
#define VP_HB___builtin_constant_p 1
#define VP_HB___builtin_expect 1
#define VP_HB___builtin_memcmp 1
#define VP_HB___builtin_memcpy 1
#define VP_HB___builtin_memset 1
#define VP_HB___builtin_unreachable 1
#define VP_HB___is_nothrow_assignable 1
#define VP_HB___is_nothrow_constructible 1
#define VP_HB___is_trivially_assignable 1
#define VP_HB___is_trivially_constructible 1
#define VP_HB___is_trivially_copyable 1
/* clang 18 lacks __builtin_clear_padding: types with padding have explicit specialisations in the harness */
template<class T> void vp_clear_padding(T*) noexcept { static_assert(__has_unique_object_representations(T) || std::is_same<T, float>::value || std::is_same<T, double>::value, "padding unknown"); }
#define __builtin_clear_padding(p) vp_clear_padding(p)
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
