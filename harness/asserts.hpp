// Force-included. Library assertions about sizes and indices stay active (Eigen, boost), while the
// third-party asserts about finite QP residuals (proxsuite) are off, as in the release build.
#pragma once
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
[[noreturn]] inline void mimv_assert_failed(const char* what, const char* file, int line) {
  std::printf("\nASSERTION %s (%s:%d)\n", what, file, line);
  std::fflush(stdout);
  std::abort();
}
#define eigen_assert(x) ((x) ? (void)0 : mimv_assert_failed(#x, __FILE__, __LINE__))
#define BOOST_ENABLE_ASSERT_HANDLER
#define BOOST_CB_ENABLE_DEBUG 1
namespace boost {
inline void assertion_failed(char const* expr, char const*, char const* file, long line) { mimv_assert_failed(expr, file, (int)line); }
inline void assertion_failed_msg(char const* expr, char const*, char const*, char const* file, long line) { mimv_assert_failed(expr, file, (int)line); }
}  // namespace boost
#endif
