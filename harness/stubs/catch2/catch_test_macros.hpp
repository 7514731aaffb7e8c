#pragma once
#include "../framework.hpp"
#if defined(CATCH_CONFIG_PREFIX_ALL)
#define CATCH_FAIL(...) (static_cast<void>(__VA_ARGS__), failing())
#define CATCH_FAIL_CHECK(...) (static_cast<void>(__VA_ARGS__), use(Fail))
#define CATCH_SUCCEED(...) (static_cast<void>(__VA_ARGS__), use(Succeed))
#define CATCH_REQUIRE(...) ((__VA_ARGS__) ? use(Succeed) : failing())
#else
#define FAIL(...) (static_cast<void>(__VA_ARGS__), failing())
#define FAIL_CHECK(...) (static_cast<void>(__VA_ARGS__), use(Fail))
#define SUCCEED(...) (static_cast<void>(__VA_ARGS__), use(Succeed))
#define REQUIRE(...) ((__VA_ARGS__) ? use(Succeed) : failing())
#endif
#if defined(CATCH_CONFIG_PREFIX_MESSAGES) || defined(CATCH_CONFIG_PREFIX_ALL)
#define CATCH_INFO(...) (static_cast<void>(__VA_ARGS__), use(Message))
#define CATCH_WARN(...) (static_cast<void>(__VA_ARGS__), use(Warn))
#else
#define INFO(...) (static_cast<void>(__VA_ARGS__), use(Message))
#define WARN(...) (static_cast<void>(__VA_ARGS__), use(Warn))
#endif
