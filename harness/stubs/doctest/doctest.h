#pragma once
#include "../framework.hpp"
namespace doctest { struct String {}; }
#define DOCTEST_FAIL(...) (static_cast<void>(__VA_ARGS__), failing())
#define DOCTEST_FAIL_CHECK(...) (static_cast<void>(__VA_ARGS__), use(Fail))
#define DOCTEST_REQUIRE_MESSAGE(cond, ...) (static_cast<void>(__VA_ARGS__), (cond) ? use(Succeed) : failing())
#define DOCTEST_CHECK_MESSAGE(cond, ...) (static_cast<void>(__VA_ARGS__), (cond) ? use(Succeed) : use(Fail))
#define DOCTEST_WARN_MESSAGE(cond, ...) (static_cast<void>(__VA_ARGS__), (cond) ? use(Succeed) : use(Warn))
#define DOCTEST_MESSAGE(...) (static_cast<void>(__VA_ARGS__), use(Message))
#define DOCTEST_INFO(...) static_cast<void>(__VA_ARGS__)
