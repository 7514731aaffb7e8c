#pragma once
#include "../../framework.hpp"
#define BOOST_TEST_FAIL(...) (static_cast<void>(__VA_ARGS__), failing())
#define BOOST_FAIL(...) (static_cast<void>(__VA_ARGS__), failing())
#define BOOST_ERROR(...) (static_cast<void>(__VA_ARGS__), use(Fail))
#define BOOST_TEST_ERROR(...) (static_cast<void>(__VA_ARGS__), use(Fail))
#define BOOST_TEST_MESSAGE(...) (static_cast<void>(__VA_ARGS__), use(Message))
#define BOOST_TEST_REQUIRE(...) ((__VA_ARGS__) ? use(Succeed) : failing())
