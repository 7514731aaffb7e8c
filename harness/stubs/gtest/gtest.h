#pragma once
#include "../framework.hpp"
namespace testing
{
	struct Message { template <class T> Message& operator<<(const T&) { return *this; } };
	struct AssertHelper { Facility f; void operator=(const Message&) const { use(f); } };
}
#define GTEST_MESSAGE_(f) ::testing::AssertHelper{f} = ::testing::Message()
#define GTEST_FAIL() return GTEST_MESSAGE_(Fail)
#define ADD_FAILURE() GTEST_MESSAGE_(Fail)
#define GTEST_SUCCEED() GTEST_MESSAGE_(Succeed)
#define FAIL() GTEST_FAIL()
#define SUCCEED() GTEST_SUCCEED()
#define GTEST_SKIP() return GTEST_MESSAGE_(Message)
