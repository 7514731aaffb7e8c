// C19: the gtest adapter
#include "adapters.hpp"
#include "mimic++/adapters/gtest.hpp"
ENTRY(gtest_included) { routes<detail::gtest::failure, GTestReporterT>(true, Succeed, 0); }
ENTRY(gtest_installed) { routes<detail::gtest::failure, GTestReporterT>(false, Succeed, 0); }
ENTRY(gtest_warns) { warns<GTestReporterT>(0); }
