// C19: the doctest adapter
#include "adapters.hpp"
#include "mimic++/adapters/Doctest.hpp"
ENTRY(doctest_included) { routes<test_failed, DoctestReporterT>(true, Succeed, Message); }
ENTRY(doctest_installed) { routes<test_failed, DoctestReporterT>(false, Succeed, Message); }
ENTRY(doctest_warns) { warns<DoctestReporterT>(Message); }
