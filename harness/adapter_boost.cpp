// C19: the boost adapter
#include "adapters.hpp"
#include "mimic++/adapters/BoostTest.hpp"
ENTRY(boost_included) { routes<test_failed, BoostTestReporterT>(true, Message, Message); }
ENTRY(boost_installed) { routes<test_failed, BoostTestReporterT>(false, Message, Message); }
ENTRY(boost_warns) { warns<BoostTestReporterT>(Message); }
