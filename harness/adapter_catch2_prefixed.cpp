#define CATCH_CONFIG_PREFIX_ALL
// C19: the catch2 adapter
#include "adapters.hpp"
#include "mimic++/adapters/Catch2.hpp"
ENTRY(catch2_prefixed_included) { routes<test_failed, Catch2ReporterT>(true, Succeed, Warn); }
ENTRY(catch2_prefixed_installed) { routes<test_failed, Catch2ReporterT>(false, Succeed, Warn); }
ENTRY(catch2_prefixed_warns) { warns<Catch2ReporterT>(Warn); }
