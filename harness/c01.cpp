// C01: call limits.
#include "mimic++/mimic++.hpp"
#include "irx.hpp"
using namespace mimicpp;

// every history of accepted calls, for every pair of limits
ENTRY(limits_history)
{
	const int min = irx_int(-2147483648, 2147483647), max = irx_int(-2147483648, 2147483647);
	bool thrown = false;
	try
	{
		const detail::TimesConfig times = expect::times(min, max);
		ControlPolicy<> control{times, sequence::detail::Config<>{}};
		irx_assert(0 <= min && min <= max, "limits-accepted-only-if-valid");
		int count = 0;
		while (true)
		{
			irx_assert(control.is_satisfied() == (min <= count && count <= max), "satisfied-iff-within-limits");
			irx_assert(control.is_saturated() == (count == max), "saturated-iff-max");
			irx_assert(control.is_applicable() == (count < max), "applicable-iff-below-max");
			const control_state_t state = control.state();
			if (count == max)
			{
				irx_assert(std::holds_alternative<state_saturated>(state), "state-saturated");
				const auto& s = std::get<state_saturated>(state);
				irx_assert(s.min == min && s.max == max && s.count == count, "state-numbers");
				irx_reach("saturated");
				break;
			}
			irx_assert(std::holds_alternative<state_applicable>(state), "state-applicable");
			const auto& s = std::get<state_applicable>(state);
			irx_assert(s.min == min && s.max == max && s.count == count, "state-numbers");
			if (irx_bool()) { irx_reach("stopped"); break; }
			control.consume();
			++count;
			irx_reach("consumed");
		}
	}
	catch (const std::invalid_argument&)
	{
		thrown = true;
		irx_reach("rejected");
	}
	if (thrown)
		irx_assert(min < 0 || max < 0 || max < min, "limits-rejected-only-if-invalid");
}

template <typename Fn>
void check_config(Fn fn, int wantMin, int wantMax, bool valid)
{
	try
	{
		const detail::TimesConfig c = fn();
		irx_assert(valid, "invalid-rejected");
		irx_assert(c.min() == wantMin && c.max() == wantMax, "factory-limits");
		irx_reach("accepted");
	}
	catch (const std::invalid_argument&)
	{
		irx_assert(!valid, "valid-accepted");
		irx_reach("rejected");
	}
}

ENTRY(limits_factories)
{
	const int n = irx_int(-2147483648, 2147483647);
	check_config([&] { return expect::times(n); }, n, n, 0 <= n);
	check_config([&] { return expect::at_least(n); }, n, 2147483647, 0 <= n);
	check_config([&] { return expect::at_most(n); }, 0, n, 0 <= n);
	check_config([&] { return expect::once(); }, 1, 1, true);
	check_config([&] { return expect::twice(); }, 2, 2, true);
	check_config([&] { return detail::TimesConfig{}; }, 1, 1, true);
	const auto cfg = expect::times(1, 3);
	(void)cfg;
}
