// A reporter that records what it is told (installed like a user's own reporter), for analyses from the public interface.
#pragma once
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;

inline int n_none{}, n_inapp{}, n_full{}, n_unful{}, n_err{}, n_exc{};
struct unmatched {};                 // thrown from unmatched-call reports
struct Rep : IReporter
{
	void report_no_matches(CallReport, std::vector<MatchReport>) override { ++n_none; throw unmatched{}; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { ++n_inapp; throw unmatched{}; }
	void report_full_match(CallReport, MatchReport) noexcept override { ++n_full; }
	void report_unfulfilled_expectation(ExpectationReport) override { ++n_unful; }
	void report_error(StringT) override { ++n_err; }
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override { ++n_exc; }
};
inline int any_int() { return irx_int(-2147483647 - 1, 2147483647); }
// calls fn; 1 if it returned, 0 if the call was reported as unmatched
template <class Fn>
int matched(Fn&& fn)
{
	try { fn(); return 1; }
	catch (const unmatched&) { return 0; }
}
