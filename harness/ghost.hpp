// A reporter that only counts what it is told (installed like a user's own reporter).
#pragma once
#include "mimic++/mimic++.hpp"
#include "irx.hpp"

struct Ghost
{
	int no_match{}, inapplicable{}, full{}, unfulfilled{}, error{}, exception{};
	int sum() const { return no_match + inapplicable + full + unfulfilled + error + exception; }
};
inline Ghost ghost{};
struct unmatched {};                 // thrown from unmatched-call reports

struct GhostReporter : mimicpp::IReporter
{
	void report_no_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport>) override { ++ghost.no_match; throw unmatched{}; }
	void report_inapplicable_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport>) override { ++ghost.inapplicable; throw unmatched{}; }
	void report_full_match(mimicpp::CallReport, mimicpp::MatchReport) noexcept override { ++ghost.full; }
	void report_unfulfilled_expectation(mimicpp::ExpectationReport) override { ++ghost.unfulfilled; }
	void report_error(mimicpp::StringT) override { ++ghost.error; }
	void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override { ++ghost.exception; }
};
