// C19: reports reach the installed reporter, and the built-in reporters keep their control flow promises.
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
#include <optional>
using namespace mimicpp;

enum Kind { None = 1, Inapp, Full, Unful, Exc, Err };
struct unmatched { int by; };
struct Boom { int id; };
static int alive{}, heard{}, kind{}, by{}, boom{};
struct Tagged : IReporter
{
	int id;
	explicit Tagged(int i) : id{i} { ++alive; }
	~Tagged() override { --alive; id = -1; }
	void take(Kind k) const { ++heard; kind = k; by = id; }
	void report_no_matches(CallReport, std::vector<MatchReport>) override { take(None); throw unmatched{id}; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { take(Inapp); throw unmatched{id}; }
	void report_full_match(CallReport, MatchReport) noexcept override { take(Full); }
	void report_unfulfilled_expectation(ExpectationReport) override { take(Unful); }
	void report_error(StringT) override { take(Err); }
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr e) override
	{
		take(Exc);
		try { std::rethrow_exception(e); } catch (const Boom& b) { boom = b.id; }
	}
};
struct Other final : Tagged { using Tagged::Tagged; };
struct Throwing
{
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... P> static bool matches(const call::Info<R, P...>&) { throw Boom{7}; }
	template <class R, class... P> void consume(const call::Info<R, P...>&) {}
	static StringT describe() { return {}; }
};
// one report of the given kind; the number of the reporter whose exception came back, or 0
static int provoke(int k)
{
	try
	{
		if (k == None) { Mock<void()> m{}; m(); }
		if (k == Inapp) { Mock<void()> m{}; ScopedExpectation e = m.expect_call() and expect::times(0); m(); }
		if (k == Full) { Mock<void()> m{}; ScopedExpectation e = m.expect_call(); m(); }
		if (k == Unful) { Mock<void()> m{}; ScopedExpectation e = m.expect_call(); }
		if (k == Err) { Mock<void()> m{}; LazySequence s{}; ScopedExpectation e = m.expect_call() and expect::in_sequence(s); }
		if (k == Exc) { Mock<void()> m{}; ScopedExpectation e = m.expect_call() and expect::times(0, 1) and Throwing{}; m(); }
	}
	catch (const unmatched& u) { return u.by; }
	return 0;
}
static void check(int k, int last)
{
	heard = kind = by = 0;
	const int thrown = provoke(k);
	irx_assert(by == last, "the-most-recent-one");
	if (k == Err) irx_assert(heard == 2 && kind == Err, "exactly-once");             // the expectation's own failure and the sequence's
	else if (k == Exc) irx_assert(heard == 2 && boom == 7 && kind == None, "exactly-once");
	else irx_assert(heard == 1 && kind == k, "exactly-once");
	irx_assert(thrown == (k == None || k == Inapp || k == Exc ? last : 0), "its-failure-comes-back");
	irx_assert(alive == 1, "previous-one-destroyed");
}
ENTRY(routing_history)
{
	// any number of replacements, of different types, then any report
	const int n = irx_int(1, 1000000);
	int last = 0;
	for (int i = 0; i < n; ++i)
	{
		last = irx_int(1, 1000);
		if (irx_bool()) install_reporter<Tagged>(last);
		else install_reporter<Other>(last);
		irx_assert(alive == 1, "previous-one-destroyed");
	}
	const int k = irx_int(None, Err);
	if (k == None) { check(None, last); irx_reach("none"); }
	else if (k == Inapp) { check(Inapp, last); irx_reach("inapplicable"); }
	else if (k == Full) { check(Full, last); irx_reach("full"); }
	else if (k == Unful) { check(Unful, last); irx_reach("unfulfilled"); }
	else if (k == Exc) { check(Exc, last); irx_reach("exception"); }
	else { check(Err, last); irx_reach("error"); }
	irx_stop();
}
ENTRY(routing_between)
{
	// the reporter is looked up when the report is made, not when the mock, expectation or sequence was created
	install_reporter<Tagged>(1);
	Mock<void()> m{};
	std::optional<ScopedExpectation> e{};
	e.emplace(m.expect_call());
	install_reporter<Tagged>(2);
	heard = 0;
	const bool called = irx_bool();
	if (called) { m(); irx_assert(heard == 1 && kind == Full && by == 2, "the-most-recent-one"); }
	install_reporter<Other>(3);
	heard = 0;
	if (called)
	{
		try { m(); irx_assert(false, "its-failure-comes-back"); } catch (const unmatched& u) { irx_assert(u.by == 3, "its-failure-comes-back"); }
		irx_assert(heard == 1 && kind == Inapp && by == 3, "the-most-recent-one");
		heard = 0;
		e.reset();
		irx_assert(heard == 0, "nothing-to-report");
		irx_reach("called");
	}
	else
	{
		e.reset();
		irx_assert(heard == 1 && kind == Unful && by == 3, "the-most-recent-one");
		irx_reach("not-called");
	}
	irx_stop();
}

// ---- the built-in reporters
static int fails{}, warns{}, succ{};
struct Failed { int n; };
static void on_success(const StringT&) { ++succ; }
static void on_warning(const StringT&) { ++warns; }
[[noreturn]] static void on_fail(const StringT&) { ++fails; throw Failed{fails}; }
using Basic = BasicReporter<&on_success, &on_warning, &on_fail>;

template <class Fn> struct AtExit { Fn fn; ~AtExit() { fn(); } };
template <class Fn> AtExit(Fn) -> AtExit<Fn>;
struct Outer {};
// runs fn while another exception is in flight; whether it came through
template <class Fn>
static bool in_flight(Fn fn)
{
	try { AtExit guard{fn}; throw Outer{}; }
	catch (const Outer&) { return true; }
	return false;
}
static void install_default()
{
	if (irx_bool()) install_reporter<DefaultReporter>();
	else install_reporter<DefaultReporter>(&std::cerr);
}
static bool same_loc(const std::source_location& a, const std::source_location& b)
{
	return a.line() == b.line() && a.column() == b.column() && a.file_name() == b.file_name() && a.function_name() == b.function_name();
}
// is the initial reporter a failing one as well?
ENTRY(default_installed)
{
	Mock<void()> m{};
	int thrown = 0;
	try { m(); } catch (const UnmatchedCallT&) { ++thrown; }
	irx_assert(thrown == 1, "unmatched-never-returns");
	irx_reach("done");
	irx_stop();
}
ENTRY(default_unmatched)
{
	install_default();
	Mock<void(int)> m{};
	std::optional<ScopedExpectation> e{}, f{};
	const int has = irx_int(0, 2);
	if (has >= 1) e.emplace(m.expect_call(matches::eq(1)) and expect::times(0));
	if (has >= 2) f.emplace(m.expect_call(matches::eq(2)) and expect::times(0));
	const int arg = irx_int(0, 2);
	const std::source_location here = std::source_location::current();
	int thrown = 0;
	try { m(arg, here); irx_assert(false, "unmatched-never-returns"); }
	catch (const UnmatchedCallT& err)
	{
		++thrown;
		irx_assert(same_loc(err.where(), here), "where");
		const auto& [call, matches] = err.data();
		irx_assert(same_loc(call.fromLoc, here), "carries-the-call");
		const bool inapp = has >= arg && arg > 0;
		irx_assert(static_cast<int>(matches.size()) == (inapp ? 1 : has), "carries-the-expectations");
		if (inapp) irx_reach("inapplicable"); else irx_reach("none");
	}
	irx_assert(thrown == 1, "unmatched-never-returns");
	irx_stop();
}
ENTRY(default_unmatched_in_flight)
{
	// even then the call must not return
	install_default();
	Mock<void()> m{};
	std::optional<ScopedExpectation> e{};
	if (irx_bool()) e.emplace(m.expect_call() and expect::times(0));
	int thrown = 0;
	const bool through = in_flight([&] { try { m(); } catch (const UnmatchedCallT&) { ++thrown; } });
	irx_assert(thrown == 1, "unmatched-never-returns");
	irx_assert(through, "other-exception-continues");
	irx_reach("done");
	irx_stop();
}
ENTRY(default_full)
{
	install_default();
	Mock<void()> m{};
	const int lo = irx_int(0, 3), hi = irx_int(1, 3), calls = irx_int(1, 3);
	irx_assume(lo <= hi); irx_assume(calls <= hi);
	ScopedExpectation e = m.expect_call() and expect::times(lo, hi);
	irx_assume(lo <= calls);
	bool back = true;
	try
	{
		for (int i = 0; i < calls; ++i)
		{
			if (irx_bool()) m();
			else back = back && in_flight([&] { m(); });
		}
	}
	catch (...) { back = false; }
	irx_assert(back, "full-match-never-throws");
	irx_reach("done");
	irx_stop();
}
ENTRY(default_unfulfilled)
{
	install_default();
	Mock<void()> m{};
	const bool flying = irx_bool();
	int thrown = 0;
	auto die = [&] {
		try { ScopedExpectation e = m.expect_call(); }
		catch (const UnfulfilledExpectationT& err) { ++thrown; irx_assert(err.data().expectationDescriptions.size() >= 2 && err.data().sourceLocation.has_value(), "carries-the-expectation"); }
	};
	if (flying)
	{
		irx_assert(in_flight(die), "other-exception-continues");
		irx_assert(thrown == 0, "none-in-flight");
		irx_reach("in-flight");
	}
	else
	{
		die();
		irx_assert(thrown == 1, "one-failure");
		irx_reach("raised");
	}
	irx_stop();
}
ENTRY(default_unfulfilled_scope)
{
	// several unsatisfied ones dying together: one failure
	install_default();
	int thrown = 0;
	try
	{
		Mock<void()> m{};
		ScopedExpectation a = m.expect_call(), b = m.expect_call(), c = m.expect_call();
		const int n = irx_int(0, 2);
		for (int i = 0; i < n; ++i) m();
	}
	catch (const UnfulfilledExpectationT&) { ++thrown; }
	irx_assert(thrown == 1, "one-failure");
	// a failing call leaves its own failure, not those of the expectations its unwinding destroys
	int unmatched_calls = 0;
	try
	{
		Mock<void(int)> m{};
		ScopedExpectation a = m.expect_call(1), b = m.expect_call(2);
		m(3);
	}
	catch (const UnmatchedCallT&) { ++unmatched_calls; }
	irx_assert(unmatched_calls == 1, "first-failure-wins");
	irx_reach("done");
	irx_stop();
}
ENTRY(default_errors)
{
	install_default();
	const bool flying = irx_bool();
	int thrown = 0;
	auto fail = [&] { try { detail::report_error(StringT{}); } catch (const Error<>&) { ++thrown; } };
	if (flying)
	{
		irx_assert(in_flight(fail), "other-exception-continues");
		irx_assert(thrown == 0, "none-in-flight");
		irx_reach("in-flight");
	}
	else
	{
		fail();
		irx_assert(thrown == 1, "one-failure");
		irx_reach("raised");
	}
	irx_stop();
}
ENTRY(default_sequence_error)
{
	// an unfulfilled sequence is a failure like any other
	install_default();
	Mock<void()> m{};
	int thrown = 0, unful = 0;
	try
	{
		LazySequence s{};
		try { ScopedExpectation e = m.expect_call() and expect::in_sequence(s); }
		catch (const UnfulfilledExpectationT&) { ++unful; }
	}
	catch (const Error<>&) { ++thrown; }
	irx_assert(unful == 1 && thrown == 1, "one-failure");
	irx_reach("raised");
	irx_stop();
}
ENTRY(default_exceptions)
{
	// only a warning; the search for an expectation goes on
	install_default();
	Mock<void()> m{};
	ScopedExpectation f = m.expect_call();
	ScopedExpectation e = m.expect_call() and Throwing{} and expect::times(0, 1);
	bool back = true;
	try { m(); } catch (...) { back = false; }
	irx_assert(back, "merely-warns");
	irx_reach("done");
	irx_stop();
}
ENTRY(basic_unmatched)
{
	install_reporter<Basic>();
	Mock<void()> m{};
	std::optional<ScopedExpectation> e{};
	if (irx_bool()) e.emplace(m.expect_call() and expect::times(0));
	int thrown = 0;
	auto call = [&] { try { m(); } catch (const Failed&) { ++thrown; } };
	if (irx_bool()) irx_assert(in_flight(call), "other-exception-continues");
	else call();
	irx_assert(thrown == 1 && fails == 1 && warns == 0 && succ == 0, "unmatched-fails-once");
	irx_reach("done");
	irx_stop();
}
ENTRY(basic_full)
{
	install_reporter<Basic>();
	Mock<void()> m{};
	ScopedExpectation e = m.expect_call() and expect::times(1, 1000000);
	const int n = irx_int(1, 1000000);
	for (int i = 0; i < n; ++i) m();
	irx_assert(fails == 0 && warns == 0 && succ == n, "each-match-succeeds-once");
	irx_reach("done");
	irx_stop();
}
ENTRY(basic_unfulfilled)
{
	install_reporter<Basic>();
	Mock<void()> m{};
	int thrown = 0;
	const bool unful = irx_bool();
	auto die = [&] { try { if (unful) { ScopedExpectation e = m.expect_call(); } else detail::report_error(StringT{}); } catch (const Failed&) { ++thrown; } };
	if (irx_bool())
	{
		irx_assert(in_flight(die), "other-exception-continues");
		irx_assert(thrown == 0 && fails == 0 && warns == 0 && succ == 0, "none-in-flight");
		irx_reach("in-flight");
	}
	else
	{
		die();
		irx_assert(thrown == 1 && fails == 1 && warns == 0 && succ == 0, "one-failure");
		irx_reach("raised");
	}
	irx_stop();
}
ENTRY(basic_exceptions)
{
	install_reporter<Basic>();
	Mock<void()> m{};
	ScopedExpectation f = m.expect_call();
	ScopedExpectation e = m.expect_call() and Throwing{} and expect::times(0, 1);
	m();
	irx_assert(warns == 1 && succ == 1 && fails == 0, "merely-warns");
	irx_reach("done");
	irx_stop();
}
