// C19: what a test framework gets to see. Included once per adapter, with its reporter type, its way of failing and the facilities it has.
#include "irx.hpp"
#include "stubs/framework.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;
struct Throwing
{
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... P> static bool matches(const call::Info<R, P...>&) { throw 7; }
	template <class R, class... P> void consume(const call::Info<R, P...>&) {}
	static StringT describe() { return {}; }
};
struct Quiet : IReporter
{
	void report_no_matches(CallReport, std::vector<MatchReport>) override { throw 1; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { throw 1; }
	void report_full_match(CallReport, MatchReport) noexcept override {}
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(StringT) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
template <class Failure, class Reporter>
static void routes(bool included, int success, int warning)
{
	// either just including the header has installed it, or it is installed again later
	if (!included) { install_reporter<Quiet>(); install_reporter<Reporter>(); }
	const int k = irx_int(0, 4);
	used = facility = 0;
	int thrown = 0;
	Mock<void()> m{};
	if (k == 0)
	{
		try { m(); } catch (const Failure&) { ++thrown; }
		irx_assert(thrown == 1 && used == 1 && facility == Fail, "failures-fail-the-test-once");
		irx_reach("none");
	}
	else if (k == 1)
	{
		ScopedExpectation e = m.expect_call() and expect::times(0);
		try { m(); } catch (const Failure&) { ++thrown; }
		irx_assert(thrown == 1 && used == 1 && facility == Fail, "failures-fail-the-test-once");
		irx_reach("inapplicable");
	}
	else if (k == 2)
	{
		ScopedExpectation e = m.expect_call();
		m();
		irx_assert(used == 1 && facility == success, "matches-succeed-once");
		irx_reach("full");
	}
	else if (k == 3)
	{
		try { ScopedExpectation e = m.expect_call(); } catch (const Failure&) { ++thrown; }
		irx_assert(thrown == 1 && used == 1 && facility == Fail, "failures-fail-the-test-once");
		irx_reach("unfulfilled");
	}
	else
	{
		ScopedExpectation e = m.expect_call() and Throwing{} and expect::times(0, 1);
		try { m(); } catch (const Failure&) { ++thrown; }
		irx_assert(thrown == 1 && facility == Fail && used == (warning ? 2 : 1), "exceptions-only-warn");
		irx_reach("unhandled");
	}
	irx_stop();
}
template <class Reporter>
static void warns(int warning)
{
	install_reporter<Reporter>();
	used = facility = 0;
	bool back = true;
	try { throw 7; }
	catch (...)
	{
		try { detail::report_unhandled_exception(CallReport{.returnTypeIndex = typeid(int)}, ExpectationReport{}, std::current_exception()); } catch (...) { back = false; }
	}
	irx_assert(back, "exceptions-only-warn");
	irx_assert(used == (warning ? 1 : 0) && facility == warning, "exceptions-only-warn");
	irx_reach("done");
	irx_stop();
}
