// C20: when the storage of the live expectations is touched, and which locks are held when user code runs.
#include "dispatch.hpp"
#include <memory>

// the collection's own bytes and the array it owns are only accessed while a mutex inside it is held
static void guard(const Coll& c) { irx_guard(&c, sizeof(Coll), nullptr); }
// arbitrarily many expectations, each with an arbitrary verdict
static void fill(Coll& c)
{
	install_reporter<DispatchReporter>();
	for (const Verdict v : {NONE, INAPP, FULL, THROWS}) c.push(std::make_shared<Fake>(v));
	irx_generalize(&c, sizeof c);
}
ENTRY(locks_push)
{
	// with and without room for another one
	install_reporter<DispatchReporter>();
	Coll c{};
	const int n = irx_int(0, 5);
	for (int i = 0; i < n; ++i) c.push(std::make_shared<Fake>(FULL));
	if (n) irx_reach("more"); else irx_reach("first");
	guard(c);
	c.push(std::make_shared<Fake>(FULL));
	irx_assert(irx_locks() == 0, "released");
	c.push(std::make_shared<Fake>(NONE));
	irx_assert(irx_locks() == 0, "released");
	irx_stop();
}
struct Ending : Fake
{
	bool satisfied;
	explicit Ending(bool s) : Fake{FULL}, satisfied{s} {}
	bool is_satisfied() const noexcept override { return satisfied; }
};
struct report_thrown {};
struct EndReporter : DispatchReporter
{
	bool throws;
	explicit EndReporter(bool t) : throws{t} {}
	void report_unfulfilled_expectation(ExpectationReport) override { ++n_unfulfilled; if (throws) throw report_thrown{}; }
};
ENTRY(locks_remove)
{
	install_reporter<EndReporter>(irx_bool());
	auto c = std::make_shared<Coll>();
	std::shared_ptr<Base> e[3]{};
	for (auto& x : e) { x = std::make_shared<Ending>(irx_bool()); c->push(x); }
	guard(*c);
	const int k = irx_int(0, 2);
	try { c->remove(k == 0 ? e[0] : k == 1 ? e[1] : e[2]); irx_reach("returned"); }
	catch (const report_thrown&) { irx_reach("thrown"); }
	irx_assert(irx_locks() == 0, "released");
	try { c->remove(k == 2 ? e[0] : k == 1 ? e[2] : e[1]); }
	catch (const report_thrown&) { irx_reach("thrown-later"); }
	irx_assert(irx_locks() == 0, "released");
	irx_stop();
}
ENTRY(locks_call)
{
	Coll c{};
	fill(c);
	guard(c);
	bool threw{};
	make_call(c, threw);
	if (!threw) irx_reach("matched");
	else if (n_inapplicable) irx_reach("inapplicable");
	else irx_reach("none");
	irx_assert(irx_locks() == 0 && order_ok, "released");
	irx_stop();
}
// ---- from the public interface: locks held when user code runs, and re-entrance
static int effects{}, results{};
static Mock<int(int)>* outer{};
static Mock<int(int)>* inner{};
struct boom {};
static ScopedExpectation* dying{};
static void quiet() { irx_assert(irx_locks() == 0, "not-held"); }
struct Rep : IReporter
{
	void report_no_matches(CallReport, std::vector<MatchReport>) override { quiet(); throw unmatched{}; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport>) override { quiet(); throw unmatched{}; }
	void report_full_match(CallReport, MatchReport) noexcept override { quiet(); }
	void report_unfulfilled_expectation(ExpectationReport) override {}
	void report_error(StringT) override {}
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr) override {}
};
ENTRY(locks_user_code)
{
	install_reporter<Rep>();
	Mock<int(int)> m{};
	ScopedExpectation other = m.expect_call(matches::ne(0)) and expect::at_most(1000000) and finally::returns(1);
	ScopedExpectation e = m.expect_call(matches::_) and expect::times(0, 1000000) and then::invoke([] { quiet(); ++effects; })
						and then::apply_all([](int&) { quiet(); ++effects; }) and finally::returns_result_of([]() -> int { quiet(); ++results; if (irx_bool()) throw boom{}; return 2; });
	try { m(irx_int(-5, 5)); irx_assert(effects == 2 && results == 1, "user-code-ran"); irx_reach("returned"); }
	catch (const boom&) { irx_assert(effects == 2 && results == 1, "user-code-ran"); irx_reach("thrown"); }
	quiet();
	irx_stop();
}
ENTRY(locks_throws)
{
	install_reporter<Rep>();
	Mock<int(int)> m{};
	ScopedExpectation e = m.expect_call(matches::predicate([](int) { if (irx_bool()) throw boom{}; return irx_bool(); })) and finally::throws(boom{}) and expect::times(0, irx_int(0, 3));
	try { m(1); } catch (const boom&) { irx_reach("result"); } catch (const unmatched&) { irx_reach("unmatched"); }
	quiet();
	irx_stop();
}
// side effects and results may use the same mock: call it, expect more, withdraw
ENTRY(locks_reenter)
{
	install_reporter<Rep>();
	Mock<int(int)> m{};
	outer = &m;
	std::unique_ptr<ScopedExpectation> more{}, less{};
	const int what = irx_int(0, 3);
	ScopedExpectation zero = m.expect_call(0) and expect::at_most(10) and finally::returns(0);
	less = std::make_unique<ScopedExpectation>(m.expect_call(5) and expect::at_most(10) and finally::returns(5));
	auto act = [&] {
		quiet();
		if (what == 0) (void)m(0);
		if (what == 1) more = std::make_unique<ScopedExpectation>(m.expect_call(7) and expect::at_most(10) and finally::returns(7));
		if (what == 2) less.reset();
		if (what == 3) try { (void)m(8); } catch (const unmatched&) {}
		quiet();
	};
	const bool effect = irx_bool();
	int n = 0;
	if (effect)
	{
		ScopedExpectation e = m.expect_call(1) and then::invoke(act) and finally::returns(3);
		n = m(1);
	}
	else
	{
		ScopedExpectation e = m.expect_call(1) and finally::returns_result_of([&]() -> int { act(); return 3; });
		n = m(1);
	}
	irx_assert(n == 3, "completes");
	quiet();
	if (what == 1) { irx_assert(m(7) == 7, "added"); irx_reach("added"); }
	if (what == 2) { irx_assert(!less, "withdrawn"); irx_reach("withdrawn"); }
	if (what == 0) irx_reach("called");
	if (what == 3) irx_reach("unmatched");
	irx_stop();
}
