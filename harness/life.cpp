// C05, C18: the life of expectations, from the public interface.
#include "e2e.hpp"
#include <memory>

static const void* reported{};
static int n_by_line[4]{};
static std::uint_least32_t lines[4]{};
static bool after_withdrawal{true};
template <class T> const T& val(const T& t) { return t; }
template <class T> const T& val(const std::optional<T>& t) { return *t; }
struct LifeRep : Rep
{
	void report_unfulfilled_expectation(ExpectationReport r) override
	{
		++n_unful;
		for (int i = 0; i < 4; ++i)
			if (lines[i] != 0 && val(r.sourceLocation).line() == lines[i])
				++n_by_line[i];
	}
};
struct failure {};
struct ThrowingRep : Rep
{
	void report_unfulfilled_expectation(ExpectationReport) override { ++n_unful; throw failure{}; }
};
#define LINE(i, e) lines[i] = (e).from().line()

// three expectations, ended in different orders; each satisfied or not
template <int a, int b, int c>
static void ends()
{
	install_reporter<LifeRep>();
	Mock<void(int)> mock{};
	const int m[3]{irx_int(0, 2), irx_int(0, 2), irx_int(0, 2)};
	std::unique_ptr<ScopedExpectation> e[3]{};
	e[0] = std::unique_ptr<ScopedExpectation>{new ScopedExpectation(mock.expect_call(0) and expect::times(m[0], 2))};
	e[1] = std::unique_ptr<ScopedExpectation>{new ScopedExpectation(mock.expect_call(1) and expect::times(m[1], 2))};
	e[2] = std::unique_ptr<ScopedExpectation>{new ScopedExpectation(mock.expect_call(2) and expect::times(m[2], 2))};
	for (int i = 0; i < 3; ++i) { LINE(i, *e[i]); }
	int count[3]{};
	for (int i = 0; i < 3; ++i)
		if (irx_bool()) { mock(i); ++count[i]; }
	int expected = 0;
	const int order[3]{a, b, c};
	bool live[3]{true, true, true};
	for (int k = 0; k < 3; ++k)
	{
		const int x = order[k];
		const bool satisfied = m[x] <= count[x];
		irx_assert(e[x]->is_satisfied() == satisfied, "satisfied-iff-limits");
		ScopedExpectation* raw = e[x].release();
		delete raw;
		live[x] = false;
		if (!satisfied) ++expected;
		irx_assert(n_unful == expected, "reported-once-iff-unsatisfied");
		irx_assert(n_by_line[x] == (satisfied ? 0 : 1), "report-names-that-expectation");
		if (satisfied) irx_reach("silent"); else irx_reach("reported");
		n_full = n_none = n_inapp = 0;
		irx_assert(!matched([&]{ mock(x); }) && n_none == 1, "withdrawn");
		for (int i = 0; i < 3; ++i)
			if (live[i])
			{
				irx_assert(e[i]->is_satisfied() == (m[i] <= count[i]), "others-unaffected");
				if (count[i] < 2 && k == 0)
				{
					irx_assert(matched([&]{ mock(i); }), "others-still-match");
					++count[i];
				}
			}
	}
	irx_assert(n_err == 0 && n_exc == 0, "no-other-report");
	irx_stop();
}
ENTRY(life_ends_012) { ends<0, 1, 2>(); }
ENTRY(life_ends_210) { ends<2, 1, 0>(); }
ENTRY(life_ends_102) { ends<1, 0, 2>(); }

// a report that is turned into an exception reaches the owner of the handle; the expectation is gone nevertheless
ENTRY(life_throwing_report)
{
	install_reporter<ThrowingRep>();
	Mock<void(int)> mock{};
	bool thrown = false;
	ScopedExpectation other = mock.expect_call(1) and expect::at_most(1);
	const int n = irx_int(0, 1);
	try
	{
		ScopedExpectation e = mock.expect_call(0) and expect::times(n, 1);
	}
	catch (const failure&) { thrown = true; }
	irx_assert(thrown == (n == 1) && n_unful == n, "failure-raised-iff-unsatisfied");
	irx_assert(!matched([&]{ mock(0); }) && n_none == 1, "withdrawn");
	irx_assert(matched([&]{ mock(1); }), "others-still-match");
	irx_assert(irx_locks() == 0, "lock-released");
	if (thrown) irx_reach("thrown"); else irx_reach("silent");
	irx_stop();
}
// while an exception is in flight
ENTRY(life_unwinding)
{
	install_reporter<LifeRep>();
	Mock<void(int)> mock{};
	const int n = irx_int(0, 1);
	try
	{
		ScopedExpectation e = mock.expect_call(0) and expect::times(n, 1);
		throw failure{};
	}
	catch (const failure&) {}
	irx_assert(n_unful == n, "reported-once-iff-unsatisfied");
	irx_assert(!matched([&]{ mock(0); }) && n_none == 1, "withdrawn");
	irx_reach("done");
	irx_stop();
}

// moving handles
ENTRY(life_move_handle)
{
	install_reporter<LifeRep>();
	Mock<void(int)> mock{};
	const int n = irx_int(0, 2);
	int count = 0;
	{
		ScopedExpectation b = [&]
		{
			ScopedExpectation a = mock.expect_call(0) and expect::times(n, 2);
			LINE(0, a);
			if (irx_bool()) { mock(0); ++count; }
			ScopedExpectation t{std::move(a)};
			irx_assert(n_unful == 0, "moving-reports-nothing");
			irx_assert(t.is_satisfied() == (n <= count), "moved-handle-refers-to-the-expectation");
			return t;
		}();
		irx_assert(n_unful == 0, "moved-from-handle-reports-nothing");
		irx_assert(b.is_satisfied() == (n <= count), "moved-handle-refers-to-the-expectation");
		irx_assert(b.from().line() == lines[0], "moved-handle-keeps-its-origin");
		if (count < 2 && irx_bool()) { irx_assert(matched([&]{ mock(0); }), "still-registered"); ++count; }
	}
	irx_assert(n_unful == (count < n ? 1 : 0), "reported-once-iff-unsatisfied");
	irx_assert(!matched([&]{ mock(0); }) && n_none == 1, "withdrawn");
	if (n_unful) irx_reach("reported"); else irx_reach("silent");
	irx_stop();
}
// assigning over a live handle ends the expectation it held
ENTRY(life_assign_handle)
{
	install_reporter<LifeRep>();
	Mock<void(int)> mock{};
	const int n = irx_int(0, 1), m = irx_int(0, 1);
	{
		ScopedExpectation a = mock.expect_call(0) and expect::times(n, 1);
		ScopedExpectation b = mock.expect_call(1) and expect::times(m, 1);
		LINE(0, a);
		LINE(1, b);
		a = std::move(b);
		irx_assert(n_unful == n && n_by_line[0] == n, "overwritten-one-ends");
		irx_assert(!matched([&]{ mock(0); }) && n_none == 1, "overwritten-one-withdrawn");
		irx_assert(a.is_satisfied() == (m == 0) && a.from().line() == lines[1], "assigned-handle-refers-to-the-expectation");
		if (irx_bool()) { irx_assert(matched([&]{ mock(1); }), "still-registered"); irx_assert(a.is_satisfied(), "counted"); n_by_line[1] -= 0; lines[2] = 1; }
	}
	irx_assert(n_by_line[1] == (m == 1 && lines[2] == 0 ? 1 : 0) && n_unful == n + n_by_line[1], "reported-once-iff-unsatisfied");
	if (n_by_line[1]) irx_reach("reported"); else irx_reach("silent");
	irx_stop();
}
ENTRY(life_assign_handle_throwing_report)
{
	install_reporter<ThrowingRep>();
	Mock<void(int)> mock{};
	const int n = irx_int(0, 1);
	bool thrown = false;
	ScopedExpectation a = mock.expect_call(0) and expect::times(n, 1);
	ScopedExpectation b = mock.expect_call(1) and expect::at_most(1);
	try { a = std::move(b); } catch (const failure&) { thrown = true; }
	irx_assert(thrown == (n == 1) && n_unful == n, "failure-raised-iff-unsatisfied");
	irx_assert(!matched([&]{ mock(0); }) && n_none == 1, "overwritten-one-withdrawn");
	irx_assert(matched([&]{ mock(1); }), "assigned-one-still-matches");
	if (thrown) irx_reach("thrown"); else irx_reach("silent");
	irx_stop();
}
// a mock that dies before the handles of its expectations
ENTRY(life_mock_first)
{
	install_reporter<LifeRep>();
	const int n = irx_int(0, 2), m = irx_int(0, 2);
	int count = 0;
	{
		auto mock = std::make_unique<Mock<void(int)>>();
		ScopedExpectation a = mock->expect_call(0) and expect::times(n, 2);
		ScopedExpectation b = mock->expect_call(0) and expect::times(m, 2);
		LINE(0, a);
		LINE(1, b);
		if (irx_bool()) { (*mock)(0); ++count; }
		mock.reset();
		irx_assert(n_unful == 0, "mock-death-reports-nothing");
		irx_assert(a.is_satisfied() == (n == 0) && b.is_satisfied() == (m <= count), "state-kept");
	}
	irx_assert(n_by_line[0] == (n > 0) && n_by_line[1] == (m > count), "reported-as-if-alive");
	irx_assert(n_unful == n_by_line[0] + n_by_line[1], "reported-as-if-alive");
	irx_reach("done");
	irx_stop();
}
// a moved mock
template <class Sig, bool assign>
static void moved_mock()
{
	install_reporter<LifeRep>();
	const int n = irx_int(0, 2);
	int count = 0;
	{
		Mock<Sig> target{};
		Mock<Sig> source{};
		ScopedExpectation a = source.expect_call(0) and expect::times(n, 2);
		LINE(0, a);
		if (irx_bool()) { source(0); ++count; }
		auto check = [&](auto& mock)
		{
			irx_assert(n_unful == 0 && n_none == 0 && n_inapp == 0, "moving-reports-nothing");
			irx_assert(a.is_satisfied() == (n <= count), "state-kept");
			irx_assert(matched([&]{ mock(0); }), "expectations-move-along");
			++count;
			irx_assert(a.is_satisfied() == (n <= count), "counted-at-the-same-expectation");
			ScopedExpectation c = mock.expect_call(1);
			irx_assert(matched([&]{ mock(1); }), "new-expectations-possible");
		};
		if constexpr (assign)
		{
			target = std::move(source);
			check(target);
		}
		else
		{
			Mock<Sig> constructed{std::move(source)};
			check(constructed);
		}
	}
	irx_assert(n_by_line[0] == (count < n) && n_unful == n_by_line[0], "reported-once-iff-unsatisfied");
	if (n_unful) irx_reach("reported"); else irx_reach("silent");
	irx_stop();
}
ENTRY(life_mock_move) { moved_mock<void(int), false>(); }
ENTRY(life_mock_assign) { moved_mock<void(int), true>(); }
ENTRY(life_mock_move_const) { moved_mock<void(int) const, false>(); }
// the expectations of the overwritten mock stay valid and are reported as usual
ENTRY(life_mock_overwritten)
{
	install_reporter<LifeRep>();
	const int n = irx_int(0, 1), m = irx_int(0, 1);
	{
		Mock<void(int)> source{};
		Mock<void(int)> target{};
		ScopedExpectation a = target.expect_call(0) and expect::times(n, 1);
		ScopedExpectation b = source.expect_call(1) and expect::times(m, 1);
		LINE(0, a);
		LINE(1, b);
		target = std::move(source);
		irx_assert(n_unful == 0, "moving-reports-nothing");
		irx_assert(a.is_satisfied() == (n == 0) && b.is_satisfied() == (m == 0), "state-kept");
		irx_assert(!matched([&]{ target(0); }), "expectations-of-the-overwritten-mock-not-taken-over");
		irx_assert(matched([&]{ target(1); }), "expectations-move-along");
	}
	irx_assert(n_by_line[0] == n && n_by_line[1] == 0 && n_unful == n, "reported-once-iff-unsatisfied");
	irx_reach("done");
	irx_stop();
}
// several overloads move together
ENTRY(life_overloads_move)
{
	install_reporter<LifeRep>();
	{
		Mock<void(int), int(int, int) const, void() noexcept> source{};
		ScopedExpectation a = source.expect_call(0);
		ScopedExpectation b = source.expect_call(matches::_, matches::_) and finally::returns(7);
		ScopedExpectation c = source.expect_call();
		auto target{std::move(source)};
		irx_assert(matched([&]{ target(0); }) && a.is_satisfied() && !b.is_satisfied() && !c.is_satisfied(), "first-overload");
		int r = 0;
		irx_assert(matched([&]{ r = target(1, 2); }) && r == 7 && b.is_satisfied() && !c.is_satisfied(), "second-overload");
		irx_assert(matched([&]{ target(); }) && c.is_satisfied(), "third-overload");
	}
	irx_assert(n_unful == 0, "no-report");
	irx_reach("done");
	irx_stop();
}
// a sequence object that dies before the expectations attached to it
ENTRY(life_sequence_first)
{
	install_reporter<LifeRep>();
	const int n = irx_int(0, 1), m = irx_int(0, 1);
	bool first = false, second = false;
	{
		Mock<void(int)> mock{};
		auto seq = std::make_unique<SequenceT>();
		ScopedExpectation a = mock.expect_call(0) and expect::times(n, 1) and expect::in_sequence(*seq);
		ScopedExpectation b = mock.expect_call(1) and expect::in_sequence(*seq) and expect::times(m, 1);
		seq.reset();
		irx_assert(n_err == 0 && n_unful == 0, "sequence-object-death-reports-nothing");
		if (irx_bool()) { irx_assert(matched([&]{ mock(0); }), "first-still-possible"); first = true; }
		if (irx_bool()) { irx_assert(matched([&]{ mock(1); }) == (first || n == 0), "order-still-enforced"); second = first || n == 0; }
	}
	const bool incomplete = second ? false : (!first && n == 1) || m == 1;
	irx_assert(n_err == (incomplete ? 1 : 0), "sequence-reported-iff-incomplete");
	irx_assert(n_unful == (!first && n == 1) + (!second && m == 1), "expectations-reported-iff-unsatisfied");
	if (incomplete) irx_reach("incomplete"); else irx_reach("complete");
	irx_stop();
}
