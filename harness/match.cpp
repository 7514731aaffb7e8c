// C03, C14: requirements, side effects and results of one expectation, from the public interface.
#include "e2e.hpp"

static const void* call_arg{};
static int clock_{};                     // order of everything that happens during a call
// a requirement of the user with an arbitrary answer (public extension point of the builder)
struct Pol
{
	struct Log { int asked{}, consumed{}, at{}, first{}; bool verdict{}, satisfied{true}, same{true}; };
	Log* log;
	bool is_satisfied() const noexcept { return log->satisfied; }
	template <class R, class... A>
	bool matches(const call::Info<R, A...>& c) const
	{
		++log->asked;
		log->first = ++clock_;
		log->same = log->same && &std::get<0>(c.args).get() == call_arg;
		return log->verdict;
	}
	std::optional<StringT> describe() const { return std::nullopt; }
	template <class R, class... A>
	void consume(const call::Info<R, A...>& c)
	{
		++log->consumed;
		log->at = ++clock_;
		log->same = log->same && &std::get<0>(c.args).get() == call_arg;
	}
};
static int n_entries{};
static bool flags[4]{};
static bool facts{};
struct MatchRep : Rep
{
	static void look(const MatchReport& m)
	{
		n_entries = 0;
		for (const auto& e : m.expectationReports)
		{
			if (!e.description)
			{
				if (n_entries < 4) flags[n_entries] = e.isMatching;
				++n_entries;
			}
			else
				facts = facts && e.isMatching;           // the overload requirements of the mock itself
		}
	}
	void report_no_matches(CallReport, std::vector<MatchReport> v) override { ++n_none; facts = v.size() == 1u; if (facts) look(v[0]); throw unmatched{}; }
	void report_inapplicable_matches(CallReport, std::vector<MatchReport> v) override { ++n_inapp; facts = v.size() == 1u; if (facts) look(v[0]); throw unmatched{}; }
	void report_full_match(CallReport, MatchReport m) noexcept override { ++n_full; facts = true; look(m); }
};
ENTRY(match_conjunction)
{
	install_reporter<MatchRep>();
	const int min = irx_int(0, 2147483647), max = irx_int(0, 2147483647);
	irx_assume(min <= max);
	Mock<void(int&)> mock{};
	Pol::Log a{}, b{}, c{};
	a.verdict = irx_bool(); b.verdict = irx_bool(); c.verdict = irx_bool();
	a.satisfied = irx_bool(); b.satisfied = irx_bool(); c.satisfied = irx_bool();
	ScopedExpectation e = mock.expect_call(matches::_) and Pol{&a} and expect::times(min, max) and Pol{&b} and Pol{&c};
	irx_assert(e.is_satisfied() == (min == 0 && a.satisfied && b.satisfied && c.satisfied), "satisfied-iff-limits-and-all-requirements");
	irx_assert(a.asked + b.asked + c.asked == 0, "not-asked-without-call");
	int arg = 0;
	call_arg = &arg;
	const bool ok = matched([&]{ mock(arg); });
	const bool all = a.verdict && b.verdict && c.verdict;
	irx_assert(n_full == (all && 0 < max), "full-iff-all-accept-and-applicable");
	irx_assert(n_inapp == (all && max == 0), "inapplicable-iff-all-accept-but-limits");
	irx_assert(n_none == !all, "none-iff-some-reject");
	irx_assert(ok == (n_full == 1), "returns-iff-full");
	irx_assert(facts && n_entries == 3, "each-requirement-recorded-once");
	irx_assert(flags[0] == a.verdict && flags[1] == b.verdict && flags[2] == c.verdict, "answers-recorded-in-order");
	irx_assert(a.asked && b.asked && c.asked && a.same && b.same && c.same, "asked-about-this-call");
	irx_assert(a.consumed == ok && b.consumed == ok && c.consumed == ok, "consumed-iff-matched");
	if (ok)
		irx_assert(a.at < b.at && b.at < c.at, "consumed-in-order");
	if (ok) irx_reach("full"); else if (all) irx_reach("inapplicable"); else irx_reach("none");
	irx_assert(e.is_satisfied() == (min <= (ok ? 1 : 0) && a.satisfied && b.satisfied && c.satisfied), "satisfied-iff-limits-and-all-requirements");
	irx_stop();
}

// two sequences, each of which may or may not allow the expectation
template <class First, class Second>
static void sequences()
{
	install_reporter<MatchRep>();
	const int min = irx_int(0, 2147483647), max = irx_int(0, 2147483647);
	irx_assume(min <= max);
	Mock<void()> p{}, q{};
	Mock<void(int&)> mock{};
	First s1{};
	Second s2{};
	const int mp = irx_int(0, 2), mq = irx_int(0, 2);
	ScopedExpectation ep = p.expect_call() and expect::in_sequence(s1) and expect::times(mp, 2);
	ScopedExpectation eq = q.expect_call() and expect::in_sequence(s2) and expect::times(mq, 2);
	Pol::Log a{};
	a.verdict = irx_bool();
	ScopedExpectation e = mock.expect_call(matches::_) and expect::in_sequences(s1, s2) and expect::times(min, max) and Pol{&a};
	int cp = 0, cq = 0;
	if (irx_bool()) { p(); ++cp; }
	if (irx_bool()) { q(); ++cq; }
	int arg = 0;
	const bool allowed = mp <= cp && mq <= cq;
	n_full = n_inapp = n_none = 0;
	const bool ok = matched([&]{ mock(arg); });
	irx_assert(n_none == !a.verdict, "none-iff-rejected");
	irx_assert(n_full == (a.verdict && 0 < max && allowed), "full-iff-every-sequence-allows");
	irx_assert(n_inapp == (a.verdict && !(0 < max && allowed)), "inapplicable-iff-some-sequence-forbids");
	irx_assert(ok == (n_full == 1), "returns-iff-full");
	irx_assert(e.is_satisfied() == (min <= (ok ? 1 : 0)), "satisfied-iff-limits");
	if (ok) irx_reach("full"); else if (n_inapp) irx_reach("inapplicable"); else irx_reach("none");
	irx_stop();
}
ENTRY(match_sequences_lazy) { sequences<LazySequence, LazySequence>(); }
ENTRY(match_sequences_mixed) { sequences<GreedySequence, LazySequence>(); }

// side effects: once each, in order, after the call has been counted, before the result
static ScopedExpectation* self{};
static int order[8]{}, n_order{};
static bool counted{true};
static void effect(int id)
{
	if (n_order < 8) order[n_order] = id;
	++n_order;
	counted = counted && self->is_satisfied();
}
ENTRY(effects_in_order)
{
	install_reporter<Rep>();
	Mock<int(int&, int)> mock{};
	const int max = irx_int(1, 2147483647);
	const int r = any_int();
	bool same = true;
	int arg = 0, value = any_int();
	ScopedExpectation e = mock.expect_call(matches::_, matches::_)
						and then::invoke([]{ effect(1); })
						and then::apply_arg<0>([&](int& x) { effect(2); same = same && &x == &arg; })
						and expect::times(1, max)
						and then::apply_args<1, 0>([&](int v, int& x) { effect(3); same = same && &x == &arg && v == value; })
						and finally::returns_result_of([&]{ effect(5); return r; })
						and then::apply_all([&](int& x, int v) { effect(4); same = same && &x == &arg && v == value; });
	ScopedExpectation other = mock.expect_call(matches::_, matches::predicate([](int){ return false; }))
						and expect::at_most(1) and then::invoke([]{ effect(7); }) and finally::returns(0);
	self = &e;
	int count = 0;
	do
	{
		n_order = 0;
		int res = 0;
		if (matched([&]{ res = mock(arg, value); }))
		{
			++count;
			irx_assert(n_order == 5, "each-once");
			irx_assert(order[0] == 1 && order[1] == 2 && order[2] == 3 && order[3] == 4, "in-order-of-attachment");
			irx_assert(order[4] == 5, "before-the-result");
			irx_assert(counted, "after-the-call-is-counted");
			irx_assert(res == r && same, "with-the-arguments");
			irx_reach("accepted");
		}
		else
		{
			irx_assert(count == max, "refused-only-at-max");
			irx_assert(n_order == 0, "none-without-acceptance");
			irx_reach("refused");
		}
	} while (irx_bool());
	irx_stop();
}
// several matching expectations: only the chosen one acts
ENTRY(effects_only_of_the_chosen)
{
	install_reporter<Rep>();
	Mock<int(int)> mock{};
	const int m1 = irx_int(0, 1), m2 = irx_int(0, 1), v1 = any_int(), v2 = any_int(), arg = any_int();
	int f1 = 0, f2 = 0, g1 = 0, g2 = 0;
	ScopedExpectation e1 = mock.expect_call(v1) and then::invoke([&]{ ++f1; }) and finally::returns_result_of([&]{ ++g1; return 1; }) and expect::times(0, m1);
	ScopedExpectation e2 = mock.expect_call(v2) and finally::returns_result_of([&]{ ++g2; return 2; }) and expect::times(0, m2) and then::invoke([&]{ ++f2; });
	int res = 0;
	const bool ok = matched([&]{ res = mock(arg); });
	irx_assert(f1 + f2 == (ok ? 1 : 0) && g1 + g2 == (ok ? 1 : 0), "at-most-one-acts");
	irx_assert(f1 == g1 && f2 == g2, "effect-and-result-of-the-same");
	irx_assert((!ok || res == (f1 ? 1 : 2)), "result-of-the-chosen");
	irx_assert(f1 == 0 || v1 == arg, "only-if-matched");
	irx_assert(f2 == 0 || v2 == arg, "only-if-matched");
	if (f1) irx_reach("first"); else if (f2) irx_reach("second"); else irx_reach("none");
	irx_stop();
}
// the effects have run when the finaliser throws
struct boom {};
ENTRY(effects_before_throwing)
{
	install_reporter<Rep>();
	Mock<int(int)> mock{};
	int f = 0;
	ScopedExpectation e = mock.expect_call(matches::_) and finally::throws(boom{}) and then::invoke([&]{ ++f; }) and expect::twice();
	self = &e;
	for (int i = 0; i < 2; ++i)
	{
		bool thrown = false;
		try { (void)mock(1); } catch (const boom&) { thrown = true; }
		irx_assert(thrown && f == i + 1 && n_full == i + 1, "effect-then-exception");
		irx_assert(e.is_satisfied() == (i == 1), "counted");
	}
	irx_assert(n_exc == 0, "not-a-matching-exception");
	irx_reach("done");
	irx_stop();
}
// a side effect that throws: the call has been counted, its exception reaches the caller, nothing that follows runs
struct trouble { int id; };
ENTRY(effects_throwing)
{
	install_reporter<Rep>();
	Mock<int(int)> mock{};
	int first = 0, second = 0, third = 0, result = 0;
	bool fail = irx_bool();
	const int id = irx_int(0, 1000);
	const int arg = irx_int(0, 1000);
	ScopedExpectation e = mock.expect_call(matches::_) and then::invoke([&] { ++first; })
		and then::apply_all([&](int a) { ++second; if (fail) throw trouble{a + id}; }) and then::invoke([&] { ++third; })
		and finally::returns_result_of([&] { ++result; return 42; }) and expect::twice();
	bool thrown = false;
	int value = 0, got = 0;
	try { got = mock(arg); } catch (const trouble& t) { thrown = true; value = t.id; }
	irx_assert(thrown == fail && (!fail || value == arg + id), "exception-of-the-effect-reaches-the-caller");
	irx_assert(first == 1 && second == 1 && third == !fail && result == !fail, "nothing-that-follows-runs");
	irx_assert(n_full == 1 && n_none == 0 && n_inapp == 0 && n_exc == 0, "reported-as-match-only");
	irx_assert(!e.is_satisfied(), "counted-once");
	if (!fail) irx_assert(got == 42, "result");
	fail = false;
	irx_assert(mock(arg) == 42 && e.is_satisfied(), "counted");
	irx_assert(first == 2 && second == 2 && result == 2 - thrown, "next-call-unaffected");
	irx_assert(irx_locks() == 0, "lock-released");
	if (thrown) irx_reach("thrown"); else irx_reach("not-thrown");
	irx_stop();
}

// C04: requirements of all kinds that throw
struct Reluctant { int v; };
static int asked{};
static bool operator ==(const Reluctant&, const Reluctant&) { ++asked; throw trouble{1}; }
static bool operator <(const Reluctant&, const Reluctant&) { ++asked; throw trouble{1}; }
struct OwnMatcher
{
	bool matches(const Reluctant&) const { ++asked; throw trouble{1}; }
	StringT describe() const { return {}; }
};
struct OwnPolicy
{
	static bool is_satisfied() noexcept { return true; }
	bool matches(const call::Info<int, const Reluctant&>&) const { ++asked; throw trouble{1}; }
	static std::optional<StringT> describe() { return std::nullopt; }
	void consume(const call::Info<int, const Reluctant&>&) {}
};
static bool that_exception{true};
struct ExcRep : Rep
{
	void report_unhandled_exception(CallReport, ExpectationReport, std::exception_ptr p) override
	{
		++n_exc;
		try { std::rethrow_exception(p); }
		catch (const trouble& t) { that_exception = that_exception && t.id == 1; }
		catch (...) { that_exception = false; }
	}
};
template <class Make>
static void throwing_requirement(Make make)
{
	install_reporter<ExcRep>();
	Mock<int(const Reluctant&)> mock{};
	int other = 0;
	const bool fallback = irx_bool(), throwing_first = irx_bool();
	std::optional<ScopedExpectation> a{}, b{};
	const auto good = [&] { if (fallback) a.emplace(mock.expect_call(matches::_) and expect::at_most(1) and then::invoke([&] { ++other; }) and finally::returns(7)); };
	const auto bad = [&] { b.emplace(make(mock) and expect::at_most(1) and then::invoke([&] { other += 100; }) and finally::returns(8)); };
	if (throwing_first) { bad(); good(); } else { good(); bad(); }
	const int ok = matched([&] { irx_assert(mock(Reluctant{1}) == 7, "result-of-the-other"); });
	irx_assert(asked == 1, "asked-once");
	irx_assert(n_exc == 1 && that_exception, "exception-reported-once");
	irx_assert(ok == fallback && n_full == fallback && n_none == !fallback && n_inapp == 0, "others-still-considered");
	irx_assert(other == fallback, "throwing-one-not-consumed");
	irx_assert(irx_locks() == 0, "lock-released");
	if (ok) irx_reach("matched"); else irx_reach("unmatched");
	irx_stop();
}
static bool refuses(const Reluctant&) { ++asked; throw trouble{1}; }
ENTRY(throws_predicate) { throwing_requirement([](auto& m) { return m.expect_call(matches::predicate(refuses)); }); }
ENTRY(throws_inverted_predicate) { throwing_requirement([](auto& m) { return m.expect_call(!matches::predicate(refuses)); }); }
ENTRY(throws_comparison) { throwing_requirement([](auto& m) { return m.expect_call(matches::eq(Reluctant{2})); }); }
ENTRY(throws_less) { throwing_requirement([](auto& m) { return m.expect_call(matches::lt(Reluctant{2})); }); }
ENTRY(throws_value) { throwing_requirement([](auto& m) { return m.expect_call(Reluctant{2}); }); }
ENTRY(throws_own_matcher) { throwing_requirement([](auto& m) { return m.expect_call(OwnMatcher{}); }); }
ENTRY(throws_own_policy) { throwing_requirement([](auto& m) { return m.expect_call(matches::_) and OwnPolicy{}; }); }
ENTRY(throws_argument) { throwing_requirement([](auto& m) { return m.expect_call(matches::_) and expect::arg<0>(matches::predicate(refuses)); }); }
ENTRY(throws_projection) { throwing_requirement([](auto& m) { return m.expect_call(matches::_) and expect::arg<0>(matches::_, [](const Reluctant& r) { return refuses(r); }); }); }

