// C17: every clause takes effect, whatever the order of declaration.
#include "e2e.hpp"

enum Clause : int { Limits = 1, SeqA = 2, SeqB = 4, Req = 8, ActA = 16, ActB = 32, Result = 64, Boom = 128 };
static int g_flag{};                 // what the requirement looks at
static int g_a{}, g_b{}, g_order{}, g_runs{};
static int g_result{};
struct Exc { int token; };
struct Accept
{
	template <class T>
	bool matches(T&) const { return g_flag == 1; }
	StringT describe() const { return {}; }
};
struct World
{
	LazySequence a{};
	GreedySequence b{};
	Mock<void()> oa{}, ob{};
	ScopedExpectation ea = oa.expect_call() and expect::in_sequence(a);
	ScopedExpectation eb = ob.expect_call() and expect::in_sequence(b);
};
template <int c>
auto clause([[maybe_unused]] World& w)
{
	if constexpr (c == Limits) return expect::times(2, 3);
	else if constexpr (c == SeqA) return expect::in_sequence(w.a);
	else if constexpr (c == SeqB) return expect::in_sequence(w.b);
	else if constexpr (c == Req) return expect::arg<0>(Accept{});
	else if constexpr (c == ActA) return then::apply_all([](auto&...) { ++g_a; g_order = g_order * 4 + 1; });
	else if constexpr (c == ActB) return then::apply_all([](auto&...) { ++g_b; g_order = g_order * 4 + 2; });
	else if constexpr (c == Result) return finally::returns(g_result);
	else return finally::throws(Exc{g_result});
}
template <class M>
static int ask(M& m)        // 0 reported, 1 returned the result, 2 returned anything else, 3 threw the exception
{
	try
	{
		if constexpr (std::same_as<M, Mock<int(int)>>)
			return m(5) == g_result ? 1 : 2;
		else
		{
			m(5);
			return 2;
		}
	}
	catch (const unmatched&) { return 0; }
	catch (const Exc& e) { irx_assert(e.token == g_result, "configured-exception"); return 3; }
}
enum Why { Accepted, Sequences, Requirement, Limit };
static void check(bool v, Why why)
{
	if (why == Accepted) irx_assert(v, "accepted");
	else if (why == Sequences) irx_assert(v, "sequence-takes-effect");
	else if (why == Requirement) irx_assert(v, "requirement-takes-effect");
	else irx_assert(v, "limits-take-effect");
}
template <class M>
static void examine(M& m, World& w, int mask, int order, ScopedExpectation e)
{
	const int ok = mask & Result ? 1 : mask & Boom ? 3 : 2;
	const int lo = mask & Limits ? 2 : 1, hi = mask & Limits ? 3 : 1;
	auto expect_outcome = [&](bool accepted, bool requirement, Why why) {
		const int none = n_none, inapp = n_inapp, full = n_full, a = g_a, b = g_b;
		g_order = 0;
		g_flag = requirement ? 1 : 0;
		const int r = ask(m);
		if (accepted)
		{
			check(r == ok && n_full == full + 1 && n_none == none && n_inapp == inapp, why);
			irx_assert(g_a == a + (mask & ActA ? 1 : 0) && g_b == b + (mask & ActB ? 1 : 0), "side-effects-run-once");
			irx_assert(g_order == order, "side-effects-in-order");
		}
		else
		{
			check(r == 0 && n_full == full && g_a == a && g_b == b, why);
			check(n_none == none + (requirement ? 0 : 1) && n_inapp == inapp + (requirement ? 1 : 0), why);
		}
	};
	irx_assert(!e.is_satisfied(), "registered-unsatisfied");
	// sequences: the expectation comes second in each of them
	const bool a_first = irx_bool();
	if (mask & (a_first ? SeqA : SeqB))
		expect_outcome(false, true, Sequences);
	if (a_first) w.oa(); else w.ob();
	if (mask & (a_first ? SeqB : SeqA))
		expect_outcome(false, true, Sequences);
	if (a_first) w.ob(); else w.oa();
	irx_assert(w.ea.is_satisfied() && w.eb.is_satisfied(), "others-consumed");
	// requirement
	if (mask & Req)
		expect_outcome(false, false, ::Requirement);
	for (int i = 0; i < hi; ++i)
	{
		irx_assert(e.is_satisfied() == (i >= lo), "limits-take-effect");
		expect_outcome(true, true, Accepted);
	}
	irx_assert(e.is_satisfied(), "limits-take-effect");
	expect_outcome(false, true, Limit);
	if (mask & Req)
		expect_outcome(false, false, ::Requirement);
	irx_reach("examined");
}
template <int mask, int left, class M, class B>
static void node(M& m, World& w, B&& b, int order)
{
	// not registered before it is bound
	const int none = n_none, full = n_full;
	g_flag = 1;
	irx_assert(ask(m) == 0 && n_none == none + 1 && n_full == full, "not-registered-before-bound");
	if constexpr (std::same_as<M, Mock<void(int)>> || mask & (Result | Boom))
		if (left == 0 || irx_bool())
		{
			examine(m, w, mask, order, ScopedExpectation{std::forward<B>(b)});
			irx_stop();
		}
	auto next = [&]<int c>(std::integral_constant<int, c>) {
		if constexpr ((left & c) && !((c & (Result | Boom)) && (mask & (Result | Boom))))
			if (irx_bool())
			{
				node<mask | c, left & ~c>(m, w, std::move(b) and clause<c>(w), c == ActA ? order * 4 + 1 : c == ActB ? order * 4 + 2 : order);
				irx_stop();
			}
	};
	next(std::integral_constant<int, Limits>{});
	next(std::integral_constant<int, SeqA>{});
	next(std::integral_constant<int, SeqB>{});
	next(std::integral_constant<int, Req>{});
	next(std::integral_constant<int, ActA>{});
	next(std::integral_constant<int, ActB>{});
	next(std::integral_constant<int, Result>{});
	next(std::integral_constant<int, Boom>{});
	irx_stop();
}
template <class Sig, int clauses>
static void orders()
{
	install_reporter<Rep>();
	g_result = irx_token();
	World w{};
	Mock<Sig> m{};
	node<0, clauses>(m, w, m.expect_call(matches::_), 0);
}
ENTRY(clause_orders_limits_sequence_requirement_action_result) { orders<int(int), Limits | SeqA | Req | ActA | Result>(); }
ENTRY(clause_orders_two_actions) { orders<void(int), Limits | SeqB | ActA | ActB | Boom>(); }
ENTRY(clause_orders_two_sequences) { orders<int(int), Limits | SeqA | SeqB | Result>(); }
ENTRY(clause_orders_requirement_two_sequences) { orders<void(int), SeqA | SeqB | Req | ActA>(); }
// a builder that is dropped registers nothing
ENTRY(clause_dropped_builder)
{
	install_reporter<Rep>();
	Mock<void(int)> m{};
	{
		auto b = m.expect_call(matches::_) and expect::times(0, 3);
		auto c = std::move(b);
		irx_assert(ask(m) == 0, "not-registered-before-bound");
		if (irx_bool())
		{
			ScopedExpectation e = std::move(c);
			irx_assert(ask(m) == 2, "registered-when-bound");
			irx_reach("bound");
		}
	}
	irx_assert(ask(m) == 0 && n_unful == 0, "nothing-left");
	irx_reach("done");
	irx_stop();
}
// registered with the mock it was created from
ENTRY(clause_right_mock)
{
	install_reporter<Rep>();
	Mock<void(int)> m{}, n{};
	{
		ScopedExpectation e = m.expect_call(matches::_) and expect::times(0, 1);
		ScopedExpectation f = n.expect_call(matches::_) and expect::times(0, 2);
		irx_assert(ask(m) == 2 && ask(m) == 0 && ask(n) == 2 && ask(n) == 2 && ask(n) == 0, "right-mock");
	}
	irx_assert(n_unful == 0 && n_full == 3 && n_inapp == 2 && n_none == 0, "right-mock");
	irx_reach("done");
	irx_stop();
}
