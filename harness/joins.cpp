// C10: an expectation joins each sequence at most once; every choice of sequences for every position.
#include "e2e.hpp"

static LazySequence *s[4]{};
static int pick(int n)
{
	for (int i = 0; i + 1 < n; ++i)
		if (irx_bool())
			return i;
	return n - 1;
}
template <class Attach>
static void joined(bool duplicate, int used, Attach attach)
{
	Mock<void()> mock{};
	bool rejected = false;
	try
	{
		ScopedExpectation e = attach(mock.expect_call());
		irx_assert(!duplicate, "duplicate-rejected");
		irx_assert(n_err == 0, "no-early-report");
		mock();
		irx_assert(e.is_satisfied(), "usable");
		irx_reach("accepted");
	}
	catch (const std::invalid_argument&)
	{
		rejected = true;
		irx_reach("rejected");
	}
	irx_assert(rejected == duplicate, "distinct-accepted");
	irx_assert(n_none + n_inapp == 0, "allowed-by-every-sequence");
	irx_assert(n_unful == 0 && n_exc == 0, "no-other-report");
	(void)used;
}
// each sequence that has been joined holds exactly this one, satisfied, element: it ends silently, and no other element is missing
#define SEQUENCES(n) install_reporter<Rep>(); { LazySequence q[n]{}; for (int i = 0; i < n; ++i) s[i] = &q[i];
#define END } irx_assert(n_err == 0, "every-joined-sequence-is-complete"); irx_reach("ended"); irx_stop();

ENTRY(join_two_at_once)
{
	SEQUENCES(2)
	const int i = pick(2), j = pick(2);
	joined(i == j, 0, [&](auto b) { return std::move(b) and expect::in_sequences(*s[i], *s[j]); });
	END
}
ENTRY(join_two_in_steps)
{
	SEQUENCES(2)
	const int i = pick(2), j = pick(2);
	joined(i == j, 0, [&](auto b) { return std::move(b) and expect::in_sequence(*s[i]) and expect::in_sequence(*s[j]); });
	END
}
ENTRY(join_three_at_once)
{
	SEQUENCES(3)
	const int i = pick(3), j = pick(3), k = pick(3);
	joined(i == j || i == k || j == k, 0, [&](auto b) { return std::move(b) and expect::in_sequences(*s[i], *s[j], *s[k]); });
	END
}
ENTRY(join_three_in_steps)
{
	SEQUENCES(3)
	const int i = pick(3), j = pick(3), k = pick(3);
	joined(i == j || i == k || j == k, 0, [&](auto b) { return std::move(b) and expect::in_sequence(*s[i]) and expect::times(1) and expect::in_sequence(*s[j]) and expect::in_sequence(*s[k]); });
	END
}
ENTRY(join_one_then_two)
{
	SEQUENCES(3)
	const int i = pick(3), j = pick(3), k = pick(3);
	joined(i == j || i == k || j == k, 0, [&](auto b) { return std::move(b) and expect::in_sequence(*s[i]) and expect::in_sequences(*s[j], *s[k]); });
	END
}
ENTRY(join_two_then_two)
{
	SEQUENCES(4)
	const int i = pick(3), j = pick(4);
	joined(i == 1 || j == i || j == 1 || j == 3, 0, [&](auto b) { return std::move(b) and expect::in_sequences(*s[i], *s[1]) and expect::in_sequences(*s[3], *s[j]); });
	END
}
ENTRY(join_different_kinds)
{
	install_reporter<Rep>();
	{
		LazySequence a{}, c{};
		GreedySequence b{}, d{};
		s[0] = &a; s[1] = &c;
		GreedySequence* g[2]{&b, &d};
		const int i = pick(2), j = pick(2);
		const int k = pick(2), l = pick(2);
		joined(i == j || k == l, 0, [&](auto bld) { return std::move(bld) and expect::in_sequences(*s[i], *g[k]) and expect::in_sequence(*s[j]) and expect::in_sequence(*g[l]); });
	}
	irx_assert(n_err == 0, "every-joined-sequence-is-complete");
	irx_reach("ended");
	irx_stop();
}
// joined exactly once: the element has to be satisfied exactly once in each sequence
template <class A, class B>
static void registers()
{
	install_reporter<Rep>();
	Mock<void()> mock{}, later{};
	const int n = irx_int(0, 2), m = irx_int(0, 2);
	const bool call = irx_bool();
	{
		A a{};
		{
			B b{};
			{
				ScopedExpectation e = mock.expect_call() and expect::in_sequences(a, b) and expect::times(n, 2);
				ScopedExpectation l = later.expect_call() and expect::in_sequence(b) and expect::times(0, 2);
				if (call) mock();
				irx_assert(matched([&]{ later(); }) == (n <= (call ? 1 : 0)), "later-element-allowed-iff-satisfied");
				irx_assert(matched([&]{ mock(); }) == (n > (call ? 1 : 0)), "not-again-after-a-later-element");
			}
			n_err = 0;
		}
		const int cnt = (call ? 1 : 0) + (n > (call ? 1 : 0) ? 1 : 0);
		irx_assert(n_err == (cnt < n ? 1 : 0), "reported-iff-unsatisfied");
		n_err = 0;
		if (cnt < n) irx_reach("incomplete"); else irx_reach("complete");
	}
	(void)m;
	irx_stop();
}
ENTRY(join_registers_in_each) { registers<LazySequence, LazySequence>(); }
ENTRY(join_registers_in_each_mixed) { registers<GreedySequence, LazySequence>(); }
