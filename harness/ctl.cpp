// Limits and sequences as seen from the public interface, over every history of calls.
#include "e2e.hpp"

// one expectation, any valid limits, any number of calls
ENTRY(ctl_limits)
{
	install_reporter<Rep>();
	const int min = irx_int(0, 2147483647), max = irx_int(0, 2147483647);
	irx_assume(min <= max);
	Mock<void()> mock{};
	int count = 0;
	{
		ScopedExpectation e = mock.expect_call() and expect::times(min, max);
		while (irx_bool())
		{
			n_full = n_inapp = n_none = 0;
			irx_assert(e.is_satisfied() == (min <= count && count <= max), "satisfied-iff-within-limits");
			if (matched([&]{ mock(); }))
			{
				irx_assert(count < max, "accepted-only-below-max");
				irx_assert(n_full == 1 && n_inapp == 0 && n_none == 0, "accepted-as-full-match");
				++count;
				irx_reach("accepted");
			}
			else
			{
				irx_assert(count == max && n_inapp == 1 && n_none == 0 && n_full == 0, "refused-only-at-max");
				irx_reach("refused");
			}
		}
		irx_assert(n_unful == 0, "no-early-report");
		irx_assert(e.is_satisfied() == (min <= count && count <= max), "satisfied-iff-within-limits");
		if (count < min) irx_reach("short"); else irx_reach("enough");
	}
	irx_assert(n_unful == (count < min ? 1 : 0), "unfulfilled-iff-short");
	irx_assert(n_err == 0 && n_exc == 0, "no-other-report");
	irx_reach("ended");
	irx_stop();
}

// two or three elements of one sequence, any valid limits, any interleaving of calls
template <class Seq>
static void sequence2()
{
	install_reporter<Rep>();
	const int mina = irx_int(0, 2147483647), maxa = irx_int(0, 2147483647), minb = irx_int(0, 2147483647), maxb = irx_int(0, 2147483647);
	irx_assume(mina <= maxa && minb <= maxb);
	Mock<void()> ma{}, mb{};
	int a = 0, b = 0;
	{
		Seq seq{};
		{
			ScopedExpectation ea = ma.expect_call() and expect::in_sequence(seq) and expect::times(mina, maxa);
			ScopedExpectation eb = mb.expect_call() and expect::times(minb, maxb) and expect::in_sequence(seq);
			while (irx_bool())
			{
				n_full = n_inapp = n_none = 0;
				if (irx_bool())
				{
					const bool ok = a < maxa && b == 0;
					irx_assert(matched([&]{ ma(); }) == ok, "first-accepted-iff-below-max-and-not-passed-over");
					a += ok;
					if (ok) irx_reach("first"); else irx_reach("first-refused");
				}
				else
				{
					const bool ok = b < maxb && (b > 0 || mina <= a);
					irx_assert(matched([&]{ mb(); }) == ok, "second-accepted-iff-below-max-and-first-satisfied");
					b += ok;
					if (ok) irx_reach("second"); else irx_reach("second-refused");
				}
				irx_assert(n_none == 0 && n_full + n_inapp == 1, "one-outcome");
			}
			irx_assert(n_unful == 0 && n_err == 0, "no-early-report");
		}
		irx_assert(n_unful == (a < mina) + (b < minb), "unfulfilled-iff-short");
		irx_assert(n_err == 0, "sequence-not-reported-before-its-end");
	}
	const bool incomplete = b == 0 ? (a < mina || b < minb) : b < minb;
	irx_assert(n_err == (incomplete ? 1 : 0), "sequence-reported-iff-incomplete");
	irx_assert(n_exc == 0, "no-other-report");
	irx_reach("ended");
	irx_stop();
}
ENTRY(ctl_sequence_lazy) { sequence2<LazySequence>(); }
ENTRY(ctl_sequence_greedy) { sequence2<GreedySequence>(); }
