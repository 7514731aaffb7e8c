// C02, C04, C06, C08: one call on a mock with many live expectations, one of them at an arbitrary position different from the others.
// Every path is followed separately.
#include "dispatch.hpp"

static constexpr int N = 70;
static int n_exceptions{};
struct LongReporter : DispatchReporter
{
	void report_unhandled_exception(CallReport c, ExpectationReport e, std::exception_ptr p) override
	{
		++n_exceptions;
		DispatchReporter::report_unhandled_exception(std::move(c), std::move(e), p);
	}
};
static std::shared_ptr<Fake> f[N + 1];
static int position()
{
	static const int all[]{0, 1, 2, 5, 9, 15, 16, 31, 32, 37, 63, 64, N - 2, N - 1};
	const int p = irx_int(0, 13);
	for (int i = 0; i < 14; ++i)
		if (p == i)
			return all[i];
	irx_stop();
	return 0;
}
// all of kind `common` but the one at `p`, which has a location of its own
static void fill(Coll& coll, int n, Verdict common, int p, Verdict special)
{
	static std::source_location unique;
	unique = here();
	for (int i = 0; i < n; ++i)
	{
		f[i] = i == p ? std::make_shared<Fake>(special, 1000, unique) : std::make_shared<Fake>(common, i);
		coll.push(f[i]);
	}
	mark = &unique;
}
#define CALL bool threw; const int res = make_call(coll, threw)

static void lone_full(Verdict common)
{
	install_reporter<LongReporter>();
	Coll coll{};
	const int p = position();
	fill(coll, N, common, p, FULL);
	CALL;
	irx_assert(!threw && n_full == 1 && n_no_match == 0 && n_inapplicable == 0, "full-match-succeeds");
	irx_assert(who == f[p].get() && fin == f[p].get() && consumed == 1 && finalised == 1, "the-only-full-match-is-consumed");
	irx_assert(res == 1000 && mark_full == 1, "its-result-and-report");
	irx_assert(n_exceptions == (common == THROWS ? N - 1 : 0), "every-exception-reported");
	irx_reach("done");
	irx_stop();
}
ENTRY(long_full_among_none) { lone_full(NONE); }
ENTRY(long_full_among_inapplicable) { lone_full(INAPP); }
ENTRY(long_full_among_throwing) { lone_full(THROWS); }

static void unmatched_list(Verdict common, Verdict special)
{
	install_reporter<LongReporter>();
	Coll coll{};
	const int p = position();
	fill(coll, N, common, p, special);
	CALL;
	(void) res;
	const bool inapp = common == INAPP || special == INAPP;
	irx_assert(threw && n_full == 0 && consumed == 0 && finalised == 0, "unmatched");
	irx_assert(n_inapplicable == inapp && n_no_match == !inapp, "reported-as-what-it-is");
	irx_assert(mark_in_list == ((special == INAPP) || (special == NONE && common != INAPP)), "listed-once-if-considered");
	irx_assert(n_exceptions == (common == THROWS ? N - 1 : special == THROWS), "every-exception-reported");
	irx_assert(mark_exception == (special == THROWS), "exception-names-it");
	irx_reach("done");
	irx_stop();
}
ENTRY(long_none) { unmatched_list(NONE, NONE); }
ENTRY(long_inapplicable) { unmatched_list(INAPP, INAPP); }
ENTRY(long_inapplicable_among_none) { unmatched_list(NONE, INAPP); }
ENTRY(long_none_among_inapplicable) { unmatched_list(INAPP, NONE); }
ENTRY(long_throwing_among_none) { unmatched_list(NONE, THROWS); }
ENTRY(long_inapplicable_among_throwing) { unmatched_list(THROWS, INAPP); }

// the latest of many full matches, then those left after some have been withdrawn
ENTRY(long_latest)
{
	install_reporter<LongReporter>();
	Coll coll{};
	const int p = position();
	for (int i = 0; i < N; ++i)
	{
		f[i] = std::make_shared<Fake>(i <= p ? FULL : NONE);
		coll.push(f[i]);
	}
	CALL;
	(void) res;
	irx_assert(!threw && who == f[p].get() && fin == who && consumed == 1, "latest-chosen");
	irx_reach("done");
	irx_stop();
}
ENTRY(long_latest_after_removal)
{
	constexpr int N = 24;
	install_reporter<LongReporter>();
	Coll coll{};
	for (int i = 0; i < N; ++i)
		coll.push(f[i] = std::make_shared<Fake>(FULL));
	const int p = position() % N, q = p + irx_int(1, 2);
	coll.remove(f[p]);
	if (q < N)
		coll.remove(f[q]);
	if (irx_bool())
	{
		coll.push(f[N] = std::make_shared<Fake>(FULL));
		CALL;
		(void) res;
		irx_assert(!threw && who == f[N].get() && consumed == 1, "latest-chosen");
		irx_reach("added");
		coll.remove(f[N]);
	}
	// the others come up in order
	for (int i = N - 1, k = 0; i >= 0; --i)
		if (i != p && i != q)
		{
			CALL;
			(void) res;
			irx_assert(!threw && who == f[i].get(), "latest-left-chosen");
			coll.remove(f[i]);
			if (++k == 4)
				break;
		}
	irx_assert(n_unfulfilled == 0, "satisfied-ones-not-reported");
	irx_reach("done");
	irx_stop();
}

// all full matches in one sequence: the one with the highest priority
ENTRY(long_priority)
{
	install_reporter<LongReporter>();
	Coll coll{};
	const int p = position();
	fill(coll, N, FULL, p, FULL);
	const int low = irx_int(-2147483647, 2147483646), high = irx_int(-2147483647, 2147483647);
	irx_assume(low < high);
	for (int i = 0; i < N; ++i)
		f[i]->prio = sequence::rating{i == p ? high : low, sequence::Tag{1}};
	CALL;
	irx_assert(!threw && n_full == 1 && mark_full == 1, "highest-priority-reported");
	irx_assert(who == f[p].get() && fin == who && consumed == 1 && res == 1000, "highest-priority-chosen");
	irx_reach("done");
	irx_stop();
}
// any few of them, with any priorities, among others
ENTRY(few_priority)
{
	install_reporter<LongReporter>();
	Coll coll{};
	int prio[5];
	bool full[5];
	for (int i = 0; i < 5; ++i)
	{
		full[i] = irx_bool();
		prio[i] = irx_int(-2147483647, 2147483647);
		f[i] = std::make_shared<Fake>(full[i] ? FULL : NONE);
		f[i]->prio = sequence::rating{prio[i], sequence::Tag{1}};
		coll.push(f[i]);
	}
	CALL;
	(void) res;
	irx_assert(threw == !(full[0] || full[1] || full[2] || full[3] || full[4]), "matched-iff-there-is-one");
	if (!threw)
	{
		irx_assert(consumed == 1 && who == fin, "one-chosen");
		for (int i = 0; i < 5; ++i)
			if (full[i])
				irx_assert(who->prio->priority >= prio[i], "highest-priority-chosen");
		irx_reach("matched");
	}
	irx_stop();
}
