// C02, C04, C06, C08, C26: one call on a mock with arbitrarily many live expectations.
#include "dispatch.hpp"

static int fill(Coll& coll, bool none = true, bool inapp = true, bool full = true, bool throws = true)
{
	install_reporter<DispatchReporter>();
	if (none) coll.push(std::make_shared<Fake>(NONE));
	if (inapp) coll.push(std::make_shared<Fake>(INAPP));
	if (full) coll.push(std::make_shared<Fake>(FULL, irx_int(-2147483647, 2147483647)));
	if (throws) coll.push(std::make_shared<Fake>(THROWS));
	return static_cast<int>(irx_generalize(&coll, sizeof coll));
}
#define CALL bool threw; const int res = make_call(coll, threw)

// whatever the expectations: one outcome, at most one consumption
ENTRY(dispatch_one_outcome)
{
	Coll coll{};
	fill(coll);
	CALL;
	irx_assert(same_call, "asked-about-this-call");
	irx_assert(n_unfulfilled == 0 && n_error == 0, "no-foreign-report");
	irx_assert(irx_locks() == 0, "lock-released");
	if (threw)
	{
		irx_assert(n_full == 0 && consumed == 0 && finalised == 0, "unmatched-consumes-nothing");
		irx_assert(n_no_match + n_inapplicable == 1, "unmatched-reported-once");
		if (n_inapplicable) irx_reach("inapplicable"); else irx_reach("no-match");
	}
	else
	{
		irx_assert(n_full == 1 && n_no_match == 0 && n_inapplicable == 0, "match-reported-once");
		irx_assert(consumed == 1 && finalised == 1 && order_ok, "reported-consumed-finalised");
		irx_assert(who == fin && who->verdict == FULL, "same-full-match");
		irx_assert(res == who->result, "result-of-that-expectation");
		irx_reach("matched");
	}
	irx_stop();
}
// a full match exists: the call succeeds
ENTRY(dispatch_full_exists)
{
	Coll coll{};
	const int n = fill(coll);
	const Fake* L = observe(coll, below(n), FULL);
	CALL;
	irx_assert(!threw && n_full == 1, "full-match-succeeds");
	irx_assert((mark_full == 1) == (who == L) && mark_full <= 1, "report-names-the-consumed-one");
	irx_assert(mark_in_list == 0 && mark_exception == 0, "in-no-other-report");
	irx_reach("done");
	irx_keep(L);
	irx_stop();
}
// no full match, but one that is only inapplicable
ENTRY(dispatch_inapplicable)
{
	Coll coll{};
	const int n = fill(coll, true, true, false, true);
	const Fake* L = observe(coll, below(n), INAPP);
	CALL;
	irx_assert(threw && n_inapplicable == 1 && n_no_match == 0, "inapplicable-reported");
	irx_assert(mark_in_list == 1, "inapplicable-listed-once");
	irx_assert(consumed == 0 && finalised == 0 && n_full == 0, "nothing-consumed");
	irx_reach("done");
	irx_keep(L);
	irx_stop();
}
ENTRY(dispatch_inapplicable_lists_no_other)
{
	Coll coll{};
	const int n = fill(coll, true, true, false, true);
	const int i = below(n);
	const Fake* L = observe(coll, i, NONE);
	CALL;
	irx_assert(threw, "unmatched");
	irx_assert(mark_in_list == (n_no_match ? 1 : 0), "listed-only-as-considered");
	if (n_no_match) irx_reach("listed"); else irx_reach("not-listed");
	irx_keep(L);
	irx_stop();
}
ENTRY(dispatch_no_match)
{
	Coll coll{};
	const int n = fill(coll, true, false, false, true);
	CALL;
	irx_assert(threw && n_no_match == 1 && n_inapplicable == 0, "no-match-reported");
	irx_assert(consumed == 0 && finalised == 0 && n_full == 0, "nothing-consumed");
	irx_reach("done");
	irx_keepi(n);
	irx_stop();
}
// exceptions while matching are reported once each, with that exception, and contained
ENTRY(dispatch_exception)
{
	Coll coll{};
	const int n = fill(coll, true, true, true, true);
	const Fake* L = observe(coll, below(n), THROWS);
	CALL;
	irx_assert(mark_exception == 1, "exception-reported-once");
	irx_assert(facts_ok, "that-very-exception");
	irx_assert(mark_in_list == 0 && mark_full == 0 && who != L && fin != L, "not-available-for-this-call");
	if (threw) irx_reach("unmatched"); else irx_reach("matched");
	irx_keep(L);
	irx_stop();
}
ENTRY(dispatch_other_exception)
{
	std_exceptions = false;
	Coll coll{};
	const int n = fill(coll, true, true, true, true);
	const Fake* L = observe(coll, below(n), THROWS);
	CALL;
	irx_assert(mark_exception == 1, "exception-reported-once");
	irx_assert(facts_ok, "that-very-exception");
	irx_assert(mark_in_list == 0 && mark_full == 0 && who != L && fin != L, "not-available-for-this-call");
	if (threw) irx_reach("unmatched"); else irx_reach("matched");
	irx_keep(L);
	irx_stop();
}
ENTRY(dispatch_no_exception)
{
	Coll coll{};
	const int n = fill(coll, true, true, true, false);
	CALL;
	irx_assert(!any_exception, "no-exception-no-report");
	if (threw) irx_reach("unmatched"); else irx_reach("matched");
	irx_keepi(n);
	irx_stop();
}
// without sequences the most recently created full match is chosen
ENTRY(dispatch_latest)
{
	Coll coll{};
	const int n = fill(coll);
	const int l = below(n);
	const Fake* L = observe(coll, l, FULL);
	irx_assume_kinds(&coll, sizeof coll, l + 1, n, 0b1011u);
	CALL;
	irx_assert(!threw, "matched");
	irx_assert(who == L && fin == L && consumed == 1, "latest-chosen");
	irx_assert(res == L->result, "latest-result");
	irx_reach("done");
	irx_keep(L);
	irx_stop();
}
// withdrawing expectations leaves the order of the others alone
ENTRY(dispatch_latest_after_removal)
{
	install_reporter<DispatchReporter>();
	Coll coll{};
	std::shared_ptr<Fake> f[4];
	bool live[4];
	for (int i = 0; i < 4; ++i)
	{
		live[i] = irx_int(0, 1) == 1;
		f[i] = std::make_shared<Fake>(live[i] ? FULL : NONE);
		coll.push(f[i]);
	}
	const int removed = irx_int(0, 3);
	for (int i = 0; i < 4; ++i)
		if (removed == i)
		{
			coll.remove(f[i]);
			live[i] = false;
		}
	const Fake* expected{};
	for (int i = 0; i < 4; ++i)
		if (live[i])
			expected = f[i].get();
	CALL;
	(void) res;
	irx_assert(threw == (expected == nullptr), "matched-iff-one-is-left");
	irx_assert(who == expected, "latest-left-chosen");
	if (expected) irx_reach("matched"); else irx_reach("unmatched");
	irx_stop();
}
// all full matches in one sequence: the highest priority is chosen
ENTRY(dispatch_priority)
{
	Coll coll{};
	install_reporter<DispatchReporter>();
	coll.push(std::make_shared<Fake>(NONE));
	coll.push(std::make_shared<Fake>(INAPP));
	{
		auto f = std::make_shared<Fake>(FULL, 7);
		f->prio = sequence::rating{irx_int(-2147483647, 2147483647), sequence::Tag{1}};
		coll.push(std::move(f));
	}
	const int n = static_cast<int>(irx_generalize(&coll, sizeof coll));
	const int l = below(n);
	const Fake* L = observe(coll, l, FULL);
	const int p = L->prio->priority;
	CALL;
	irx_assert(!threw, "matched");
	irx_assert(who->prio->priority >= p, "highest-priority-chosen");
	irx_reach("done");
	irx_keep(L);
	irx_stop();
}
