// C07, C08, C09: sequences with arbitrarily many elements in arbitrary states.
#include "ghost.hpp"
using namespace mimicpp;
using sequence::Id;
using Lazy = sequence::detail::BasicSequence<Id, sequence::detail::LazyStrategy{}>;
using Greedy = sequence::detail::BasicSequence<Id, sequence::detail::GreedyStrategy{}>;

enum { UNSAT = 0, SAT = 1, FULL = 2 };
template <typename S>
struct Pre
{
	S& seq;
	int n{}, cursor{};
	// state of the element at the cursor after it has been consumed (it may have changed then)
	int atCursor{-1};
	explicit Pre(S& s) : seq{s}
	{
		[[maybe_unused]] const Id a = seq.add();
		const Id b = seq.add();
		const Id c = seq.add();
		seq.set_satisfied(b);
		seq.set_satisfied(c);
		seq.set_saturated(c);
		n = static_cast<int>(irx_generalize(&seq, sizeof seq));
		if (irx_bool())
		{
			// the position reached so far
			cursor = irx_int(0, 2147483646);
			irx_assume(cursor < n);
			all_done(0, cursor);
			const int k = kind(cursor);
			irx_assume(k != FULL);
			seq.consume(Id{cursor});
			irx_merge();
		}
	}
	int kind(int i) const { return irx_kind(&seq, sizeof seq, i); }
	const void* at(int i) const { return irx_elem(&seq, sizeof seq, i); }
	int index() const
	{
		const int i = irx_int(0, 2147483646);
		irx_assume(i < n);
		return i;
	}
	void all_done(int lo, int hi) const { irx_assume_kinds(&seq, sizeof seq, lo, hi, 6u); }
};


// an element that can be matched: every earlier one from the position on is satisfied, it is not before the position and not saturated
template <typename S, bool prio>
void consumable_sound()
{
	S seq{};
	Pre pre{seq};
	const int i = pre.index(), j = pre.index();
	const void* pi = pre.at(i);
	const void* pj = pre.at(j);
	bool c;
	if constexpr (prio)
		c = seq.priority_of(Id{i}).has_value();
	else
		c = seq.is_consumable(Id{i});
	if (c)
	{
		irx_assert(pre.cursor <= i, "not-passed-over");
		irx_assert(pre.kind(i) != FULL, "not-saturated");
		if (pre.cursor <= j && j < i)
		{
			irx_assert(pre.kind(j) != UNSAT, "earlier-satisfied");
			irx_reach("earlier");
		}
		irx_reach("consumable");
	}
	irx_keep(pi); irx_keep(pj);
	irx_stop();
}
ENTRY(seq_consumable_sound_lazy) { consumable_sound<Lazy, false>(); }
ENTRY(seq_consumable_sound_greedy) { consumable_sound<Greedy, false>(); }
ENTRY(seq_priority_sound_lazy) { consumable_sound<Lazy, true>(); }
ENTRY(seq_priority_sound_greedy) { consumable_sound<Greedy, true>(); }

// conversely such an element can always be matched
template <typename S>
void consumable_complete()
{
	S seq{};
	Pre pre{seq};
	const int i = pre.index();
	irx_assume(pre.cursor <= i);
	pre.all_done(pre.cursor, i);
	const void* pi = pre.at(i);
	const int k = pre.kind(i);
	irx_assume(k != FULL);
	irx_assert(seq.is_consumable(Id{i}), "consumable-when-earlier-satisfied");
	irx_assert(seq.priority_of(Id{i}).has_value(), "priority-when-consumable");
	irx_reach("complete");
	irx_keep(pi);
	irx_stop();
}
ENTRY(seq_consumable_complete_lazy) { consumable_complete<Lazy>(); }
ENTRY(seq_consumable_complete_greedy) { consumable_complete<Greedy>(); }

// matching an element moves the position there, passes over all earlier ones and leaves the state of all elements alone
template <typename F>
void consumed(F check)
{
	Lazy seq{};
	Pre pre{seq};
	const int i = pre.index();
	irx_assume(pre.cursor <= i);
	pre.all_done(pre.cursor, i);
	const int ki = pre.kind(i);
	irx_assume(ki != FULL);
	seq.consume(Id{i});
	irx_merge();
	check(seq, pre, i);
	irx_stop();
}
ENTRY(seq_consume_passes_over)
{
	consumed([](auto& seq, auto& pre, const int i) {
		const int k = pre.index();
		irx_assume(k < i);
		irx_assert(!seq.is_consumable(Id{k}), "no-earlier-element-after");
		irx_assert(!seq.priority_of(Id{k}).has_value(), "no-priority-for-earlier-element");
		irx_reach("earlier");
	});
}
ENTRY(seq_consume_later_available)
{
	consumed([](auto& seq, auto& pre, const int i) {
		const int k = pre.index();
		irx_assume(i <= k);
		const void* pk = pre.at(k);
		const int kk = pre.kind(k);
		irx_assume(kk != FULL);
		pre.all_done(i, k);
		irx_assert(seq.is_consumable(Id{k}), "later-element-still-consumable");
		irx_reach("later");
		irx_keep(pk);
	});
}
ENTRY(seq_consume_keeps_states)
{
	Lazy seq{};
	Pre pre{seq};
	const int i = pre.index();
	irx_assume(pre.cursor <= i);
	const int k = pre.index();
	const void* pk = pre.at(k);
	const int before = pre.kind(k);
	irx_assume(i < k);
	pre.all_done(pre.cursor, i);
	const int ki = pre.kind(i);
	irx_assume(ki != FULL);
	seq.consume(Id{i});
	if (seq.is_consumable(Id{k}))
	{
		irx_assert(before != FULL, "saturated-stays-saturated");
		irx_reach("later-consumable");
	}
	irx_keep(pk);
	irx_stop();
}
ENTRY(seq_consume_keeps_unsatisfied)
{
	Lazy seq{};
	Pre pre{seq};
	const int i = pre.index(), j = pre.index(), k = pre.index();
	irx_assume(pre.cursor <= i);
	irx_assume(i < j);
	irx_assume(j < k);
	const void* pj = pre.at(j);
	const int before = pre.kind(j);
	pre.all_done(pre.cursor, i);
	const int ki = pre.kind(i);
	irx_assume(ki != FULL);
	seq.consume(Id{i});
	if (seq.is_consumable(Id{k}))
	{
		irx_assert(before != UNSAT, "unsatisfied-still-blocks");
		irx_reach("later-consumable");
	}
	irx_keep(pj);
	irx_stop();
}

// marking one element changes that element only, and never the position
template <bool saturate>
void mark()
{
	Lazy seq{};
	Pre pre{seq};
	const int m = pre.index();
	const void* pm = pre.at(m);
	const int km = pre.kind(m);
	irx_assume(pre.cursor <= m);
	irx_assume(saturate ? km != FULL : km == UNSAT);
	if constexpr (saturate)
		seq.set_saturated(Id{m});
	else
		seq.set_satisfied(Id{m});
	const int k = pre.index();
	const void* pk = pre.at(k);
	const int kk = pre.kind(k);
	if (irx_bool())
	{
		irx_assume(pre.cursor <= k);
		if (k == m) { irx_assert(saturate || k != pre.cursor || seq.is_consumable(Id{k}), "marked-satisfied-consumable"); irx_reach("self"); }
		else
		{
			irx_assume(kk != FULL);
			// all elements in between are done, where the marked one may have been unsatisfied before
			if (pre.cursor <= m && m < k)
			{
				pre.all_done(pre.cursor, m);
				pre.all_done(m + 1, k);
				irx_reach("over-marked");
			}
			else
				pre.all_done(pre.cursor, k);
			irx_assert(seq.is_consumable(Id{k}), "consumable-over-marked");
		}
	}
	else
	{
		const int j = pre.index();
		const void* pj = pre.at(j);
		if (seq.is_consumable(Id{k}))
		{
			irx_assert(pre.cursor <= k, "mark-keeps-position");
			irx_assert(k != m || !saturate, "saturated-not-consumable");
			irx_assert(k == m || kk != FULL, "mark-keeps-others");
			if (pre.cursor <= j && j < k && j != m)
				irx_assert(pre.kind(j) != UNSAT, "mark-keeps-states");
			irx_reach("consumable");
		}
		irx_keep(pj);
	}
	irx_keep(pk); irx_keep(pm);
	irx_stop();
}
ENTRY(seq_mark_satisfied) { mark<false>(); }
ENTRY(seq_mark_saturated) { mark<true>(); }

// C08: among elements that can be matched at the same time
template <typename S>
void priority(const bool earlierFirst)
{
	S seq{};
	Pre pre{seq};
	const int i = pre.index(), j = pre.index();
	irx_assume(i < j);
	const auto a = seq.priority_of(Id{i}), b = seq.priority_of(Id{j});
	if (a && b)
	{
		irx_assert(earlierFirst ? *a > *b : *a < *b, "priority-order");
		irx_reach("both");
	}
	irx_stop();
}
ENTRY(seq_priority_lazy) { priority<Lazy>(true); }
ENTRY(seq_priority_greedy) { priority<Greedy>(false); }

// C09: a sequence reports exactly one error when it ends incomplete
ENTRY(seq_end_complete)
{
	install_reporter<GhostReporter>();
	{
		Lazy seq{};
		Pre pre{seq};
		pre.all_done(pre.cursor, pre.n);
	}
	irx_assert(ghost.sum() == 0, "complete-not-reported");
	irx_reach("complete");
	irx_stop();
}
template <typename S>
void incomplete()
{
	install_reporter<GhostReporter>();
	bool bad = false;
	const void* pi{};
	{
		S seq{};
		Pre pre{seq};
		const int i = pre.index();
		irx_assume(pre.cursor <= i);
		pi = pre.at(i);
		const int k = pre.kind(i);
		irx_assume(k == UNSAT);
		bad = true;
	}
	irx_keep(pi);
	if (bad)
	{
		irx_assert(ghost.error == 1 && ghost.sum() == 1, "incomplete-reported-once");
		irx_reach("incomplete");
	}
	irx_stop();
}
ENTRY(seq_end_incomplete_lazy) { incomplete<Lazy>(); }
ENTRY(seq_end_incomplete_greedy) { incomplete<Greedy>(); }
