// C01, C07, C08, C09: long histories of limits and long sequences. Every path is followed separately.
#include "ghost.hpp"
using namespace mimicpp;
using sequence::Id;
using Lazy = sequence::detail::BasicSequence<Id, sequence::detail::LazyStrategy{}>;
using Greedy = sequence::detail::BasicSequence<Id, sequence::detail::GreedyStrategy{}>;

static constexpr int N = 140;
static constexpr int P = 11;
static const int positions[P]{0, 1, 4, 9, 16, 32, 63, 64, 127, 128, N - 1};
static int position()
{
	const int p = irx_int(0, P - 1);
	for (int i = 0; i < P; ++i)
		if (p == i)
			return positions[i];
	irx_stop();
	return 0;
}
template <typename S>
struct Long
{
	S seq{};
	int state[N]{};  // 0 unsatisfied, 1 satisfied, 2 saturated
	int cursor{};
	// all satisfied (every third saturated), but the one at `odd`
	explicit Long(int odd = -1)
	{
		for (int i = 0; i < N; ++i)
		{
			const Id id = seq.add();
			irx_assert(static_cast<int>(id) == i, "elements-in-order-of-attachment");
			if (i == odd)
				continue;
			seq.set_satisfied(id);
			state[i] = 1;
			if (i % 3 == 2)
			{
				seq.set_saturated(id);
				state[i] = 2;
			}
		}
	}
	bool available(int i) const
	{
		if (i < cursor || state[i] == 2)
			return false;
		for (int k = cursor; k < i; ++k)
			if (state[k] == 0)
				return false;
		return true;
	}
};
// an unsatisfied element blocks all later ones and no other
template <typename S>
static void blocks()
{
	const int odd = position();
	Long<S> l{odd};
	if (irx_bool() && odd > 3)
	{
		l.cursor = irx_bool() ? 3 : odd - (odd % 3 == 0 ? 2 : 1 + (odd - 1) % 3 / 2);
		l.seq.consume(Id{l.cursor});
		irx_reach("moved");
	}
	for (const int i : positions)
	{
		irx_assert(l.seq.is_consumable(Id{i}) == l.available(i), "available-iff-all-earlier-satisfied");
		irx_assert(l.seq.priority_of(Id{i}).has_value() == l.available(i), "priority-iff-available");
	}
	irx_reach("done");
	irx_stop();
}
ENTRY(long_blocks_lazy) { blocks<Lazy>(); }
ENTRY(long_blocks_greedy) { blocks<Greedy>(); }

template <typename S>
static void order(bool earlierFirst)
{
	Long<S> l{};
	if (irx_bool())
	{
		l.cursor = 3;
		l.seq.consume(Id{3});
	}
	for (int i = l.cursor, last = -1; i < N; ++i)
		if (l.state[i] != 2)
		{
			if (last >= 0)
			{
				const auto a = l.seq.priority_of(Id{last}), b = l.seq.priority_of(Id{i});
				irx_assert(a && b, "both-available");
				irx_assert(a && b && (earlierFirst ? *a > *b : *a < *b), "priority-order");
			}
			last = i;
		}
	irx_reach("done");
	irx_stop();
}
ENTRY(long_order_lazy) { order<Lazy>(true); }
ENTRY(long_order_greedy) { order<Greedy>(false); }

// far apart
template <typename S>
static void far_apart(bool earlierFirst)
{
	S seq{};
	for (int i = 0; i < 300; ++i)
		seq.set_satisfied(seq.add());
	int last = 0;
	for (const int i : {1, 127, 128, 129, 255, 256, 257, 299})
	{
		const auto a = seq.priority_of(Id{last}), b = seq.priority_of(Id{i});
		irx_assert(a && b && (earlierFirst ? *a > *b : *a < *b), "priority-order");
		last = i;
	}
	irx_reach("done");
	irx_stop();
}
ENTRY(long_far_lazy) { far_apart<Lazy>(true); }
ENTRY(long_far_greedy) { far_apart<Greedy>(false); }

// a long history of matches: what was passed over stays so, what comes later stays available
template <typename S>
static void progress()
{
	Long<S> l{};
	for (int step = 0; step < 5; ++step)
	{
		const int i = irx_bool() ? step * 26 + (step * 26 % 3 == 2) : step * 26 + 14 + ((step * 26 + 14) % 3 == 2);
		if (!l.available(i))
			continue;
		l.seq.consume(Id{i});
		l.cursor = i;
		for (int k = 0; k < N; k += 7)
			irx_assert(l.seq.is_consumable(Id{k}) == l.available(k), "only-later-elements-available");
	}
	irx_reach("done");
	irx_stop();
}
ENTRY(long_progress_lazy) { progress<Lazy>(); }
ENTRY(long_progress_greedy) { progress<Greedy>(); }

template <typename S>
static void ends()
{
	install_reporter<GhostReporter>();
	const bool complete = irx_bool();
	const int odd = complete ? -1 : position();
	{
		Long<S> l{odd};
		if (odd > 3 && irx_bool())
			l.seq.consume(Id{3});
		else if (complete && irx_bool())
			l.seq.consume(Id{N - 1});
	}
	irx_assert(ghost.error == (complete ? 0 : 1) && ghost.sum() == ghost.error, "reported-once-iff-incomplete");
	if (complete) irx_reach("complete"); else irx_reach("incomplete");
	irx_stop();
}
ENTRY(long_end_lazy) { ends<Lazy>(); }
ENTRY(long_end_greedy) { ends<Greedy>(); }

// limits, and a long history of calls
static void history(int min, int max, int calls)
{
	const detail::TimesConfig times = expect::times(min, max);
	ControlPolicy<> control{times, sequence::detail::Config<>{}};
	for (int count = 0; ; ++count)
	{
		irx_assert(control.is_satisfied() == (min <= count && count <= max), "satisfied-iff-within-limits");
		irx_assert(control.is_saturated() == (count == max), "saturated-iff-max");
		irx_assert(control.is_applicable() == (count < max), "applicable-iff-below-max");
		if (count == max || count == calls || count % 997 == 0)
		{
			const control_state_t state = control.state();
			if (count == max)
			{
				const auto* s = std::get_if<state_saturated>(&state);
				irx_assert(s && s->min == min && s->max == max && s->count == count, "state-numbers");
			}
			else
			{
				const auto* s = std::get_if<state_applicable>(&state);
				irx_assert(s && s->min == min && s->max == max && s->count == count, "state-numbers");
			}
		}
		if (count == max || count == calls)
			break;
		control.consume();
	}
	irx_reach("done");
	irx_stop();
}
ENTRY(long_history_exact) { history(300, 300, 300); }
ENTRY(long_history_range) { history(130, 280, 280); }
ENTRY(long_history_open) { history(3, 2147483647, 66000); }
ENTRY(long_history_far) { history(40000, 66000, 66000); }
