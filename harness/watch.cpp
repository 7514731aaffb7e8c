// C21: watched objects, from the public interface.
#include "e2e.hpp"
#include <memory>

struct Obj
{
	int value{};
	Obj() = default;
	explicit Obj(int v) : value{v} {}
	Obj(const Obj&) = default;
	Obj& operator=(const Obj&) = default;
	Obj(Obj&& o) noexcept(false) : value{o.value} { o.value = -1; }
	Obj& operator=(Obj&& o) noexcept(false) { value = o.value; o.value = -1; return *this; }
	~Obj() noexcept(false) {}
};
struct Poly
{
	virtual ~Poly() noexcept(false) {}
	Poly() = default;
	Poly(const Poly&) = default;
	Poly& operator=(const Poly&) = default;
	Poly(Poly&&) noexcept(false) {}
	Poly& operator=(Poly&&) noexcept(false) { return *this; }
};
template <class T>
bool dies(T* p)                        // false: the death has been reported as unexpected
{
	return matched([&]{ delete p; });
}
static int silent() { return n_none + n_inapp + n_unful + n_err + n_exc; }

template <class W>
static void death()
{
	install_reporter<Rep>();
	W* w = new W{};
	if (irx_bool())
	{
		{
			ScopedExpectation e = w->expect_destruct();
			irx_assert(!e.is_satisfied(), "not-dead-yet");
			if (irx_bool())
			{
				irx_assert(dies(w) && n_full == 1 && silent() == 0, "expected-death-makes-one-call");
				irx_assert(e.is_satisfied(), "right-watcher");
				irx_reach("died");
				w = nullptr;
			}
		}
		irx_assert(n_unful == (w ? 1 : 0), "surviving-although-expected-is-reported");
		n_unful = 0;
		if (w)
		{
			irx_reach("survived");
			irx_assert(!dies(w) && n_none == 1, "death-without-expectation-is-reported");
		}
	}
	else
	{
		irx_assert(!dies(w), "death-without-expectation-is-reported");
		irx_assert(n_none == 1 && n_full == 0, "death-without-expectation-is-reported-once");
		irx_reach("unexpected");
	}
	irx_stop();
}
ENTRY(watch_death) { death<LifetimeWatcher>(); }
ENTRY(watch_death_watched) { death<Watched<Obj, LifetimeWatcher>>(); }
ENTRY(watch_death_polymorphic) { death<Watched<Poly, LifetimeWatcher>>(); }
ENTRY(watch_death_through_base)
{
	install_reporter<Rep>();
	auto* w = new Watched<Poly, LifetimeWatcher>{};
	ScopedExpectation e = w->expect_destruct();
	Poly* p = w;
	irx_assert(dies(p) && e.is_satisfied() && n_full == 1, "death-through-a-base-pointer");
	irx_reach("done");
	irx_stop();
}
ENTRY(watch_one_expectation)
{
	install_reporter<Rep>();
	auto* w = new LifetimeWatcher{};
	bool thrown = false;
	{
		ScopedExpectation e = w->expect_destruct();
		try { (void)w->expect_destruct(); } catch (const std::logic_error&) { thrown = true; }
		irx_assert(thrown, "second-death-expectation-rejected");
		irx_assert(dies(w) && e.is_satisfied(), "first-one-kept");
	}
	irx_assert(silent() == 0, "no-report");
	irx_reach("done");
	irx_stop();
}
// moving an object along: the watch goes with it, what stays behind dies silently
template <class W>
static void move_death()
{
	install_reporter<Rep>();
	W* a = new W{};
	const bool expecting = irx_bool();
	{
		std::optional<ScopedExpectation> e{};
		if (expecting) e.emplace(a->expect_destruct());
		W* b{};
		if (irx_bool())
		{
			b = new W{std::move(*a)};
			irx_reach("constructed");
		}
		else
		{
			b = new W{};
			*b = std::move(*a);
			irx_reach("assigned");
		}
		irx_assert(n_full == 0 && silent() == 0, "moving-is-not-dying");
		if (expecting)
		{
			bool thrown = false;
			try { (void)b->expect_destruct(); } catch (const std::logic_error&) { thrown = true; }
			irx_assert(thrown && n_full == 0 && silent() == 0, "second-death-expectation-rejected");
		}
		else if (irx_bool())
		{
			{
				ScopedExpectation late = b->expect_destruct();
				irx_assert(dies(b) && late.is_satisfied() && n_full == 1 && silent() == 0, "moved-watch-takes-its-first-expectation");
				irx_assert(dies(a) && n_full == 1, "moved-from-object-dies-silently");
			}
			irx_assert(silent() == 0, "no-other-report");
			irx_reach("late");
			irx_stop();
		}
		if (irx_bool())
		{
			irx_assert(dies(a), "moved-from-object-dies-silently");
			irx_assert(n_full == 0 && silent() == 0, "moved-from-object-dies-silently");
			irx_assert(!expecting || !e->is_satisfied(), "expectation-moved-along");
			irx_assert(dies(b) == expecting, "moved-to-object-dies-as-the-original");
		}
		else
		{
			irx_assert(dies(b) == expecting, "moved-to-object-dies-as-the-original");
			irx_assert(!expecting || e->is_satisfied(), "expectation-moved-along");
			const int f = n_full, s = silent();
			irx_assert(dies(a) && n_full == f && silent() == s, "moved-from-object-dies-silently");
		}
		irx_assert(!expecting || e->is_satisfied(), "expectation-moved-along");
		irx_assert(n_none == (expecting ? 0 : 1) && n_full == (expecting ? 1 : 0), "one-call-for-one-death");
	}
	irx_assert(n_unful == 0 && n_err == 0, "no-other-report");
	irx_reach("done");
	irx_stop();
}
ENTRY(watch_move_death) { move_death<LifetimeWatcher>(); }
ENTRY(watch_move_death_watched) { move_death<Watched<Obj, LifetimeWatcher>>(); }
// copies start with their own watch and leave the source alone
template <class W>
static void copy_death()
{
	install_reporter<Rep>();
	{
		W* a = new W{};
		ScopedExpectation ea = a->expect_destruct();
		W* b = new W{std::as_const(*a)};
		irx_assert(n_full == 0 && silent() == 0 && !ea.is_satisfied(), "copying-reports-nothing");
		if (irx_bool())
		{
			ScopedExpectation eb = b->expect_destruct();
			irx_assert(dies(b) && eb.is_satisfied() && !ea.is_satisfied(), "copy-has-its-own-watch");
			irx_reach("copy-expected");
		}
		else
		{
			irx_assert(!dies(b) && n_none == 1 && !ea.is_satisfied(), "copy-is-not-covered-by-the-source");
			irx_reach("copy-unexpected");
		}
		irx_assert(dies(a) && ea.is_satisfied(), "source-keeps-its-watch");
	}
	irx_assert(n_unful == 0 && n_err == 0, "no-other-report");
	irx_stop();
}
ENTRY(watch_copy_death) { copy_death<LifetimeWatcher>(); }
ENTRY(watch_copy_death_watched) { copy_death<Watched<Obj, LifetimeWatcher>>(); }
template <class W>
static void copy_assign()
{
	install_reporter<Rep>();
	{
		auto* a = new W{};
		auto* b = new W{};
		ScopedExpectation ea = a->expect_destruct();
		const bool covered = irx_bool();
		std::optional<ScopedExpectation> eb{};
		if (covered) eb.emplace(b->expect_destruct());
		const bool ok = matched([&]{ *b = std::as_const(*a); });
		irx_assert(ok == covered && n_full == (covered ? 1 : 0) && n_none == (covered ? 0 : 1), "previous-watch-ends");
		irx_assert(!covered || eb->is_satisfied(), "previous-watch-ends");
		irx_assert(!ea.is_satisfied(), "source-untouched");
		if (covered)
		{
			ScopedExpectation ec = b->expect_destruct();
			irx_assert(dies(b) && ec.is_satisfied() && !ea.is_satisfied(), "copy-has-its-own-watch");
			irx_reach("covered");
		}
		else
		{
			irx_reach("uncovered");
			irx_assert(dies(b), "dead-watch-is-silent");
		}
		irx_assert(dies(a) && ea.is_satisfied(), "source-keeps-its-watch");
	}
	irx_assert(n_unful == 0 && n_err == 0, "no-other-report");
	irx_stop();
}
ENTRY(watch_copy_assign) { copy_assign<LifetimeWatcher>(); }
ENTRY(watch_copy_assign_watched) { copy_assign<Watched<Obj, LifetimeWatcher>>(); }
// an object assigned to itself keeps its watches
ENTRY(watch_self_move)
{
	install_reporter<Rep>();
	{
		using W = Watched<Obj, LifetimeWatcher, RelocationWatcher>;
		W* a = new W{5};
		W& same = *a;
		ScopedExpectation d = a->expect_destruct();
		ScopedExpectation r = a->expect_relocate();
		irx_assert(matched([&]{ *a = std::move(same); }) && n_full == 1 && r.is_satisfied(), "one-call-per-move");
		irx_assert(!d.is_satisfied(), "moving-is-not-dying");
		bool thrown = false;
		try { (void)a->expect_destruct(); } catch (const std::logic_error&) { thrown = true; }
		irx_assert(thrown, "second-death-expectation-rejected");
		irx_assert(dies(a) && d.is_satisfied() && n_full == 2, "expectation-moved-along");
	}
	irx_assert(silent() == 0, "no-other-report");
	irx_reach("done");
	irx_stop();
}
// both kinds of watches, in either order of declaration: copies start with their own
template <class W>
static void copy_both()
{
	install_reporter<Rep>();
	{
		W* a = new W{5};
		ScopedExpectation da = a->expect_destruct();
		ScopedExpectation ra = a->expect_relocate() and expect::at_most(1);
		W* b{};
		if (irx_bool()) { b = new W{std::as_const(*a)}; irx_reach("constructed"); }
		else
		{
			b = new W{7};
			ScopedExpectation old = b->expect_destruct();
			irx_assert(matched([&]{ *b = std::as_const(*a); }) && old.is_satisfied() && n_full == 1, "previous-watch-ends");
			n_full = 0;
			irx_reach("assigned");
		}
		irx_assert(b->value == 5 && a->value == 5, "object-copied");
		irx_assert(n_full == 0 && silent() == 0 && !da.is_satisfied(), "copying-reports-nothing");
		ScopedExpectation db = b->expect_destruct();
		ScopedExpectation rb = b->expect_relocate();
		W* c{};
		irx_assert(matched([&]{ c = new W{std::move(*b)}; }), "copy-has-its-own-watch");
		irx_assert(n_full == 1 && rb.is_satisfied() && !db.is_satisfied() && silent() == 0, "copy-has-its-own-watch");
		irx_assert(dies(b) && n_full == 1, "moved-from-object-dies-silently");
		irx_assert(dies(c) && n_full == 2 && db.is_satisfied() && !da.is_satisfied(), "copy-has-its-own-watch");
		irx_assert(matched([&]{ W d{std::move(*a)}; irx_assert(!da.is_satisfied() && n_full == 3, "source-keeps-its-watch"); }), "source-keeps-its-watch");
		irx_assert(n_full == 4 && da.is_satisfied() && silent() == 0, "source-keeps-its-watch");
		irx_reach("done");
		irx_stop();
	}
}
ENTRY(watch_copy_both) { copy_both<Watched<Obj, LifetimeWatcher, RelocationWatcher>>(); }
ENTRY(watch_copy_both_reversed) { copy_both<Watched<Obj, RelocationWatcher, LifetimeWatcher>>(); }
// relocations: one call per move from the object, on the watch it carries
template <class W>
static void relocation()
{
	install_reporter<Rep>();
	W a{};
	const int max = irx_int(0, 2);
	int moves = 0;
	{
		ScopedExpectation e = a.expect_relocate() and expect::times(0, max);
		bool ok = matched([&]{
			W b{std::move(a)};
			++moves;
			irx_assert(n_full == 1, "one-call-per-move");
			if (irx_bool())
			{
				W c{};
				irx_assert(matched([&]{ c = std::move(b); }) == (moves < max), "watch-moved-along");
				if (moves < max) ++moves;
				irx_assert(n_full == moves, "one-call-per-move");
				irx_reach("twice");
			}
		});
		irx_assert(ok == (max > 0), "accepted-iff-expected");
		irx_assert(n_full == moves && n_none == 0, "one-call-per-move");
		irx_assert(e.is_satisfied(), "counted-at-its-expectation");
		if (ok) irx_reach("moved"); else irx_reach("unexpected");
	}
	irx_assert(n_unful == 0 && n_err == 0, "no-other-report");
	irx_stop();
}
ENTRY(watch_relocation) { relocation<RelocationWatcher>(); }
ENTRY(watch_relocation_watched) { relocation<Watched<Obj, RelocationWatcher>>(); }
ENTRY(watch_relocation_unexpected)
{
	install_reporter<Rep>();
	Watched<Obj, RelocationWatcher> a{}, b{};
	ScopedExpectation eb = b.expect_relocate() and expect::at_most(1);
	irx_assert(!matched([&]{ if (irx_bool()) { Watched<Obj, RelocationWatcher> c{std::move(a)}; } else b = std::move(a); }), "move-without-expectation-is-reported");
	irx_assert(n_none == 1 && n_full == 0, "move-without-expectation-is-reported-once");
	irx_reach("done");
	irx_stop();
}
ENTRY(watch_relocation_copy)
{
	install_reporter<Rep>();
	{
		Watched<Obj, RelocationWatcher> a{};
		a.value = 5;
		ScopedExpectation ea = a.expect_relocate();
		Watched<Obj, RelocationWatcher> b{std::as_const(a)}, c{};
		c = std::as_const(a);
		irx_assert(n_full == 0 && silent() == 0, "copying-is-not-moving");
		irx_assert(b.value == 5 && c.value == 5, "object-copied");
		irx_assert(!matched([&]{ Watched<Obj, RelocationWatcher> d{std::move(b)}; }), "copy-has-its-own-watch");
		irx_assert(!matched([&]{ Watched<Obj, RelocationWatcher> d{std::move(c)}; }), "copy-has-its-own-watch");
		irx_assert(!ea.is_satisfied(), "source-keeps-its-watch");
		irx_assert(matched([&]{ Watched<Obj, RelocationWatcher> d{std::move(a)}; irx_assert(d.value == 5, "object-moved"); }) && ea.is_satisfied(), "source-keeps-its-watch");
	}
	irx_reach("done");
	irx_stop();
}
// both watchers of one object
ENTRY(watch_both)
{
	install_reporter<Rep>();
	{
		using W = Watched<Obj, LifetimeWatcher, RelocationWatcher>;
		auto* a = new W{7};
		ScopedExpectation d = a->expect_destruct();
		ScopedExpectation r = a->expect_relocate() and expect::times(0, 2);
		W* b = new W{std::move(*a)};
		irx_assert(b->value == 7, "object-moved");
		irx_assert(n_full == 1 && !d.is_satisfied(), "move-makes-one-relocation-and-no-death");
		W* c = new W{};
		*c = std::move(*b);
		irx_assert(c->value == 7, "object-moved");
		irx_assert(n_full == 2 && !d.is_satisfied(), "move-makes-one-relocation-and-no-death");
		irx_assert(dies(a) && dies(b) && n_full == 2, "moved-from-object-dies-silently");
		irx_assert(dies(c) && n_full == 3 && d.is_satisfied(), "expectation-moved-along");
	}
	irx_assert(silent() == 0, "no-other-report");
	irx_reach("done");
	irx_stop();
}
