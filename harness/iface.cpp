// C22: calls through an interface arrive at the associated mock, once, with the very arguments, and return its very result.
#include "e2e.hpp"
struct Tracked
{
	int id{};
	int copies{};
	Tracked() = default;
	explicit Tracked(int i) : id{i} {}
	Tracked(const Tracked& o) : id{o.id}, copies{o.copies + 1} {}
	Tracked(Tracked&& o) noexcept : id{o.id}, copies{o.copies} { o.id = -1; }
	Tracked& operator=(const Tracked&) = default;
};
struct MoveOnly
{
	int id{};
	explicit MoveOnly(int i) : id{i} {}
	MoveOnly(MoveOnly&& o) noexcept : id{o.id} { o.id = -1; }
};
struct Flat
{
	virtual ~Flat() = default;
	virtual void none() = 0;
	virtual int six(int, int, int, int, int, int) = 0;
	virtual int nine(int, int, int, int, int, int, int, int, int) const = 0;
	virtual Tracked values(Tracked, MoveOnly, int) = 0;
	virtual Tracked& lvalues(Tracked&, const Tracked&, int&) const = 0;
	virtual Tracked&& rvalues(Tracked&&, const Tracked&&) noexcept = 0;
	virtual const Tracked& pointers(Tracked*, const Tracked* const, Tracked* const*) const noexcept = 0;
	virtual std::pair<Tracked, Tracked> commas(std::pair<Tracked, Tracked>, const std::tuple<int, int>&) = 0;
	virtual int qualified() & = 0;
	virtual int qualified() const & = 0;
	virtual int qualified() && = 0;
	virtual int loaded(int) = 0;
	virtual int loaded(int) const = 0;
	virtual int loaded(int, int) noexcept = 0;
	virtual int loaded(Tracked&) = 0;
	virtual int loaded(const MoveOnly&) = 0;
};
struct FlatMock : Flat
{
	MIMICPP_MOCK_METHOD(none, void, ());
	MIMICPP_MOCK_METHOD(six, int, (int, int, int, int, int, int));
	MIMICPP_MOCK_METHOD(nine, int, (int, int, int, int, int, int, int, int, int), const);
	MIMICPP_MOCK_METHOD(values, Tracked, (Tracked, MoveOnly, int));
	MIMICPP_MOCK_METHOD(lvalues, Tracked&, (Tracked&, const Tracked&, int&), const);
	MIMICPP_MOCK_METHOD(rvalues, Tracked&&, (Tracked&&, const Tracked&&), noexcept);
	MIMICPP_MOCK_METHOD(pointers, const Tracked&, (Tracked*, const Tracked* const, Tracked* const*), const noexcept);
	MIMICPP_MOCK_METHOD(commas, (std::pair<Tracked, Tracked>), ((std::pair<Tracked, Tracked>), (const std::tuple<int, int>&)));
	MIMICPP_MOCK_OVERLOADED_METHOD(qualified,
		MIMICPP_ADD_OVERLOAD(int, (), &),
		MIMICPP_ADD_OVERLOAD(int, (), const &),
		MIMICPP_ADD_OVERLOAD(int, (), &&));
	MIMICPP_MOCK_OVERLOADED_METHOD(loaded,
		MIMICPP_ADD_OVERLOAD(int, (int)),
		MIMICPP_ADD_OVERLOAD(int, (int), const),
		MIMICPP_ADD_OVERLOAD(int, (int, int), noexcept),
		MIMICPP_ADD_OVERLOAD(int, (Tracked&)),
		MIMICPP_ADD_OVERLOAD(int, (const MoveOnly&)));
};
static int calls{};

ENTRY(iface_none)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	ScopedExpectation e = m.none_.expect_call() and then::invoke([&] { ++calls; });
	i.none();
	irx_assert(calls == 1 && n_full == 1, "once");
	irx_reach("done");
	irx_stop();
}
ENTRY(iface_order)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	int a[9];
	for (int& x : a) x = any_int();
	const int r = any_int();
	bool same{};
	const bool nine = irx_bool();
	if (nine)
	{
		using matches::_;
		ScopedExpectation e = m.nine_.expect_call(_, _, _, _, _, _, _, _, _)
						and finally::returns_apply_all_result_of([&](int p0, int p1, int p2, int p3, int p4, int p5, int p6, int p7, int p8) {
							++calls;
							same = p0 == a[0] && p1 == a[1] && p2 == a[2] && p3 == a[3] && p4 == a[4] && p5 == a[5] && p6 == a[6] && p7 == a[7] && p8 == a[8];
							return r; });
		irx_assert(i.nine(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]) == r, "result");
	}
	else
	{
		using matches::_;
		ScopedExpectation e = m.six_.expect_call(_, _, _, _, _, _)
						and finally::returns_apply_all_result_of([&](int p0, int p1, int p2, int p3, int p4, int p5) {
							++calls;
							same = p0 == a[0] && p1 == a[1] && p2 == a[2] && p3 == a[3] && p4 == a[4] && p5 == a[5];
							return r; });
		irx_assert(i.six(a[0], a[1], a[2], a[3], a[4], a[5]) == r, "result");
	}
	irx_assert(same, "arguments-in-order");
	irx_assert(calls == 1 && n_full == 1, "once");
	irx_reach("done");
	irx_stop();
}
ENTRY(iface_values)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	const int x = irx_int(0, 1000000), y = irx_int(0, 1000000), z = irx_int(0, 1000000), r = irx_int(0, 1000000);
	int seen[3]{}, copies{};
	ScopedExpectation e = m.values_.expect_call(matches::_, matches::_, matches::_)
					and finally::returns_apply_all_result_of([&](Tracked& t, MoveOnly& o, int& v) { ++calls; seen[0] = t.id; seen[1] = o.id; seen[2] = v; copies = t.copies; return Tracked{r}; });
	Tracked given{x};
	const bool moved = irx_bool();
	Tracked got = moved ? i.values(std::move(given), MoveOnly{y}, z) : i.values(given, MoveOnly{y}, z);
	irx_assert(seen[0] == x && seen[1] == y && seen[2] == z, "arguments-in-order");
	irx_assert(copies == (moved ? 0 : 1), "only-the-caller-copies");
	irx_assert(got.id == r && got.copies == 0, "result");
	irx_assert(calls == 1 && n_full == 1, "once");
	irx_reach("done");
	irx_stop();
}
ENTRY(iface_references)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	const Flat& c = m;
	Tracked a{1}, b{2}, r{3};
	int n{};
	bool same{}, result{};
	const int form = irx_int(0, 2);
	if (form == 0)
	{
		ScopedExpectation e = m.lvalues_.expect_call(matches::_, matches::_, matches::_)
						and finally::returns_apply_all_result_of([&](Tracked& p, const Tracked& q, int& v) -> Tracked& { ++calls; same = &p == &a && &q == &b && &v == &n; return r; });
		Tracked& got = c.lvalues(a, b, n);
		result = &got == &r;
	}
	if (form == 1)
	{
		ScopedExpectation e = m.rvalues_.expect_call(matches::_, matches::_)
						and finally::returns_apply_all_result_of([&](Tracked& p, const Tracked& q) -> Tracked&& { ++calls; same = &p == &a && &q == &b; return std::move(r); });
		Tracked&& got = i.rvalues(std::move(a), std::move(std::as_const(b)));
		result = &got == &r;
	}
	if (form == 2)
	{
		Tracked* pr = &r;
		ScopedExpectation e = m.pointers_.expect_call(matches::_, matches::_, matches::_)
						and finally::returns_apply_all_result_of([&](Tracked* p, const Tracked* q, Tracked* const* v) -> const Tracked& { ++calls; same = p == &a && q == &b && v == &pr; return r; });
		const Tracked& got = c.pointers(&a, &b, &pr);
		result = &got == &r;
	}
	irx_assert(same, "same-objects");
	irx_assert(result, "same-result");
	irx_assert(a.id == 1 && b.id == 2 && r.id == 3 && a.copies + b.copies + r.copies == 0, "untouched");
	irx_assert(calls == 1 && n_full == 1, "once");
	irx_reach("done");
	irx_stop();
}
ENTRY(iface_commas)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	const int a = any_int(), b = any_int(), c = any_int(), d = any_int();
	const std::tuple<int, int> t{c, d};
	bool same{};
	ScopedExpectation e = m.commas_.expect_call(matches::_, matches::_)
					and finally::returns_apply_all_result_of([&](std::pair<Tracked, Tracked>& p, const std::tuple<int, int>& q) { ++calls; same = p.first.id == a && p.second.id == b && &q == &t; return std::pair{Tracked{d}, Tracked{c}}; });
	const auto got = i.commas(std::pair{Tracked{a}, Tracked{b}}, t);
	irx_assert(same, "same-objects");
	irx_assert(got.first.id == d && got.second.id == c, "result");
	irx_assert(calls == 1 && n_full == 1, "once");
	irx_reach("done");
	irx_stop();
}
// every overload reaches the mock through its own signature
ENTRY(iface_overloads)
{
	install_reporter<Rep>();
	FlatMock m{};
	Flat& i = m;
	const Flat& c = m;
	const int form = irx_int(0, 7);
	const int v = any_int(), w = any_int(), r = any_int();
	Tracked t{5};
	MoveOnly o{6};
	int got{};
	bool same = true;
	using matches::_;
	{
		ScopedExpectation q0 = m.qualified_.expect_call() and expect::times(form == 0 ? 1 : 0) and finally::returns(r);
		ScopedExpectation q1 = std::as_const(m.qualified_).expect_call() and expect::times(form == 1 ? 1 : 0) and finally::returns(r);
		ScopedExpectation q2 = std::move(m.qualified_).expect_call() and expect::times(form == 2 ? 1 : 0) and finally::returns(r);
		if (form == 0) got = i.qualified();
		if (form == 1) got = c.qualified();
		if (form == 2) got = std::move(i).qualified();
		if (form == 3) { ScopedExpectation l0 = m.loaded_.expect_call(v) and finally::returns(r); got = i.loaded(v); }
		if (form == 4) { ScopedExpectation l0 = std::as_const(m.loaded_).expect_call(v) and finally::returns(r); got = c.loaded(v); }
		if (form == 5) { ScopedExpectation l0 = m.loaded_.expect_call(v, w) and finally::returns(r); got = i.loaded(v, w); }
		if (form == 6) { ScopedExpectation l0 = m.loaded_.expect_call(matches::predicate([&](Tracked& p) { return &p == &t; })) and finally::returns(r); got = i.loaded(t); }
		if (form == 7) { ScopedExpectation l0 = m.loaded_.expect_call(matches::instance(std::as_const(o))) and finally::returns(r); got = i.loaded(std::as_const(o)); }
	}
	irx_assert(got == r && same, "result");
	irx_assert(n_full == 1 && n_none + n_inapp + n_unful + n_err == 0, "reached-through-its-own-signature");
	irx_reach("done");
	irx_stop();
}
