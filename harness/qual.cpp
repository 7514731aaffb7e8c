// C11: a call reaches the expectation declared for the signature it resolves to, with that signature's qualification.
#include "e2e.hpp"

struct Where { int constness{-1}, category{-1}; const void* from{}; };
// a user's own policy, which looks at the call
struct Look
{
	Where* w;
	static constexpr bool is_satisfied() noexcept { return true; }
	template <class R, class... A> bool matches(const call::Info<R, A...>& i) const
	{
		w->constness = static_cast<int>(i.fromConstness);
		w->category = static_cast<int>(i.fromCategory);
		return true;
	}
	template <class R, class... A> void consume(const call::Info<R, A...>&) {}
	static StringT describe() { return {}; }
};
template <class Sig, class Obj>
static void one(Constness c, ValueCategory v)
{
	Mock<Sig> m{};
	Where w{};
	const int full = n_full;
	ScopedExpectation e = static_cast<Obj>(m).expect_call() and Look{&w};
	irx_assert(w.constness == -1, "not-called-yet");
	static_cast<Obj>(m)();
	irx_assert(n_full == full + 1 && w.constness == static_cast<int>(c) && w.category == static_cast<int>(v), "qualification-of-the-signature");
}
#define FORM(Q, O, C, V) one<void() Q, Mock<void() Q> O>(Constness::C, ValueCategory::V)
ENTRY(qual_forms)
{
	install_reporter<Rep>();
	FORM(, &, non_const, any); FORM(, &&, non_const, any); FORM(const, const&, as_const, any); FORM(const, &, as_const, any); FORM(const, const&&, as_const, any);
	FORM(&, &, non_const, lvalue); FORM(const&, const&, as_const, lvalue); FORM(const&, &, as_const, lvalue); FORM(const&, const&&, as_const, lvalue);
	FORM(&&, &&, non_const, rvalue); FORM(const&&, const&&, as_const, rvalue); FORM(const&&, &&, as_const, rvalue);
	FORM(noexcept, &, non_const, any); FORM(noexcept, &&, non_const, any); FORM(const noexcept, const&, as_const, any); FORM(const noexcept, &, as_const, any);
	FORM(& noexcept, &, non_const, lvalue); FORM(const& noexcept, const&, as_const, lvalue); FORM(const& noexcept, &, as_const, lvalue);
	FORM(&& noexcept, &&, non_const, rvalue); FORM(const&& noexcept, const&&, as_const, rvalue); FORM(const&& noexcept, &&, as_const, rvalue);
	irx_reach("done");
	irx_stop();
}
// overload sets: the expectation declared through an object form is the one calls through that form reach
template <class... Sigs>
static void overloads()
{
	install_reporter<Rep>();
	Mock<Sigs...> m{};
	const int r0 = irx_token(), r1 = irx_token(), r2 = irx_token(), r3 = irx_token();
	using M = Mock<Sigs...>;
	auto ask = [&](int form) {
		return form == 0 ? static_cast<M&>(m)(7) : form == 1 ? static_cast<const M&>(m)(7) : form == 2 ? static_cast<M&&>(m)(7) : static_cast<const M&&>(m)(7);
	};
	{
		ScopedExpectation e0 = static_cast<M&>(m).expect_call(7) and expect::times(0, 1) and finally::returns(r0);
		ScopedExpectation e1 = static_cast<const M&>(m).expect_call(7) and expect::times(0, 1) and finally::returns(r1);
		ScopedExpectation e2 = static_cast<M&&>(m).expect_call(7) and expect::times(0, 1) and finally::returns(r2);
		ScopedExpectation e3 = static_cast<const M&&>(m).expect_call(7) and expect::times(0, 1) and finally::returns(r3);
		const int f = irx_int(0, 3);
		irx_assert(ask(f) == (f == 0 ? r0 : f == 1 ? r1 : f == 2 ? r2 : r3), "overload-reaches-its-expectation");
		if constexpr (!(std::is_nothrow_invocable_v<M&, int>))
			irx_assert(!matched([&]{ ask(f); }) && n_inapp == 1, "no-other-overload");
		irx_reach("done");
	}
	irx_stop();
}
ENTRY(qual_overloads) { overloads<int(int) &, int(int) const&, int(int) &&, int(int) const&&>(); }
ENTRY(qual_overloads_noexcept) { overloads<int(int) & noexcept, int(int) const&, int(int) && noexcept, int(int) const&& noexcept>(); }
ENTRY(qual_overloads_reversed) { overloads<int(int) const&&, int(int) &&, int(int) const&, int(int) &>(); }
// two qualification forms, and two parameter lists
ENTRY(qual_const_overload)
{
	install_reporter<Rep>();
	using M = Mock<int(int), int(int) const>;
	M m{};
	const int r0 = irx_token(), r1 = irx_token();
	ScopedExpectation e0 = m.expect_call(7) and expect::times(0, 1) and finally::returns(r0);
	ScopedExpectation e1 = std::as_const(m).expect_call(7) and expect::times(0, 1) and finally::returns(r1);
	const bool c = irx_bool(), rv = irx_bool();
	const int r = c ? rv ? static_cast<const M&&>(m)(7) : std::as_const(m)(7) : rv ? static_cast<M&&>(m)(7) : m(7);
	irx_assert(r == (c ? r1 : r0), "overload-reaches-its-expectation");
	irx_reach("done");
	irx_stop();
}
ENTRY(qual_parameter_overload)
{
	install_reporter<Rep>();
	struct A {}; struct B {};
	Mock<int(A), int(B), int(A, B)> m{};
	const int r0 = irx_token(), r1 = irx_token(), r2 = irx_token();
	struct IsA { bool matches(const A&) const { return true; } StringT describe() const { return {}; } };
	struct IsB { bool matches(const B&) const { return true; } StringT describe() const { return {}; } };
	ScopedExpectation e0 = m.expect_call(IsA{}) and expect::times(0, 1) and finally::returns(r0);
	ScopedExpectation e1 = m.expect_call(IsB{}) and expect::times(0, 1) and finally::returns(r1);
	ScopedExpectation e2 = m.expect_call(IsA{}, IsB{}) and expect::times(0, 1) and finally::returns(r2);
	switch (irx_int(0, 2))
	{
	case 0: irx_assert(m(A{}) == r0, "overload-reaches-its-expectation"); irx_assert(!matched([&]{ m(A{}); }), "no-other-overload"); break;
	case 1: irx_assert(m(B{}) == r1, "overload-reaches-its-expectation"); irx_assert(!matched([&]{ m(B{}); }), "no-other-overload"); break;
	default: irx_assert(m(A{}, B{}) == r2, "overload-reaches-its-expectation"); irx_assert(!matched([&]{ m(A{}, B{}); }), "no-other-overload");
	}
	irx_reach("done");
	irx_stop();
}
