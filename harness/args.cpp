// C13, C15: arguments and results, from the public interface.
#include "e2e.hpp"
#include <memory>

// an object whose copies and moves are visible
struct Obj
{
	int token{};
	bool moved{};
	static inline int copies{}, moves{};
	explicit Obj(int t) : token{t} {}
	Obj(const Obj& o) : token{o.token}, moved{o.moved} { ++copies; }
	Obj(Obj&& o) noexcept : token{o.token}, moved{o.moved} { o.moved = true; ++moves; }
	Obj& operator=(const Obj& o) { token = o.token; moved = o.moved; ++copies; return *this; }
	Obj& operator=(Obj&& o) noexcept { token = o.token; moved = o.moved; o.moved = true; ++moves; return *this; }
	bool operator==(const Obj& o) const { return token == o.token; }
};
// what an observer was shown
struct Seen
{
	const void* at{};
	bool is_const{};
	int times{};
	template <class T>
	void operator()(T& t)
	{
		at = std::addressof(t);
		is_const = std::is_const_v<T>;
		++times;
	}
};
struct Shown
{
	Seen* seen;
	template <class T>
	bool matches(T& t) const { (*seen)(t); return true; }
	StringT describe() const { return {}; }
};
template <class T> const void* at(T& t) { return std::addressof(t); }

using AllT = void(Obj, Obj&, const Obj&, Obj&&, const Obj&&);
struct Kinds
{
	Seen s[5]{};
	void check(Obj& b, const Obj& c, Obj& d, const Obj& e, int copies)
	{
		irx_assert(s[0].times == 1 && s[1].times == 1 && s[2].times == 1 && s[3].times == 1 && s[4].times == 1, "shown-once");
		irx_assert(s[1].at == at(b) && s[2].at == at(c) && s[3].at == at(d) && s[4].at == at(e), "the-very-object");
		irx_assert(s[0].at != at(b) && s[0].at != at(c) && s[0].at != at(d) && s[0].at != at(e), "the-parameter-object");
		irx_assert(!s[0].is_const && !s[1].is_const && s[2].is_const && !s[3].is_const && s[4].is_const, "declared-constness");
		irx_assert(Obj::copies == copies, "no-copy");
		irx_assert(!b.moved && !c.moved && !d.moved && !e.moved, "arguments-not-consumed");
	}
};
template <class Setup>
static void kinds(Setup setup)
{
	install_reporter<Rep>();
	Mock<AllT> m{};
	Obj a{irx_token()}, b{irx_token()}, c{irx_token()}, d{irx_token()}, e{irx_token()};
	Kinds k{};
	{
		ScopedExpectation x = setup(m, k.s);
		irx_assert(matched([&]{ m(a, b, std::as_const(c), std::move(d), std::move(std::as_const(e))); }), "accepted");
	}
	k.check(b, c, d, e, 1);
	irx_reach("done");
	irx_stop();
}
ENTRY(arg_requirement_kinds)
{
	kinds([](auto& m, Seen* s) {
		namespace x = expect;
		return ScopedExpectation{m.expect_call(matches::_, matches::_, matches::_, matches::_, matches::_)
			and x::arg<4>(Shown{s + 4}) and x::arg<0>(Shown{s}) and x::arg<2>(Shown{s + 2}) and x::arg<1>(Shown{s + 1}) and x::arg<3>(Shown{s + 3})};
	});
}
ENTRY(arg_positional_kinds)
{
	kinds([](auto& m, Seen* s) {
		return ScopedExpectation{m.expect_call(Shown{s}, Shown{s + 1}, Shown{s + 2}, Shown{s + 3}, Shown{s + 4})};
	});
}
ENTRY(arg_apply_arg_kinds)
{
	kinds([](auto& m, Seen* s) {
		auto see = [](Seen& n) { return [&n](auto& t) { n(t); }; };
		return ScopedExpectation{m.expect_call(matches::_, matches::_, matches::_, matches::_, matches::_)
			and then::apply_arg<4>(see(s[4])) and then::apply_arg<0>(see(s[0])) and then::apply_arg<2>(see(s[2])) and then::apply_arg<1>(see(s[1])) and then::apply_arg<3>(see(s[3]))};
	});
}
ENTRY(arg_apply_args_kinds)
{
	kinds([](auto& m, Seen* s) {
		return ScopedExpectation{m.expect_call(matches::_, matches::_, matches::_, matches::_, matches::_)
			and then::apply_args<3, 1, 4, 0, 2>([s](auto& d, auto& b, auto& e, auto& a, auto& c) { s[0](a); s[1](b); s[2](c); s[3](d); s[4](e); })};
	});
}
ENTRY(arg_apply_all_kinds)
{
	kinds([](auto& m, Seen* s) {
		return ScopedExpectation{m.expect_call(matches::_, matches::_, matches::_, matches::_, matches::_)
			and then::apply_all([s](auto& a, auto& b, auto& c, auto& d, auto& e) { s[0](a); s[1](b); s[2](c); s[3](d); s[4](e); })};
	});
}
ENTRY(arg_predicate_projection)
{
	// a projection sees the very object, the matcher what the projection refers to
	install_reporter<Rep>();
	Mock<void(Obj&, Obj&)> m{};
	Obj a{irx_token()}, b{irx_token()};
	Seen p{}, s{};
	ScopedExpectation x = m.expect_call(matches::_, matches::_)
		and expect::arg<1>(Shown{&s}, [&p](Obj& o) -> int& { p(o); return o.token; });
	irx_assert(matched([&]{ m(a, b); }), "accepted");
	irx_assert(p.at == at(b) && p.times == 1 && s.at == &b.token && s.times == 1, "the-very-object");
	irx_reach("done");
	irx_stop();
}

// every selection of one to three indices of three parameters of the same type
static int n_sel{};
template <std::size_t... is>
static void selection()
{
	++n_sel;
	install_reporter<Rep>();
	Obj o[3]{Obj{irx_token()}, Obj{irx_token()}, Obj{irx_token()}};
	const void* got[3]{};
	int runs = 0;
	auto see = [&](Obj& f, auto&... rest) { ++runs; const void* g[]{at(f), at(rest)...}; for (std::size_t i = 0; i < sizeof...(is); ++i) got[i] = g[i]; return at(f); };
	constexpr std::size_t want[]{is...};
	auto ok = [&](int n) {
		bool r = runs == n;
		for (std::size_t i = 0; i < sizeof...(is); ++i) r = r && got[i] == at(o[want[i]]);
		for (auto& g : got) g = nullptr;
		return r;
	};
	{
		Mock<void(Obj&, Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_, matches::_) and then::apply_args<is...>(see);
		m(o[0], o[1], o[2]);
		irx_assert(ok(1), "side-effect-selection");
	}
	{
		Mock<const void*(Obj&, Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_, matches::_) and finally::returns_apply_result_of<is...>(see);
		irx_assert(m(o[0], o[1], o[2]) == at(o[want[0]]), "result-of-the-action");
		irx_assert(ok(2), "result-selection");
	}
	if constexpr (sizeof...(is) == 1)
	{
		Seen s{};
		Mock<Obj&(Obj&, Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_, matches::_) and expect::arg<is...>(Shown{&s}) and finally::returns_arg<is...>();
		Obj& r = m(o[0], o[1], o[2]);
		irx_assert(at(r) == at(o[want[0]]), "returned-argument");
		irx_assert(s.at == at(o[want[0]]) && s.times == 1, "requirement-selection");
	}
	irx_assert(Obj::copies == 0 && Obj::moves == 0, "no-copy");
}
template <std::size_t... n> static void one(std::index_sequence<n...>) { (selection<n>(), ...); }
template <std::size_t... n> static void two(std::index_sequence<n...>) { (selection<n / 3, n % 3>(), ...); }
template <std::size_t... n> static void three(std::index_sequence<n...>) { (selection<n / 9, n / 3 % 3, n % 3>(), ...); }
ENTRY(arg_selections)
{
	one(std::make_index_sequence<3>{});
	two(std::make_index_sequence<9>{});
	three(std::make_index_sequence<27>{});
	irx_assert(n_sel == 39, "all-selections");
	irx_reach("done");
	irx_stop();
}
ENTRY(arg_all_selection)
{
	install_reporter<Rep>();
	Obj o[3]{Obj{irx_token()}, Obj{irx_token()}, Obj{irx_token()}};
	int runs = 0;
	auto see = [&](Obj& a, Obj& b, Obj& c) { ++runs; irx_assert(at(a) == at(o[0]) && at(b) == at(o[1]) && at(c) == at(o[2]), "declared-order"); return at(b); };
	{
		Mock<void(Obj&, Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_, matches::_) and then::apply_all(see);
		m(o[0], o[1], o[2]);
	}
	{
		Mock<const void*(Obj&, Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_, matches::_) and finally::returns_apply_all_result_of(see);
		irx_assert(m(o[0], o[1], o[2]) == at(o[1]), "result-of-the-action");
	}
	irx_assert(runs == 2 && Obj::copies == 0 && Obj::moves == 0, "invoked-once");
	irx_reach("done");
	irx_stop();
}
// returned arguments keep the category of the parameter
ENTRY(arg_returned)
{
	install_reporter<Rep>();
	Obj a{irx_token()}, b{irx_token()};
	const int ta = a.token, tb = b.token;
	{
		Mock<Obj&&(Obj&, Obj&&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_) and finally::returns_arg<1>();
		Obj&& r = m(a, std::move(b));
		irx_assert(at(r) == at(b) && !b.moved && Obj::copies == 0 && Obj::moves == 0, "rvalue-reference");
	}
	{
		Mock<const Obj&(const Obj&, Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_, matches::_) and finally::returns_arg<0>();
		const Obj& r = m(a, b);
		irx_assert(at(r) == at(a) && Obj::copies == 0 && Obj::moves == 0, "const-reference");
	}
	{
		Mock<Obj(Obj&&)> m{};
		ScopedExpectation x = m.expect_call(matches::_) and finally::returns_arg<0>();
		Obj r = m(std::move(b));
		irx_assert(r.token == tb && !r.moved && b.moved && Obj::copies == 0, "moved-out-of-rvalue");
	}
	Obj::copies = Obj::moves = 0;
	{
		Mock<Obj(Obj&)> m{};
		ScopedExpectation x = m.expect_call(matches::_) and finally::returns_arg<0>();
		Obj r = m(a);
		irx_assert(r.token == ta && !r.moved && !a.moved && Obj::copies == 1, "lvalue-copied");
	}
	Obj::copies = Obj::moves = 0;
	{
		Mock<Obj(Obj)> m{};
		ScopedExpectation x = m.expect_call(matches::_) and finally::returns_arg<0>();
		Obj r = m(a);
		irx_assert(r.token == ta && !r.moved && !a.moved && Obj::copies == 1, "value-moved-out-of-parameter");
	}
	irx_reach("done");
	irx_stop();
}
// every call operator hands the arguments on in order
template <class Sig, class M>
static void frontend()
{
	Mock<Sig> m{};
	Obj a{irx_token()}, b{irx_token()}, c{irx_token()};
	int runs = 0;
	ScopedExpectation x = static_cast<M>(m).expect_call(matches::_, matches::_, matches::_)
		and then::apply_all([&](Obj& p, Obj& q, Obj& r) noexcept { ++runs; irx_assert(at(p) == at(a) && at(q) == at(b) && at(r) == at(c), "declared-order"); });
	static_cast<M>(m)(a, b, std::move(c));
	irx_assert(runs == 1 && Obj::copies == 0 && Obj::moves == 0, "invoked-once");
}
template <class Sig> using MM = Mock<Sig>;
#define FE(Q, R) frontend<void(Obj&, Obj&, Obj&&) Q, MM<void(Obj&, Obj&, Obj&&) Q> R>()
ENTRY(arg_frontends)
{
	install_reporter<Rep>();
	FE(, &); FE(noexcept, &); FE(const, const&); FE(const noexcept, const&);
	FE(&, &); FE(& noexcept, &); FE(const&, const&); FE(const& noexcept, const&);
	FE(&&, &&); FE(&& noexcept, &&); FE(const&&, const&&); FE(const&& noexcept, const&&);
	irx_reach("done");
	irx_stop();
}

// ---- C15
// arbitrarily many calls
template <class Fn>
static void calls(Fn&& fn)
{
	int n = 0;
	do
	{
		irx_assume(n < 1000000000);          // the count of calls is an int
		++n;
		fn();
	} while (irx_bool());
}
template <class Ret>
static void returns_value(bool ref)
{
	install_reporter<Rep>();
	Mock<Ret()> m{};
	const int t = irx_token();
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns(Obj{t});
	const void* first{};
	calls([&] {
		Ret r = m();
		irx_assert(r.token == t, "configured-value");
		irx_assert(!r.moved, "never-moved-from");
		if (ref)
		{
			irx_assert(!first || first == at(r), "the-very-object");
			first = at(r);
		}
		else if (irx_bool())
		{
			[[maybe_unused]] Obj gone{std::move(const_cast<Obj&>(r))};    // the caller may consume what it got
			irx_reach("consumed");
		}
		irx_reach("returned");
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_value) { returns_value<Obj>(false); }
ENTRY(result_const_value) { returns_value<const Obj>(false); }
ENTRY(result_reference_to_stored) { returns_value<Obj&>(true); }
ENTRY(result_const_reference_to_stored) { returns_value<const Obj&>(true); }
ENTRY(result_rvalue_reference_to_stored) { returns_value<Obj&&>(true); }
ENTRY(result_value_from_lvalue)
{
	// the value is the one at the time of the declaration
	install_reporter<Rep>();
	Mock<Obj()> m{};
	const int t = irx_token();
	Obj source{t};
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns(source);
	irx_assert(!source.moved, "source-not-consumed");
	source.token = irx_token();
	source.moved = true;
	calls([&] {
		Obj r = m();
		irx_assert(r.token == t && !r.moved, "configured-value");
	});
	irx_reach("done");
	irx_stop();
}
template <class Ret, class Ref>
static void returns_ref()
{
	install_reporter<Rep>();
	Mock<Ret()> m{};
	Obj o{irx_token()};
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns(Ref{o});
	calls([&] {
		o.token = irx_token();
		Ret r = m();
		irx_assert(r.token == o.token && !o.moved, "current-value");
		if constexpr (std::is_reference_v<Ret>)
			irx_assert(at(r) == at(o), "the-very-object");
		o.token = 0;
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_ref) { returns_ref<Obj&, std::reference_wrapper<Obj>>(); }
ENTRY(result_cref) { returns_ref<const Obj&, std::reference_wrapper<const Obj>>(); }
ENTRY(result_ref_as_const) { returns_ref<const Obj&, std::reference_wrapper<Obj>>(); }
ENTRY(result_ref_as_rvalue) { returns_ref<Obj&&, std::reference_wrapper<Obj>>(); }
ENTRY(result_ref_as_value) { returns_ref<Obj, std::reference_wrapper<Obj>>(); }
ENTRY(result_of)
{
	install_reporter<Rep>();
	Mock<Obj()> m{};
	int runs = 0, made = 0;
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns_result_of([&]() -> Obj { runs = 1; made = irx_token(); return Obj{made}; });
	calls([&] {
		runs = 0;
		Obj::copies = 0;
		Obj r = m();
		irx_assert(runs == 1 && r.token == made && !r.moved && Obj::copies == 0, "invoked-once-and-yields-its-result");
		made = 0;
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_of_counts)
{
	install_reporter<Rep>();
	Mock<int()> m{};
	int runs = 0;
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns_result_of([&]{ ++runs; irx_assume(runs < 1000000000); return runs; });
	int calls_made = 0;
	calls([&] {
		++calls_made;
		irx_assume(calls_made < 1000000000);
		irx_assert(m() == calls_made, "invoked-once-and-yields-its-result");
		irx_assert(runs == calls_made, "invoked-once");
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_of_stateful)
{
	// a stateful callable keeps its state between calls
	install_reporter<Rep>();
	Mock<int()> m{};
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns_result_of([n = 0]() mutable { irx_assume(n < 1000000000); return n++; });
	int expected = 0;
	calls([&] {
		irx_assert(m() == expected, "state-kept");
		++expected;
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_of_reference)
{
	install_reporter<Rep>();
	Mock<Obj&()> m{};
	Obj a{irx_token()}, b{irx_token()};
	Obj* current = &a;
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::returns_result_of([&]() -> Obj& { return *current; });
	calls([&] {
		current = irx_bool() ? &a : &b;
		Obj& r = m();
		irx_assert(at(r) == current && Obj::copies == 0 && Obj::moves == 0, "the-very-object");
	});
	irx_reach("done");
	irx_stop();
}
struct Failure
{
	int token;
	bool moved{};
	explicit Failure(int t) : token{t} {}
	Failure(const Failure&) = default;
	Failure& operator=(const Failure&) = default;
	Failure(Failure&& o) noexcept : token{o.token}, moved{o.moved} { o.moved = true; }
	Failure& operator=(Failure&& o) noexcept { token = o.token; moved = o.moved; o.moved = true; return *this; }
};
template <class Ret>
static void throwing()
{
	install_reporter<Rep>();
	Mock<Ret()> m{};
	const int t = irx_token();
	ScopedExpectation x = m.expect_call() and expect::at_least(1) and finally::throws(Failure{t});
	const void* first{};
	calls([&] {
		bool thrown = false;
		const int full = n_full;
		irx_assume(full < 1000000000);
		try { (void)m(); }
		catch (Failure& e)
		{
			thrown = true;
			irx_assert(e.token == t && !e.moved, "equal-exception");
			if (irx_bool()) { e.token = 0; e.moved = true; }       // a handler may alter what it caught
		}
		irx_assert(thrown, "every-call-throws");
		irx_assert(n_full == full + 1 && n_exc == 0, "accepted-call");
		irx_reach("thrown");
	});
	irx_reach("done");
	irx_stop();
}
ENTRY(result_throws) { throwing<int>(); }
ENTRY(result_throws_void) { throwing<void>(); }
// actions that look at the arguments to produce the result
ENTRY(result_apply)
{
	install_reporter<Rep>();
	Mock<int(int, int)> m{};
	int runs = 0;
	ScopedExpectation x = m.expect_call(matches::_, matches::_) and expect::at_least(1) and finally::returns_apply_result_of<1, 0>([&](int& b, int& a) { runs = 1; return irx_bool() ? a : b; });
	calls([&] {
		runs = 0;
		const int p = irx_token(), q = irx_token();
		const int r = m(p, q);
		irx_assert(runs == 1 && (r == p || r == q), "invoked-once-and-yields-its-result");
	});
	irx_reach("done");
	irx_stop();
}

// a callable that throws
struct ResultError { int id; };
template <class Make>
static void result_throws(Make make)
{
	install_reporter<Rep>();
	Mock<int(int)> m{};
	int runs = 0;
	bool fail = true;
	const int id = irx_int(0, 1000);
	auto fun = [&](auto&...) { ++runs; if (fail) throw ResultError{id}; return 5; };
	ScopedExpectation x = m.expect_call(matches::_) and expect::twice() and make(fun);
	int got = -1;
	try { (void) m(3); } catch (const ResultError& e) { got = e.id; }
	irx_assert(got == id && runs == 1, "exception-of-the-callable-reaches-the-caller");
	irx_assert(n_exc == 0 && n_full == 1 && n_none == 0 && !x.is_satisfied(), "counted-as-match");
	fail = false;
	irx_assert(m(3) == 5 && runs == 2 && x.is_satisfied(), "next-call-unaffected");
	irx_reach("done");
	irx_stop();
}
ENTRY(result_of_throws) { result_throws([](auto& f) { return finally::returns_result_of([&] { return f(); }); }); }
ENTRY(result_of_const_throws) { result_throws([](auto& f) { const auto g = [&] { return f(); }; return finally::returns_result_of(g); }); }
ENTRY(result_apply_throws) { result_throws([](auto& f) { return finally::returns_apply_result_of<0>([&](int& i) { return f(i); }); }); }
ENTRY(result_apply_all_throws) { result_throws([](auto& f) { return finally::returns_apply_all_result_of([&](int& i) { return f(i); }); }); }
struct ThrowingCopy
{
	int v{};
	bool* fail{};
	ThrowingCopy(int i, bool* f) : v{i}, fail{f} {}
	ThrowingCopy(const ThrowingCopy& o) : v{o.v}, fail{o.fail} { if (*fail) throw ResultError{v}; }
	ThrowingCopy& operator =(const ThrowingCopy&) = default;
};
ENTRY(result_copy_throws)
{
	install_reporter<Rep>();
	Mock<ThrowingCopy()> m{};
	bool fail = false;
	const int id = irx_int(0, 1000);
	const ThrowingCopy value{id, &fail};
	ScopedExpectation x = m.expect_call() and expect::twice() and finally::returns(value);
	fail = true;
	int got = -1;
	try { (void) m(); } catch (const ResultError& e) { got = e.id; }
	irx_assert(got == id, "exception-of-the-copy-reaches-the-caller");
	fail = false;
	irx_assert(m().v == id && x.is_satisfied(), "next-call-unaffected");
	irx_reach("done");
	irx_stop();
}

