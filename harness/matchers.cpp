// C24: what the comparison, predicate, identity and range matchers accept.
#include "e2e.hpp"
#include <array>
#include <list>

// ---- operands with arbitrary operators: one verdict per operator and operand order
enum Op { EQ, NE, LT, LE, GT, GE };
static bool lr[6]{}, rl[6]{};
struct L { int id; };
struct R { int id; };
static int la{}, rb{};         // the operands in question
static bool foreign{};
static bool ask(bool (&t)[6], Op o, const L& l, const R& r) { foreign = foreign || l.id != la || r.id != rb; return t[o]; }
#define OPERATOR(sym, op) \
	static bool operator sym(const L& l, const R& r) { return ask(lr, op, l, r); } \
	static bool operator sym(const R& r, const L& l) { return ask(rl, op, l, r); }
OPERATOR(==, EQ) OPERATOR(!=, NE) OPERATOR(<, LT) OPERATOR(<=, LE) OPERATOR(>, GT) OPERATOR(>=, GE)
static bool holds(Mock<void(const L&)>& m, const L& l) { return matched([&] { m(l); }); }
template <class M>
static bool accepts(M matcher, const L& l)
{
	Mock<void(const L&)> m{};
	ScopedExpectation e = m.expect_call(std::move(matcher)) and expect::at_most(1);
	return holds(m, l);
}
template <class Make>
static void operand_order(Op op, Make make)
{
	install_reporter<Rep>();
	const bool v = irx_bool(), other = irx_bool();
	for (int i = 0; i < 6; ++i) { lr[i] = i == op ? v : other; rl[i] = other; }
	la = irx_int(0, 1000000); rb = irx_int(0, 1000000);
	const L l{la};
	const int form = irx_int(0, 4);
	if (form == 0) irx_assert(accepts(make(R{rb}), l) == v, "value-operator-expected");
	else if (form == 1) { auto m = make(R{rb}); irx_assert(accepts(!m, l) == !v, "negation-inverts"); irx_assert(accepts(m, l) == v, "original-unaffected"); }
	else if (form == 2) irx_assert(accepts(!make(R{rb}), l) == !v, "negation-inverts");
	else if (form == 3) irx_assert(accepts(!!make(R{rb}), l) == v, "double-negation");
	else { const R r{rb}; irx_assert(accepts(make(r), l) == v, "value-operator-expected"); }
	irx_assert(!foreign, "these-operands");
	irx_reach("done");
	irx_stop();
}
#define COMPARISON(name, op) ENTRY(compare_##name) { operand_order(op, [](auto&& r) { return matches::name(std::forward<decltype(r)>(r)); }); }
COMPARISON(eq, EQ) COMPARISON(ne, NE) COMPARISON(lt, LT) COMPARISON(le, LE) COMPARISON(gt, GT) COMPARISON(ge, GE)
struct Same { int id; };
static bool same_ids{};
static int sa{}, sb{};
static bool operator ==(const Same& l, const Same& r) { foreign = foreign || l.id != sa || r.id != sb; return same_ids; }
ENTRY(compare_implicit)
{
	// a plain value stands for equality
	install_reporter<Rep>();
	same_ids = irx_bool(); sa = irx_int(0, 1000000); sb = irx_int(0, 1000000);
	Mock<void(const Same&)> m{};
	ScopedExpectation e = m.expect_call(Same{sb}) and expect::at_most(1);
	irx_assert(matched([&] { m(Same{sa}); }) == same_ids && !foreign, "plain-value-is-eq");
	irx_reach("done");
	irx_stop();
}
ENTRY(compare_ints)
{
	install_reporter<Rep>();
	Mock<void(int)> m{};
	const int a = any_int(), b = any_int(), op = irx_int(0, 5);
	const bool neg = irx_bool();
	auto check = [&](auto matcher, bool expected) {
		bool got{};
		if (neg) { ScopedExpectation e = m.expect_call(!matcher) and expect::at_most(1); got = !matched([&] { m(a); }); }
		else { ScopedExpectation e = m.expect_call(matcher) and expect::at_most(1); got = matched([&] { m(a); }); }
		irx_assert(got == expected, "integers");
	};
	if (op == 0) check(matches::eq(b), a == b);
	if (op == 1) check(matches::ne(b), a != b);
	if (op == 2) check(matches::lt(b), a < b);
	if (op == 3) check(matches::le(b), a <= b);
	if (op == 4) check(matches::gt(b), a > b);
	if (op == 5) check(matches::ge(b), a >= b);
	irx_reach("done");
	irx_stop();
}
// ---- expected values are copies, whatever their type
ENTRY(compare_stored)
{
	install_reporter<Rep>();
	Mock<void(std::pair<int, int>, std::tuple<int>, int)> m{};
	int a = any_int(), b = any_int();
	std::pair<int, int> p{a, b}; std::tuple<int> t{b};
	ScopedExpectation e = m.expect_call(p, t, a) and expect::at_most(3);
	const int x = any_int(), y = any_int();
	p = {x, y}; t = {y};
	const int old = a;
	a = x;
	irx_assert(matched([&] { m({x, y}, {y}, x); }) == (x == old && y == b), "compared-as-a-whole");
	irx_reach("done");
	irx_stop();
}
// ---- predicates
static bool pred_of(int v) { static bool t[3]{irx_bool(), irx_bool(), irx_bool()}; return v < 0 ? t[0] : v == 0 ? t[1] : t[2]; }
struct Obj { int v; bool ok() const { return pred_of(v); } bool flag; };
ENTRY(predicates)
{
	install_reporter<Rep>();
	Mock<void(int)> m{}; Mock<void(const Obj&)> o{}; Mock<void(int&)> r{};
	int v = any_int();
	const bool expected = pred_of(v);
	auto p = matches::predicate([](int i) { return pred_of(i); });
	const int form = irx_int(0, 6);
	bool neg = false, got{};
	if (form == 0) { ScopedExpectation e = m.expect_call(p) and expect::at_most(1); got = matched([&] { m(v); }); }
	if (form == 1) { neg = true; ScopedExpectation e = m.expect_call(!p) and expect::at_most(1); got = matched([&] { m(v); }); }
	if (form == 2) { neg = true; ScopedExpectation e = m.expect_call(!std::move(p)) and expect::at_most(1); got = matched([&] { m(v); }); }
	if (form == 3) { ScopedExpectation e = o.expect_call(matches::predicate(&Obj::ok)) and expect::at_most(1); got = matched([&] { o(Obj{v, false}); }); }
	if (form == 4) { neg = true; ScopedExpectation e = o.expect_call(!matches::predicate(&Obj::ok)) and expect::at_most(1); got = matched([&] { o(Obj{v, false}); }); }
	if (form == 5) { ScopedExpectation e = r.expect_call(matches::predicate([&](int& i) { return &i == &v && pred_of(i); })) and expect::at_most(1); got = matched([&] { r(v); }); }
	if (form == 6) { ScopedExpectation e = o.expect_call(matches::predicate(&Obj::flag)) and expect::at_most(1); got = matched([&] { o(Obj{v, expected}); }); }
	irx_assert(got == (neg ? !expected : expected), "accepts-iff-predicate");
	irx_reach("done");
	irx_stop();
}
ENTRY(wildcard_and_instance)
{
	install_reporter<Rep>();
	Mock<void(const Obj&)> m{};
	Obj a{any_int(), irx_bool()}, b{any_int(), irx_bool()};
	const bool same = irx_bool(), neg = irx_bool();
	const Obj& target = same ? a : b;
	{
		ScopedExpectation e = m.expect_call(matches::_);
		irx_assert(matched([&] { m(target); }), "wildcard-accepts");
	}
	bool got{};
	if (neg) { ScopedExpectation e = m.expect_call(!matches::instance(a)) and expect::at_most(1); got = matched([&] { m(target); }); }
	else { ScopedExpectation e = m.expect_call(matches::instance(a)) and expect::at_most(1); got = matched([&] { m(target); }); }
	irx_assert(got == (same != neg), "identity");
	irx_reach("done");
	irx_stop();
}
// ---- ranges
constexpr int N = 3;
template <class M, class T>
static bool says(const M& m, T&& target) { return m.matches(target); }
static int any_array(std::array<int, N>& a) { for (int& x : a) x = any_int(); return irx_int(0, N); }
using Span = std::span<const int>;
ENTRY(range_eq)
{
	std::array<int, N> a{}, b{};
	const int n = any_array(a), k = any_array(b);
	bool expected = n == k;
	for (int i = 0; i < N; ++i)
		if (i < n && i < k) expected = expected && a[i] == b[i];
	const Span target{a.data(), static_cast<std::size_t>(n)};
	const auto m = matches::range::eq(Span{b.data(), static_cast<std::size_t>(k)});
	irx_assert(says(m, target) == expected, "equal-sequences");
	irx_assert(says(!m, target) == !expected, "negation-inverts");
	if (expected) irx_reach("equal"); else irx_reach("different");
	irx_stop();
}
// an arbitrary, not even symmetric relation on three values
static bool rel[2][3][3]{};
struct Ev { int id; };
struct Rv { int id; };
static void any_relation()
{
	const bool other = irx_bool();
	for (auto& t : rel) for (auto& r : t) for (bool& v : r) v = other;
	for (int i = 0; i < 3; ++i) rel[0][i][i] = irx_bool();
}
ENTRY(range_eq_comparator)
{
	// the comparator sees element and expected element, in this order
	any_relation();
	const Ev a[2]{{0}, {1}}; const Rv b[2]{{0}, {1}};
	const int n = irx_int(0, 2), k = irx_int(0, 2);
	auto comp = [](const auto& x, const auto& y) { return rel[std::same_as<decltype(x), const Ev&> && std::same_as<decltype(y), const Rv&> ? 0 : 1][x.id][y.id]; };
	const auto m = matches::range::eq(std::span{b, static_cast<std::size_t>(k)}, comp);
	bool expected = n == k;
	for (int i = 0; i < 2; ++i)
		if (i < n && i < k) expected = expected && rel[0][i][i];
	const std::span target{a, static_cast<std::size_t>(n)};
	irx_assert(says(m, target) == expected, "comparator");
	irx_reach("done");
	irx_stop();
}
static bool permutation(const std::array<int, N>& a, const std::array<int, N>& b, int n)
{
	if (n == 0) return true;
	if (n == 1) return a[0] == b[0];
	if (n == 2) return (a[0] == b[0] && a[1] == b[1]) || (a[0] == b[1] && a[1] == b[0]);
	bool r = false;
	constexpr int p[6][3]{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (auto& q : p) r = r || (a[0] == b[q[0]] && a[1] == b[q[1]] && a[2] == b[q[2]]);
	return r;
}
ENTRY(range_unordered_eq)
{
	std::array<int, N> a{}, b{};
	const int n = irx_int(0, N), k = irx_int(0, N);
	for (int i = 0; i < N; ++i) { a[i] = any_int(); b[i] = any_int(); }
	const bool expected = n == k && permutation(a, b, n);
	const Span target{a.data(), static_cast<std::size_t>(n)};
	const auto m = matches::range::unordered_eq(Span{b.data(), static_cast<std::size_t>(k)});
	irx_assert(says(m, target) == expected, "permutations");
	irx_assert(says(!m, target) == !expected, "negation-inverts");
	if (expected) irx_reach("equal"); else irx_reach("different");
	irx_stop();
}
ENTRY(range_sorted)
{
	std::array<int, N> a{};
	const int n = any_array(a);
	bool up = true, down = true;
	for (int i = 0; i + 1 < N; ++i)
		if (i + 1 < n) { up = up && a[i] <= a[i + 1]; down = down && a[i] >= a[i + 1]; }
	const Span target{a.data(), static_cast<std::size_t>(n)};
	const int form = irx_int(0, 2);
	if (form == 0) irx_assert(says(matches::range::is_sorted(), target) == up, "sorted");
	if (form == 1) irx_assert(says(matches::range::is_sorted(std::greater{}), target) == down, "sorted-by-relation");
	if (form == 2) irx_assert(says(!matches::range::is_sorted(), target) == !up, "negation-inverts");
	irx_reach("done");
	irx_stop();
}
ENTRY(range_sizes)
{
	std::array<int, N> a{};
	const int n = any_array(a);
	const Span target{a.data(), static_cast<std::size_t>(n)};
	const int s = irx_int(-2, N + 2);
	irx_assert(says(matches::range::is_empty(), target) == (n == 0) && says(!matches::range::is_empty(), target) == (n != 0), "empty");
	irx_assert(says(matches::range::has_size(s), target) == (s == n) && says(!matches::range::has_size(s), target) == (s != n), "size");
	irx_assert(!says(matches::range::has_size(static_cast<signed char>(-1)), target), "size");
	irx_assert(says(matches::range::has_size(static_cast<unsigned char>(n)), target), "size");
	irx_reach("done");
	irx_stop();
}
struct Verdicts { int id; };
static bool verdicts[N]{};
struct Inner
{
	bool matches(const Verdicts& v) const { return verdicts[v.id]; }
	static StringT describe() { return {}; }
};
ENTRY(range_elements)
{
	const Verdicts a[N]{{0}, {1}, {2}};
	for (bool& v : verdicts) v = irx_bool();
	const int n = irx_int(0, N);
	bool all = true, any = false;
	for (int i = 0; i < N; ++i)
		if (i < n) { all = all && verdicts[i]; any = any || verdicts[i]; }
	const std::span target{a, static_cast<std::size_t>(n)};
	irx_assert(says(matches::range::each_element(Inner{}), target) == all && says(!matches::range::each_element(Inner{}), target) == !all, "each-element");
	irx_assert(says(matches::range::any_element(Inner{}), target) == any && says(!matches::range::any_element(Inner{}), target) == !any, "any-element");
	const Inner given{};
	irx_assert(says(matches::range::each_element(given), target) == all && says(matches::range::any_element(given), target) == any, "given-by-reference");
	irx_reach("done");
	irx_stop();
}
// ---- ranges of any length: element 0 of the construction is accepted by the inner matcher, element 1 is not
using Box = std::unique_ptr<Verdicts>;
struct Unboxing
{
	bool matches(const Box& v) const { return v->id == 0; }
	static StringT describe() { return {}; }
};
struct Any { std::vector<Box> v; int n; };
static void any_range(Any& a)
{
	a.v.reserve(2);
	a.v.push_back(std::make_unique<Verdicts>(0));
	a.v.push_back(std::make_unique<Verdicts>(1));
	a.n = static_cast<int>(irx_generalize(&a.v, sizeof a.v));
}
ENTRY(range_elements_any_length)
{
	Any a{};
	any_range(a);
	const int form = irx_int(0, 3);
	const bool negated = irx_bool(), every = irx_bool();
	if (form == 0) irx_assume_kinds(&a.v, sizeof a.v, 0, a.n, 1u);
	if (form == 1) irx_assume_kinds(&a.v, sizeof a.v, 0, a.n, 2u);
	const void* mark{};
	if (form >= 2)
	{
		const int at = irx_int(0, 1 << 30);
		irx_assume(at < a.n);
		irx_assume(irx_kind(&a.v, sizeof a.v, at) == (form == 2 ? 1 : 0));
		mark = a.v[static_cast<std::size_t>(at)].get();
		irx_landmark(mark);
	}
	const std::vector<Box>& target = a.v;
	bool got{};
	if (every) got = negated ? !says(!matches::range::each_element(Unboxing{}), target) : says(matches::range::each_element(Unboxing{}), target);
	else got = negated ? !says(!matches::range::any_element(Unboxing{}), target) : says(matches::range::any_element(Unboxing{}), target);
	if (form == 0) irx_assert(got == (every || a.n > 0), "all-accepted");
	if (form == 1) irx_assert(got == (every && a.n == 0), "none-accepted");
	if (form == 2) irx_assert(!(every && got), "one-rejected");
	if (form == 3) irx_assert(every || got, "one-accepted");
	irx_reach("done");
	irx_keep(mark);
	irx_stop();
}
ENTRY(range_sizes_any_length)
{
	static Any a{};
	any_range(a);
	const int s = any_int();
	irx_assert(says(matches::range::is_empty(), a.v) == (a.n == 0), "empty");
	irx_assert(says(matches::range::has_size(s), a.v) == (s == a.n) && says(!matches::range::has_size(s), a.v) == (s != a.n), "size");
	irx_assert(says(matches::range::has_size(static_cast<unsigned>(s)), a.v) == (s >= 0 ? s == a.n : false), "size");
	irx_reach("done");
	irx_stop();
}

template <class T>
static void size_of_any_width(long n, long lo, long hi)
{
	const T s = static_cast<T>(irx_long(lo, hi));
	const std::span target{static_cast<const char*>(nullptr), static_cast<std::size_t>(n)};
	const bool same = std::is_signed_v<T> || s <= 0x7fffffffffffffff ? static_cast<long>(s) == n : false;
	irx_assert(says(matches::range::has_size(s), target) == same && says(!matches::range::has_size(s), target) == !same, "size-of-any-width");
}
ENTRY(range_size_widths)
{
	const long n = irx_long(0, 0x7fffffffffffffff);
	const int k = irx_int(0, 6);
	if (k == 0) size_of_any_width<signed char>(n, -128, 127);
	if (k == 1) size_of_any_width<unsigned char>(n, 0, 255);
	if (k == 2) size_of_any_width<short>(n, -32768, 32767);
	if (k == 3) size_of_any_width<unsigned short>(n, 0, 65535);
	if (k == 4) size_of_any_width<int>(n, -0x7fffffff - 1, 0x7fffffff);
	if (k == 5) size_of_any_width<unsigned>(n, 0, 0xffffffff);
	if (k == 6) size_of_any_width<long>(n, -0x7fffffffffffffff, 0x7fffffffffffffff);
	irx_reach("done");
	irx_stop();
}
