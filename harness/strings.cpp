// C25: what the string matchers accept, for arbitrary characters (negative ones and NUL included) and texts of up to three characters.
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;

// The C library: toupper and tolower are arbitrary functions on the values of unsigned char.
struct Mapping
{
	int from[16]{}, to[16]{}, n{};
	int operator ()(int c)
	{
		for (int i = 0; i < n; ++i)
			if (from[i] == c) return to[i];
		irx_assume(n < 16);
		from[n] = c;
		return to[n++] = irx_int(0, 127);
	}
};
static Mapping upper{}, lower{};
extern "C" int toupper(int c) noexcept { irx_assert(c >= -1 && c <= 255, "domain-of-toupper"); return upper(c); }
extern "C" int tolower(int c) noexcept { irx_assert(c >= -1 && c <= 255, "domain-of-tolower"); return lower(c); }
extern "C" std::size_t strlen(const char* s) noexcept { std::size_t n{}; while (s[n] != 0) ++n; return n; }
static std::size_t unit = 1;         // size of the characters compared
extern "C" int memcmp(const void* a, const void* b, std::size_t n) noexcept
{
	if (unit == 4)
	{
		n /= 4;
		for (std::size_t i{}; i != n; ++i)
		{
			const std::uint32_t x = static_cast<const std::uint32_t*>(a)[i], y = static_cast<const std::uint32_t*>(b)[i];
			if (x != y) return x < y ? -1 : 1;
		}
		return 0;
	}
	for (std::size_t i{}; i != n; ++i)
	{
		const unsigned char x = static_cast<const unsigned char*>(a)[i], y = static_cast<const unsigned char*>(b)[i];
		if (x != y) return x < y ? -1 : 1;
	}
	return 0;
}

constexpr int N = 5;
struct Text
{
	char* c;
	int n{};
	std::string_view view() const { return {c, static_cast<std::size_t>(n)}; }
};
static void any_text(Text& t, int lo, int max)
{
	for (int i = 0; i < N; ++i) t.c[i] = static_cast<char>(irx_int(lo, 127));
	t.n = irx_int(0, max);
}
static int folded(char c) { const int u = c < 0 ? c + 256 : c; return upper(u); }
static bool same_char(char a, char b, bool fold) { return fold ? folded(a) == folded(b) : a == b; }
static bool occurs_at(const Text& t, const Text& p, int at, bool fold)
{
	if (at < 0 || at + p.n > t.n) return false;
	for (int i = 0; i < p.n; ++i)
		if (!same_char(t.c[at + i], p.c[i], fold)) return false;
	return true;
}
enum Mode { EQ, STARTS, ENDS, CONTAINS };
static bool expected(Mode m, const Text& t, const Text& p, bool fold)
{
	if (m == EQ) return t.n == p.n && occurs_at(t, p, 0, fold);
	if (m == STARTS) return occurs_at(t, p, 0, fold);
	if (m == ENDS) return occurs_at(t, p, t.n - p.n, fold);
	for (int i = 0; i <= t.n; ++i)
		if (occurs_at(t, p, i, fold)) return true;
	return false;
}
template <class M, class T>
static bool says(const M& m, T&& target) { return m.matches(target); }

template <class Make>
static void texts(Mode mode, bool fold, int lo, int max, Make make)
{
	char tc[N + 1]{}, pc[N + 1]{};
	Text t{tc}, p{pc};
	any_text(t, lo, max);
	any_text(p, lo, std::min(max, 4));
	const std::string_view target = t.view();
	const bool neg = irx_bool();
	const bool got = neg ? !says(!make(p.view()), target) : says(make(p.view()), target);
	const bool want = expected(mode, t, p, fold);
	irx_assert(got == want, "text");
	if (want) irx_reach("accepted"); else irx_reach("rejected");
	irx_stop();
}
// folding: up to two arbitrary characters, or up to three non-negative ones
#define MATCHER(name, mode) \
	ENTRY(str_##name) { texts(mode, false, -128, 5, [](auto&& p) { return matches::str::name(std::forward<decltype(p)>(p)); }); } \
	ENTRY(str_##name##_folded) { texts(mode, true, -128, 2, [](auto&& p) { return matches::str::name(std::forward<decltype(p)>(p), case_insensitive); }); } \
	ENTRY(str_##name##_folded_longer) { texts(mode, true, 0, 3, [](auto&& p) { return matches::str::name(std::forward<decltype(p)>(p), case_insensitive); }); }
MATCHER(eq, EQ) MATCHER(starts_with, STARTS) MATCHER(ends_with, ENDS) MATCHER(contains, CONTAINS)

// ---- other kinds of texts
template <class T> struct irx_real_allocator
{
	using value_type = T;
	irx_real_allocator() = default;
	template <class U> irx_real_allocator(const irx_real_allocator<U>&) {}
	T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
	void deallocate(T* p, std::size_t) { ::operator delete(p); }
	bool operator ==(const irx_real_allocator&) const = default;
};
using String = std::basic_string<char, std::char_traits<char>, irx_real_allocator<char>>;
static int length(const char* s) { int n{}; while (s[n] != 0) ++n; return n; }
// pointers and arrays stand for the text up to the terminator, wherever it is stored
ENTRY(str_pointers)
{
	char tc[3]{}, pc[3]{};
	for (int i = 0; i < 2; ++i) { tc[i] = static_cast<char>(irx_int(-128, 127)); pc[i] = static_cast<char>(irx_int(-128, 127)); }
	const Text t{tc, length(tc)}, p{pc, length(pc)};
	const char* const pattern = pc;
	const char* target = tc;
	const int form = irx_int(0, 5), mode = irx_int(0, 3);
	auto check = [&](auto&& tgt, auto&& pat) {
		if (mode == EQ) return says(matches::str::eq(pat), tgt);
		if (mode == STARTS) return says(matches::str::starts_with(pat), tgt);
		if (mode == ENDS) return says(matches::str::ends_with(pat), tgt);
		return says(matches::str::contains(pat), tgt);
	};
	bool got{};
	if (form == 0) got = check(target, pattern);
	if (form == 1) got = check(tc, pattern);
	if (form == 2) got = check(target, pc);
	if (form == 3) got = check(t.view(), pattern);
	if (form == 4) got = check(target, p.view());
	if (form == 5) { char* mt = tc; char* mp = pc; got = check(mt, mp); }
	irx_assert(got == expected(static_cast<Mode>(mode), t, p, false), "text-up-to-the-terminator");
	irx_reach("done");
	irx_stop();
}
// strings given as pattern are kept, whatever happens to the original
ENTRY(str_owned)
{
	char tc[3]{}, pc[3]{};
	Text t{tc}, p{pc};
	for (int i = 0; i < 2; ++i) { tc[i] = static_cast<char>(irx_int(0, 127)); pc[i] = static_cast<char>(irx_int(0, 127)); }
	t.n = 2; p.n = 2;
	const int form = irx_int(0, 2), mode = irx_int(0, 3);
	auto check = [&](auto m) {
		const String target(tc, static_cast<std::size_t>(t.n));
		return says(m, target);
	};
	auto given = [&](auto make) {
		if (form == 0) return check(make(String(pc, static_cast<std::size_t>(p.n))));
		String s(pc, static_cast<std::size_t>(p.n));
		if (form == 1) { auto m = make(s); s[0] = static_cast<char>(irx_int(0, 127)); return check(std::move(m)); }
		const String c = s;
		return check(make(c));
	};
	bool got{};
	if (mode == EQ) got = given([](auto&& p) { return matches::str::eq(std::forward<decltype(p)>(p)); });
	if (mode == STARTS) got = given([](auto&& p) { return matches::str::starts_with(std::forward<decltype(p)>(p)); });
	if (mode == ENDS) got = given([](auto&& p) { return matches::str::ends_with(std::forward<decltype(p)>(p)); });
	if (mode == CONTAINS) got = given([](auto&& p) { return matches::str::contains(std::forward<decltype(p)>(p)); });
	irx_assert(got == expected(static_cast<Mode>(mode), t, p, false), "kept-text");
	irx_reach("done");
	irx_stop();
}
// wider characters
static int up_to_two() { return irx_bool() ? 0 : irx_bool() ? 1 : 2; }
template <class C>
static void wide()
{
	unit = sizeof(C);
	C tc[2]{}, pc[2]{};
	for (C& c : tc) c = static_cast<C>(irx_int(0, 0x10ffff));
	for (C& c : pc) c = static_cast<C>(irx_int(0, 0x10ffff));
	const int n = up_to_two(), k = up_to_two(), mode = irx_int(0, 3);
	const std::basic_string_view<C> target{tc, static_cast<std::size_t>(n)}, pattern{pc, static_cast<std::size_t>(k)};
	auto at = [&](int i) {
		if (i < 0 || i + k > n) return false;
		for (int j = 0; j < k; ++j)
			if (tc[i + j] != pc[j]) return false;
		return true;
	};
	bool got{}, want{};
	if (mode == EQ) { got = says(matches::str::eq(pattern), target); want = n == k && at(0); }
	if (mode == STARTS) { got = says(matches::str::starts_with(pattern), target); want = at(0); }
	if (mode == ENDS) { got = says(matches::str::ends_with(pattern), target); want = at(n - k); }
	if (mode == CONTAINS) { got = says(matches::str::contains(pattern), target); want = at(0) || at(1) || at(2); }
	irx_assert(got == want, "text");
	irx_reach("done");
	irx_stop();
}
ENTRY(str_wchar) { wide<wchar_t>(); }
ENTRY(str_char32) { wide<char32_t>(); }
