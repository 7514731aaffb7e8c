// C24, C25: string and range matchers on long texts and ranges, one arbitrary character (element) in them. Every path is followed separately.
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;

// latin-1: letters with the high bit set are folded, too
extern "C" int toupper(int c) noexcept
{
	irx_assert(c >= -1 && c <= 255, "domain-of-toupper");
	return (c >= 'a' && c <= 'z') || (c >= 0xe0 && c <= 0xfe) ? c - 32 : c;
}
extern "C" int tolower(int c) noexcept
{
	irx_assert(c >= -1 && c <= 255, "domain-of-tolower");
	return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde) ? c + 32 : c;
}
extern "C" int memcmp(const void* a, const void* b, std::size_t n) noexcept
{
	for (std::size_t i{}; i != n; ++i)
	{
		const unsigned char x = static_cast<const unsigned char*>(a)[i], y = static_cast<const unsigned char*>(b)[i];
		if (x != y) return x < y ? -1 : 1;
	}
	return 0;
}
static constexpr int lengths[][2]{{12, 12}, {17, 17}, {20, 17}, {40, 33}, {66, 64}, {70, 66}, {130, 129}, {258, 257}, {260, 37}, {8, 40}};
template <int n>
static int pick()
{
	const int p = irx_int(0, n - 1);
	for (int i = 0; i < n; ++i)
		if (p == i)
			return i;
	irx_stop();
	return 0;
}
static char letter(int i) { return static_cast<char>(i % 3 == 0 ? 0xe0 + (i * 5 + i / 31) % 22 : i % 3 == 1 ? 'a' + (i * 7 + i / 26) % 26 : '0' + i % 10); }
static int folded(char c) { const int u = c < 0 ? c + 256 : c; return (u >= 'a' && u <= 'z') || (u >= 0xe0 && u <= 0xfe) ? u - 32 : u; }
enum Mode { EQ, STARTS, ENDS, CONTAINS };
static char t[300], p[300];

template <class Make>
static void texts(const Mode mode, const bool fold, Make make)
{
	const auto& [n, m] = lengths[pick<10>()];
	for (int i = 0; i < n; ++i) t[i] = letter(i);
	// where the pattern has been taken from
	const int from = mode == EQ || mode == STARTS || n < m ? 0 : mode == ENDS ? n - m : irx_bool() ? n - m : (n - m) / 2;
	for (int i = 0; i < m; ++i)
	{
		p[i] = letter(from + i);
		if (fold && i % 2) p[i] = static_cast<char>(folded(p[i]));
	}
	// one character of the pattern is arbitrary (folded: the same, of the other case, or close to it)
	const int where = pick<4>();
	const int at = where == 0 ? 0 : where == 1 ? m / 2 : where == 2 ? m - 1 : m - 2;
	const char was = p[at];
	const int u = folded(was);
	int edit = fold ? pick<5>() : irx_int(-128, 127);
	if (fold)
		edit = edit == 0 ? u : edit == 1 ? u + 32 : edit == 2 ? u ^ 1 : edit == 3 ? u ^ 0x80 : u ^ 0x10;
	p[at] = static_cast<char>(edit);
	const bool fits = mode == EQ ? n == m : m <= n;
	const bool same = fold ? folded(p[at]) == folded(was) : edit == was;
	// no part of the text, with any one character changed, occurs in it elsewhere
	const bool want = fits && same;
	const std::string_view target{t, static_cast<std::size_t>(n)}, pattern{p, static_cast<std::size_t>(m)};
	const bool got = make(pattern).matches(target);
	irx_assert(got == want, "long-text");
	if (want) irx_reach("accepted"); else irx_reach("rejected");
	irx_stop();
}
#define MATCHER(name, mode) \
	ENTRY(long_##name) { texts(mode, false, [](auto&& p) { return matches::str::name(std::forward<decltype(p)>(p)); }); } \
	ENTRY(long_##name##_folded) { texts(mode, true, [](auto&& p) { return matches::str::name(std::forward<decltype(p)>(p), case_insensitive); }); } \
	ENTRY(long_not_##name) { texts(mode, false, [](auto&& p) { struct Not { decltype(!matches::str::name(p)) m; bool matches(std::string_view v) const { return !m.matches(v); } }; return Not{!matches::str::name(std::forward<decltype(p)>(p))}; }); }
MATCHER(eq, EQ) MATCHER(starts_with, STARTS) MATCHER(ends_with, ENDS) MATCHER(contains, CONTAINS)

// ---- ranges
static int a[300], b[300];
static constexpr int sizes[]{5, 9, 13, 17, 21, 33, 65, 101, 130, 258};
static int edited{}, size{}, other{};
static void ranges(int count = 10)
{
	(void) count;
	size = sizes[pick<10>()];
	const int w = pick<4>();
	edited = w == 0 ? 0 : w == 1 ? size / 2 : w == 2 ? size - 2 : size - 1;
	other = irx_int(-2147483647 - 1, 2147483647);
	for (int i = 0; i < size; ++i) a[i] = b[i] = i * 3;
}
#define SPAN(x, n) std::span<int>{x, static_cast<std::size_t>(n)}
template <class M, class T>
static bool says(const M& m, T&& target) { return m.matches(target); }

ENTRY(long_range_eq)
{
	ranges();
	a[edited] = other;
	const bool want = other == b[edited];
	const bool got = irx_bool() ? says(matches::range::eq(SPAN(b, size)), SPAN(a, size)) : !says(!matches::range::eq(SPAN(b, size)), SPAN(a, size));
	irx_assert(got == want, "equal-elements");
	if (want) irx_reach("equal"); else irx_reach("different");
	irx_stop();
}
ENTRY(long_range_shorter)
{
	ranges();
	const int n = irx_bool() ? size - 1 : size, m = irx_bool() ? size - 1 : size;
	irx_assert(says(matches::range::eq(SPAN(b, m)), SPAN(a, n)) == (n == m), "equal-lengths");
	irx_assert(says(matches::range::unordered_eq(SPAN(b, m)), SPAN(a, n)) == (n == m), "permutation-of-equal-length");
	irx_reach("done");
	irx_stop();
}
ENTRY(long_range_sorted)
{
	ranges();
	a[edited] = other;
	const bool up = (edited == 0 || a[edited - 1] <= other) && (edited == size - 1 || other <= a[edited + 1]);
	const bool got = irx_bool() ? says(matches::range::is_sorted(), SPAN(a, size)) : !says(!matches::range::is_sorted(), SPAN(a, size));
	irx_assert(got == up, "sorted");
	if (up) irx_reach("sorted"); else irx_reach("unsorted");
	irx_stop();
}
ENTRY(long_range_permutation)
{
	const int n = pick<6>();
	size = sizes[n + 1];
	// rotated, every third element twice
	for (int i = 0; i < size; ++i) b[i] = i - i % 3 / 2;
	const int by = irx_bool() ? 1 : size - 2;
	for (int i = 0; i < size; ++i) a[(i + by) % size] = b[i];
	const int w = pick<3>();
	edited = w == 0 ? 0 : w == 1 ? size / 2 : size - 1;
	const int was = a[edited];
	const int form = pick<4>();
	const int now = form == 0 ? was : form == 1 ? was + 1 : form == 2 ? -1 : (was == 1 ? 4 : 1);
	a[edited] = now;
	const bool want = now == was;
	const bool got = irx_bool() ? says(matches::range::unordered_eq(SPAN(b, size)), SPAN(a, size)) : !says(!matches::range::unordered_eq(SPAN(b, size)), SPAN(a, size));
	irx_assert(got == want, "permutation");
	if (want) irx_reach("permutation"); else irx_reach("none");
	irx_stop();
}
ENTRY(long_range_size)
{
	ranges();
	irx_assert(says(matches::range::has_size(other), SPAN(a, size)) == (other == size), "size");
	irx_assert(says(!matches::range::has_size(other), SPAN(a, size)) == (other != size), "size");
	irx_assert(says(matches::range::has_size(size - 256), SPAN(a, size)) == false, "size");
	irx_assert(says(matches::range::is_empty(), SPAN(a, size)) == false && says(matches::range::is_empty(), SPAN(a, 0)) && says(!matches::range::is_empty(), SPAN(a, size)), "empty");
	irx_reach("done");
	irx_stop();
}
ENTRY(long_range_elements)
{
	ranges();
	a[edited] = other;
	const int bound = 3 * size;
	const bool every = irx_bool();
	if (every)
	{
		const bool got = irx_bool() ? says(matches::range::each_element(matches::lt(bound)), SPAN(a, size)) : !says(!matches::range::each_element(matches::lt(bound)), SPAN(a, size));
		irx_assert(got == (other < bound), "each-element");
		irx_reach("each");
	}
	else
	{
		const bool got = irx_bool() ? says(matches::range::any_element(matches::ge(bound)), SPAN(a, size)) : !says(!matches::range::any_element(matches::ge(bound)), SPAN(a, size));
		irx_assert(got == (other >= bound), "any-element");
		irx_reach("any");
	}
	irx_stop();
}
