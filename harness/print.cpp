// C23: what printing shows of a value: every element once and in order, the text itself, the state of optionals. The formatting backend is replaced by a recorder.
#define MIMICPP_CONFIG_USE_FMT
#include "irx.hpp"
#include <mimic++/mimic++.hpp>
#include <forward_list>
#include <span>
#include <array>
using namespace mimicpp;
constexpr int LIMIT = 16;
// the recorded events: arguments, and literal characters between them
static long vals[LIMIT];
static const char* texts[LIMIT];
static long sizes[LIMIT];
static int kinds[LIMIT];
static int chars[LIMIT + 1];
static int n{};
namespace fmt
{
	void on_char(char) { if (n <= LIMIT) ++chars[n]; }
	void on_integer(long v, const char*, long) { if (n < LIMIT) { kinds[n] = 1; vals[n] = v; } ++n; }
	void on_text(const char* d, std::size_t s, const char*, long) { if (n < LIMIT) { kinds[n] = 2; texts[n] = d; sizes[n] = static_cast<long>(s); } ++n; }
	void on_object(const void* o) { if (n < LIMIT) { kinds[n] = 3; vals[n] = reinterpret_cast<long>(o); } ++n; }
}
extern "C" std::size_t strlen(const char* s) { std::size_t i{}; while (s[i]) ++i; return i; }
extern "C" std::size_t wcslen(const wchar_t* s) { std::size_t i{}; while (s[i]) ++i; return i; }
struct Sink
{
	using difference_type = std::ptrdiff_t;
	Sink& operator*() { return *this; }
	Sink& operator++() { return *this; }
	Sink operator++(int) { return *this; }
	Sink& operator=(const char&) { return *this; }
};
struct Obj { int id; };
template <> class mimicpp::custom::Printer<Obj> { public: static Sink print(Sink out, const Obj& o) { fmt::on_object(&o); return out; } };
struct Num { int id; long pad[3]{}; };
template <> class mimicpp::custom::Printer<Num> { public: static Sink print(Sink out, const Num& o) { fmt::on_integer(o.id, nullptr, 0); return out; } };
struct Plain { int id; };
enum class Mark : int {};
template <> struct mimicpp::is_character<Mark> : std::true_type {};
template <> class mimicpp::custom::Printer<Mark> { public: static Sink print(Sink out, const Mark& m) { fmt::on_integer(static_cast<int>(m), nullptr, 0); return out; } };
enum class Bare : int {};
template <> struct mimicpp::is_character<Bare> : std::true_type {};

ENTRY(print_sequence)
{
	const int count = irx_int(0, 3), form = irx_int(0, 3);
	int a[3];
	for (int& x : a) x = irx_int(-1000000, 1000000);
	if (form == 0)
	{
		std::vector<Num> v{};
		for (int i = 0; i < count; ++i) v.push_back(Num{a[i]});
		mimicpp::print(Sink{}, v);
	}
	if (form == 1)
	{
		std::forward_list<int> v{};
		for (int i = count; i > 0; --i) v.push_front(a[i - 1]);
		mimicpp::print(Sink{}, std::as_const(v));
	}
	if (form == 2)
	{
		auto show = [&](std::size_t k) { mimicpp::print(Sink{}, std::span<int>{a, k} | std::views::transform([](int& i) { return Num{i}; })); };
		if (count == 0) show(0);
		if (count == 1) show(1);
		if (count == 2) show(2);
		if (count == 3) show(3);
	}
	if (form == 3)
	{
		std::vector<std::vector<int>> v{};
		v.emplace_back();
		for (int i = 0; i < count; ++i) v.back().push_back(a[i]);
		mimicpp::print(Sink{}, v);
	}
	irx_assert(n == count, "every-element-once");
	for (int i = 0; i < 3; ++i)
		if (i < count)
			irx_assert(kinds[i] == 1 && vals[i] == a[i], "in-order");
	for (int i = 1; i < 3; ++i)
		if (i < count)
			irx_assert(chars[i] > 0, "separated");
	irx_assert(chars[0] > 0 && (count == 0 || chars[count] > 0), "delimited");
	irx_reach("done");
}
ENTRY(print_array)
{
	Obj o[3]{{1}, {2}, {3}};
	const std::array<Obj, 3> s{};
	const bool raw = irx_bool();
	if (raw) mimicpp::print(Sink{}, o); else mimicpp::print(Sink{}, s);
	irx_assert(n == 3, "every-element-once");
	const Obj* first = raw ? o : s.data();
	irx_assert(vals[0] == reinterpret_cast<long>(first) && vals[1] == reinterpret_cast<long>(first + 1) && vals[2] == reinterpret_cast<long>(first + 2), "in-order");
	irx_reach("done");
}
ENTRY(print_tuple)
{
	Obj o{1};
	const int x = irx_int(-1000000, 1000000), y = irx_int(-1000000, 1000000);
	const int form = irx_int(0, 3);
	if (form == 0)
	{
		std::tuple<int, Obj&, Num> t{x, o, Num{y}};
		mimicpp::print(Sink{}, t);
		irx_assert(n == 3 && vals[0] == x && kinds[1] == 3 && vals[1] == reinterpret_cast<long>(&o) && vals[2] == y, "tuple");
		irx_assert(chars[0] > 0 && chars[1] > 0 && chars[2] > 0 && chars[3] > 0, "tuple-separated");
	}
	if (form == 1)
	{
		std::pair<Num, const Obj&> t{Num{x}, o};
		mimicpp::print(Sink{}, std::as_const(t));
		irx_assert(n == 2 && vals[0] == x && kinds[1] == 3 && vals[1] == reinterpret_cast<long>(&o), "pair");
		irx_assert(chars[0] > 0 && chars[1] > 0 && chars[2] > 0, "pair-separated");
	}
	if (form == 2)
	{
		mimicpp::print(Sink{}, std::tuple<>{});
		irx_assert(n == 0 && chars[0] > 0, "empty-tuple");
	}
	if (form == 3)
	{
		std::pair<std::tuple<int, std::optional<Num>>, std::pair<int, int>> t{{x, Num{y}}, {y, x}};
		mimicpp::print(Sink{}, t);
		irx_assert(n == 4 && vals[0] == x && vals[1] == y && vals[2] == y && vals[3] == x, "nested");
	}
	irx_reach("done");
}
ENTRY(print_optional)
{
	const bool has = irx_bool();
	const int x = irx_int(-1000000, 1000000);
	std::optional<Num> o{};
	if (has) o = Num{x};
	if (irx_bool()) mimicpp::print(Sink{}, o); else mimicpp::print(Sink{}, std::as_const(o));
	irx_assert(n == (has ? 1 : 0), "value-shown-when-present");
	irx_assert(!has || vals[0] == x, "its-value");
	irx_assert(chars[0] > 0, "state-shown");
	irx_reach("done");
}
ENTRY(print_optional_nested)
{
	const int form = irx_int(0, 2);
	const int x = irx_int(-1000000, 1000000);
	std::optional<std::optional<Num>> o{};
	if (form > 0) o.emplace();
	if (form > 1) o->emplace(Num{x});
	mimicpp::print(Sink{}, o);
	irx_assert(n == (form == 2 ? 1 : 0) && (n == 0 || vals[0] == x), "value-shown-when-present");
	irx_reach("done");
}
static bool shows(const char* p, long size) { return n == 1 && kinds[0] == 2 && texts[0] == p && sizes[0] == size; }
ENTRY(print_text)
{
	static char buf[4];
	const int len = irx_int(0, 3);
	for (int i = 0; i < 3; ++i) if (i < len) { buf[i] = static_cast<char>(irx_int(-128, 127)); irx_assume(buf[i] != 0); }
	buf[len] = 0;
	const int form = irx_int(0, 4);
	char* const m = buf;
	const char* const c = buf;
	if (form == 0) mimicpp::print(Sink{}, c);
	if (form == 1) mimicpp::print(Sink{}, m);
	if (form == 2) mimicpp::print(Sink{}, buf);
	if (form == 3) mimicpp::print(Sink{}, std::as_const(buf));
	if (form == 4) mimicpp::print(Sink{}, std::string_view{c, static_cast<std::size_t>(len)});
	irx_assert(shows(buf, len), "the-text-itself");
	irx_assert(chars[0] > 0 && chars[1] > 0, "quoted");
	irx_reach("done");
}
ENTRY(print_view)
{
	// not terminated, with any content
	static char buf[4]{1, 0, 3, 4};
	const long from = irx_int(0, 4), size = irx_int(0, 4);
	irx_assume(from + size <= 4);
	std::string_view v{buf + from, static_cast<std::size_t>(size)};
	mimicpp::print(Sink{}, v);
	irx_assert(shows(buf + from, size), "the-text-itself");
	irx_assert(chars[0] > 0 && chars[1] > 0, "quoted");
	irx_reach("done");
}
ENTRY(print_null)
{
	const int form = irx_int(0, 2);
	if (form == 0) mimicpp::print(Sink{}, static_cast<const char*>(nullptr));
	if (form == 1) mimicpp::print(Sink{}, static_cast<char*>(nullptr));
	if (form == 2) mimicpp::print(Sink{}, static_cast<const char16_t*>(nullptr));
	irx_assert(n > 0 || chars[0] > 0, "something-is-shown");
	irx_reach("done");
}
ENTRY(print_other_characters)
{
	const int count = irx_int(0, 3), form = irx_int(0, 4);
	int a[3];
	for (int& x : a) x = irx_int(1, 127);
	auto fill = [&](auto* p) { for (int i = 0; i < 3; ++i) if (i < count) p[i] = static_cast<std::remove_reference_t<decltype(*p)>>(a[i]); p[count] = {}; };
	char8_t u8[4]; char16_t u16[4]; wchar_t w[4]; Mark m[4]; Bare b[4]; unsigned char uc[4];
	int extra{};
	if (form == 0) { fill(u8); mimicpp::print(Sink{}, std::u8string_view{u8, static_cast<std::size_t>(count)}); extra = 1; }
	if (form == 1) { fill(u16); const char16_t* p = u16; mimicpp::print(Sink{}, p); extra = 1; }
	if (form == 2) { fill(w); mimicpp::print(Sink{}, w); extra = 1; }
	if (form == 3) { fill(m); Mark* p = m; mimicpp::print(Sink{}, p); }
	if (form == 4) { fill(b); const Bare* p = b; mimicpp::print(Sink{}, p); }
	(void)uc;
	irx_assert(n == count + extra, "every-character-once");
	irx_assert(extra == 0 || kinds[0] == 2, "prefix");
	for (int i = 0; i < 3; ++i)
		if (i < count)
			irx_assert(kinds[i + extra] == 1 && vals[i + extra] == a[i], "in-order");
	irx_assert(chars[extra] > 0 && chars[n] > 0, "quoted");
	irx_reach("done");
}
ENTRY(print_pointer)
{
	static int x;
	static Obj o;
	const int form = irx_int(0, 4);
	long expected{};
	if (form == 0) { int* p = &x; mimicpp::print(Sink{}, p); expected = reinterpret_cast<long>(&x); }
	if (form == 1) { const Obj* p = &o; mimicpp::print(Sink{}, std::move(p)); expected = reinterpret_cast<long>(&o); }
	if (form == 2) { const void* p = &o; mimicpp::print(Sink{}, p); expected = reinterpret_cast<long>(&o); }
	if (form == 3) { int* p = nullptr; mimicpp::print(Sink{}, std::as_const(p)); }
	if (form == 4) { void (*p)() = nullptr; mimicpp::print(Sink{}, p); }
	irx_assert(n == 1 && kinds[0] == 1 && vals[0] == expected, "the-address");
	irx_reach("done");
}
ENTRY(print_object)
{
	Obj o{1};
	const int form = irx_int(0, 2);
	if (form == 0) mimicpp::print(Sink{}, o);
	if (form == 1) mimicpp::print(Sink{}, std::as_const(o));
	if (form == 2) mimicpp::print(Sink{}, std::move(o));
	irx_assert(n == 1 && kinds[0] == 3 && vals[0] == reinterpret_cast<long>(&o), "the-very-object");
	irx_reach("done");
}
ENTRY(print_placeholder)
{
	Plain p{1};
	mimicpp::print(Sink{}, p);
	irx_assert(n == 0 && chars[0] > 0, "placeholder");
	irx_reach("done");
}
ENTRY(print_location)
{
	const std::source_location loc = std::source_location::current();
	mimicpp::print(Sink{}, loc);
	bool file{}, line{}, column{}, function{};
	for (int i = 0; i < 4; ++i)
	{
		file = file || (kinds[i] == 2 && texts[i] == loc.file_name());
		function = function || (kinds[i] == 2 && texts[i] == loc.function_name());
		line = line || (kinds[i] == 1 && vals[i] == loc.line());
		column = column || (kinds[i] == 1 && vals[i] == loc.column());
	}
	irx_assert(n == 4, "four-parts");
	irx_assert(file, "file");
	irx_assert(line, "line");
	irx_assert(column, "column");
	irx_assert(function, "function");
	irx_reach("done");
}
