// C28: the texts made of reports and descriptions state the facts they are made from. The formatting backend is replaced by a recorder of literal text and arguments.
#define VF_STRINGS
#define MIMICPP_CONFIG_USE_FMT
#include "irx.hpp"
#include "mimic++/mimic++.hpp"
using namespace mimicpp;
constexpr int CHARS = 2048, ARGS = 48;
// what has been written: literal text with a \1 for every argument
static char text[CHARS];
static int len{};
enum Kind { Number = 1, Pointer, String, Thing };
static int kinds[ARGS], at[ARGS];
static long numbers[ARGS];
static const void* pointers[ARGS];
static StringT strings[ARGS];
static int n{};
static int add(Kind k)
{
	const int i = n++;
	kinds[i] = k;
	at[i] = len;
	text[len++] = '\1';
	return i;
}
// what may be told: four strings and any number of characters somewhere, everything else are just words
static StringT names[4]{};             // told apart by their content
static bool named{};
static void name_all() { named = true; names[0] = StringT{"the first"}; names[1] = StringT{"the second"}; names[2] = StringT{"the third"}; names[3] = StringT{"the fourth"}; }
static const char* facts[16];
static int n_facts{};
static const char* fact(const char* p) { return facts[n_facts++] = p; }
static bool is_fact(const char* p) { bool r = false; for (int i = 0; i < n_facts; ++i) r = r || facts[i] == p; return r; }
static std::source_location there(std::source_location l) { fact(l.file_name()); fact(l.function_name()); return l; }
static void words(const char* w, std::size_t size) { for (; size && *w; ++w, --size) text[len++] = *w; }
// whether made strings are expected to be arguments of other texts
static bool nested{};
// strings made from what has been written
struct Made { int from, to, first, last; };
static Made made[16], begun[8];
static int n_made{}, open{};
static const char* const made_names[16]{"made 1", "made 2", "made 3", "made 4", "made 5", "made 6", "made 7", "made 8", "made 9", "made 10", "made 11", "made 12", "made 13", "made 14", "made 15", "made 16"};
static int made_as(const StringT& s)
{
	int r = -1;
	if (!irx_text(&s)) irx_vague();          // made in a way that is not followed
	else for (int i = 0; i < n_made; ++i) if (s == StringT{made_names[i]}) r = i;
	return r;
}
namespace fmt
{
	void on_char(char c) { text[len++] = c; }
	void on_integer(long v, const char*, long) { numbers[add(Number)] = v; }
	void on_string(const std::string& s)
	{
		bool fact = false;
		for (int i = 0; named && irx_text(&s) && i < 4; ++i) fact = fact || s == names[i];
		if (!fact)
		{
			if (made_as(s) < 0)
			{
				// words which happen to be kept in a string; anything else has been put together by means which are not followed
				if (const char* l = irx_text(&s)) words(l, ~std::size_t{});
				else strings[add(String)] = s;
				return;
			}
			if (!nested) irx_vague();                                     // the text is there, but at another place
		}
		strings[add(String)] = s;
	}
	void on_text(const char* d, std::size_t size, const char*, long)
	{
		if (size == ~std::size_t{}) on_string(*reinterpret_cast<const std::string*>(d));
		else if (is_fact(d)) pointers[add(Pointer)] = d;
		else words(d, size);
	}
	void on_object(const void* o) { pointers[add(Thing)] = o; }
	const char* literal_of(const std::string& s) { return irx_text(&s); }
	void begin_made() { begun[open].from = len; begun[open].first = n; ++open; }
	std::string end_made()
	{
		--open;
		Made& m = made[n_made];
		m.from = begun[open].from;
		m.first = begun[open].first;
		m.to = len;
		m.last = n;
		return std::string{made_names[n_made++]};
	}
}
// a stream is another way of making a string
struct Buffered { void* buffer; bool failed; };
static char the_buffer;
extern "C" void irx_override__ZNSt19ostreambuf_iteratorIcSt11char_traitsIcEEC2ERSo(Buffered* i, void*) { i->buffer = &the_buffer; i->failed = false; }
extern "C" void irx_override__ZNSt19ostreambuf_iteratorIcSt11char_traitsIcEEC1ERSo(Buffered* i, void*) { i->buffer = &the_buffer; i->failed = false; }
extern "C" void irx_override__ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(void*) { fmt::begin_made(); }
extern "C" std::string irx_override__ZNOSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void*) { return fmt::end_made(); }
extern "C" std::string irx_override__ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void*) { return fmt::end_made(); }
extern "C" std::string irx_override__ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void*) { return fmt::end_made(); }
extern "C" void* irx_override__ZNSt19ostreambuf_iteratorIcSt11char_traitsIcEE6_M_putEPKcl(void* i, const char* w, long size) { words(w, size); return i; }
extern "C" void* irx_override__ZNSo5writeEPKcl(void* o, const char* w, long size) { words(w, size); return o; }
extern "C" void* irx_override__ZNSo3putEc(void* o, char c) { text[len++] = c; return o; }
extern "C" std::size_t strlen(const char* s) { std::size_t i{}; while (s[i]) ++i; return i; }
// views of string objects keep to the object
extern "C" std::string_view irx_override__ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEcvSt17basic_string_viewIcS2_EEv(const std::string* s)
{ return {reinterpret_cast<const char*>(s), ~std::size_t{}}; }
// the name of a type is what its type_info refers to
extern "C" const char* irx_override__ZNKSt9type_info4nameEv(const std::type_info* t) { return reinterpret_cast<const char* const*>(t)[1]; }
// text written into streams is recorded as well
extern "C" std::ostream* irx_override__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(std::ostream* o, const char* s)
{
	if (s) fmt::on_text(s, ~std::size_t{} - 1, nullptr, 0);
	return o;
}
extern "C" std::ostream* irx_override__ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::ostream* o, const StringT* s)
{
	fmt::on_string(*s);
	return o;
}
extern "C" std::ostream* irx_override__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(std::ostream* o, char c) { text[len++] = c; return o; }
extern "C" std::ostream* irx_override__ZNSolsEi(std::ostream* o, int v) { fmt::on_integer(v, nullptr, 0); return o; }
extern "C" std::ostream* irx_override__ZNSolsEj(std::ostream* o, unsigned v) { fmt::on_integer(v, nullptr, 0); return o; }
extern "C" std::ostream* irx_override__ZNSolsEl(std::ostream* o, long v) { fmt::on_integer(v, nullptr, 0); return o; }
extern "C" std::ostream* irx_override__ZNSolsEm(std::ostream* o, unsigned long v) { fmt::on_integer(static_cast<long>(v), nullptr, 0); return o; }
extern "C" void* irx_override__ZNSt19ostreambuf_iteratorIcSt11char_traitsIcEEaSEc(void* o, char c) { text[len++] = c; return o; }
extern "C" std::ostream* irx_override__ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St17basic_string_viewIS3_S4_E(std::ostream* o, std::string_view v)
{
	fmt::on_text(v.data(), v.size(), nullptr, 0);
	return o;
}
// the text of an exception
static StringT thrown_text{};
extern "C" void irx_override__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const StringT* s) { thrown_text = *s; }
struct Sink
{
	using difference_type = std::ptrdiff_t;
	Sink& operator*() { return *this; }
	Sink& operator++() { return *this; }
	Sink operator++(int) { return *this; }
	Sink& operator=(const char& c) { text[len++] = c; return *this; }
};
struct Value { int id; friend bool operator ==(const Value&, const Value&) = default; friend auto operator <=>(const Value&, const Value&) = default; };
template <> class mimicpp::custom::Printer<Value> { public: template <class Out> static Out print(Out out, const Value& o) { fmt::on_object(&o); return out; } };

static void reset() { len = 0; n = 0; n_made = 0; open = 0; }
// whether a made string has exactly this text, with ? for every argument
static bool reads(int m, const char* w)
{
	if (m < 0) return false;
	int i = made[m].from;
	for (; *w; ++w, ++i) if (i >= made[m].to || text[i] != (*w == '?' ? '\1' : *w)) return false;
	return i == made[m].to;
}
// position of the last occurrence of a word before a position, -1 if there is none
static int last(const char* w, int before)
{
	int found = -1;
	for (int i = 0; i < before; ++i)
	{
		int k = 0;
		while (w[k] && i + k < before && text[i + k] == w[k]) ++k;
		if (!w[k]) found = i;
	}
	return found;
}
static bool has(const char* w) { return last(w, len) >= 0; }
static int arg_of(const StringT& s)
{
	int r = -1;
	for (int i = 0; i < n; ++i) if (kinds[i] == String && strings[i] == s) r = r == -1 ? i : -2;
	return r;
}
static int n_strings() { int r = 0; for (int i = 0; i < n; ++i) r += kinds[i] == String; return r; }
// the four parts of a location, as often as given
static int locations(const std::source_location& l)
{
	int r = 0;
	for (int i = 0; i + 3 < n; ++i)
		r += kinds[i] == Pointer && pointers[i] == l.file_name() && kinds[i + 1] == Number && numbers[i + 1] == l.line() && kinds[i + 2] == Number && numbers[i + 2] == l.column()
			&& kinds[i + 3] == Pointer && pointers[i + 3] == l.function_name();
	return r;
}
static int pointer_args() { int r = 0; for (int i = 0; i < n; ++i) r += kinds[i] == Pointer; return r; }
// the numbers told from a position on, in order, once/twice/never included
static long told[12];
static int n_told;
static bool word(int i, const char* w) { int k = 0; while (w[k] && i + k < len && text[i + k] == w[k]) ++k; return !w[k]; }
static void tell(int from)
{
	n_told = 0;
	int arg = 0;
	for (int i = 0; i < len; ++i)
	{
		if (text[i] == '\1') { if (i >= from && kinds[arg] == Number) told[n_told++] = numbers[arg]; ++arg; }
		else if (i < from) continue;
		else if (word(i, "never")) told[n_told++] = 0;
		else if (word(i, "once")) told[n_told++] = 1;
		else if (word(i, "twice")) told[n_told++] = 2;
	}
}
struct Limits
{
	int min, max, count;
	Limits(int a, int b, int c) : min{a}, max{b}, count{c} {}
	Limits(const Limits& o) : min{o.min}, max{o.max}, count{o.count} {}          // not passed in registers
};
static Limits any_limits()
{
	const int a = irx_int(0, 0x7fffffff), b = irx_int(0, 0x7fffffff), c = irx_int(0, 0x7fffffff);
	const Limits l{a, b, c};
	irx_assume(l.min <= l.max && l.count <= l.max);
	return l;
}
// limits and count: the numbers that matter, and whether more matches are possible
static int check_times(const Limits& l)
{
	if (l.count == l.max)
	{
		irx_assert(n_told >= 1 && told[0] == l.count && has("saturated"), "saturation-told-with-count");
		irx_reach("saturated");
		return 1;
	}
	if (l.min <= l.count)
	{
		irx_assert(n_told >= 2 && told[0] == l.count && told[1] == l.max && has("accepts further") && !has("saturated"), "further-matches-told-with-count-and-limit");
		irx_reach("further");
		return 2;
	}
	irx_assert(n_told >= 2 && told[0] == l.count && told[1] == (l.min < l.max ? l.min : l.max) && has("expected") && !has("saturated") && !has("accepts"), "missing-matches-told-with-count-and-limits");
	if (l.min < l.max) irx_assert(n_told >= 3 && told[2] == l.max, "missing-matches-told-with-count-and-limits");
	irx_reach("missing");
	return l.min < l.max ? 3 : 2;
}
ENTRY(times_text)
{
	const Limits l = any_limits();
	detail::print_times_state(Sink{}, l.count, l.min, l.max);
	tell(0);
	irx_assert(check_times(l) == n_told, "no-other-numbers");
	irx_stop();
}
ENTRY(control_text)
{
	const Limits l = any_limits();
	irx_assume(l.min > 2 && l.count > 2);           // those told by words are covered by times_text
	const int a = irx_int(0, 2), b = irx_int(0, 2), kind = irx_int(0, 2);
	std::vector<sequence::rating> ratings{};
	std::vector<sequence::Tag> tags{};
	for (int i = 0; i < a; ++i) ratings.emplace_back(1, sequence::Tag{});
	for (int i = 0; i < b; ++i) tags.emplace_back();
	const detail::control_state_printer print{};
	if (kind == 0) print(Sink{}, state_applicable{l.min, l.max, l.count, ratings});
	if (kind == 1) print(Sink{}, state_inapplicable{l.min, l.max, l.count, ratings, tags});
	if (kind == 2) print(Sink{}, state_saturated{l.min, l.max, l.count, tags});
	tell(0);
	const int k = check_times(l);
	if (kind == 0)
	{
		irx_assert(n_told == (a ? k + 1 : k) && (!a || told[k] == a), "sequences-of-an-applicable-one");
		irx_assert(!has("not the current"), "sequences-of-an-applicable-one");
	}
	if (kind == 1) irx_assert(n_told == k + 2 && told[k] == b && told[k + 1] == a + b && has("not the current"), "sequences-of-an-inapplicable-one");
	if (kind == 2) irx_assert(n_told == (b ? k + 1 : k) && (!b || told[k] == b), "sequences-of-a-saturated-one");
	irx_stop();
}
ENTRY(match_text)
{
	name_all();
	const int count = irx_int(0, 3), control = irx_int(0, 2);
	const bool located = irx_bool();
	bool match[3]{}, described[3]{}, all = true;
	int total = 0;
	MatchReport r{};
	for (int i = 0; i < count; ++i)
	{
		match[i] = irx_bool();
		described[i] = irx_bool();
		all = all && match[i];
		total += described[i];
		r.expectationReports.emplace_back(match[i], described[i] ? std::optional{names[i]} : std::nullopt);
	}
	if (located) r.sourceLocation = there(std::source_location::current());
	if (control == 0) r.controlReport = state_applicable{0, 7, 3};
	if (control == 1) r.controlReport = state_inapplicable{0, 7, 3};
	if (control == 2) r.controlReport = state_saturated{0, 7, 7};
	mimicpp::print(Sink{}, r);
	irx_assert(n_strings() == total, "each-description-once");
	int passed = -1, failed = -1;
	for (int i = 0; i < count; ++i)
	{
		if (!described[i]) continue;
		const int a = arg_of(names[i]);
		irx_assert(a >= 0, "each-description-once");
		const int p = last("passed", at[a]), f = last("failed", at[a]);
		irx_assert(match[i] ? p > f : f > p, "description-under-its-verdict");
		int& before = match[i] ? passed : failed;
		irx_assert(before < a, "descriptions-in-order");
		before = a;
		irx_reach("described");
	}
	irx_assert(has("Unmatched") == !all, "headline-is-the-outcome");
	irx_assert(has("Inapplicable") == (all && control != 0), "headline-is-the-outcome");
	irx_assert(has("Matched") == (all && control == 0), "headline-is-the-outcome");
	if (all && control != 0)
	{
		tell(0);
		irx_assert(n_told >= 1 && told[0] == (control == 1 ? 3 : 7) && has("saturated") == (control == 2), "reason-of-inapplicability");
		irx_reach("inapplicable");
	}
	irx_assert(located ? locations(*r.sourceLocation) == 1 && pointer_args() == 2 : pointer_args() == 0, "location-of-the-expectation");
	irx_stop();
}
struct First {};
struct Third {};
struct Result {};
// what is said about something
static const char* after(const char* t) { while (*t == ':' || *t == ' ' || *t == '\t') ++t; return t; }
ENTRY(call_text)
{
	name_all();
	const int count = irx_int(0, 3);
	const std::type_index types[3]{typeid(First), typeid(Value), typeid(Third)};
	for (const std::type_index& t : types) fact(t.name());
	CallReport r{.returnTypeIndex = typeid(Result), .fromLoc = there(std::source_location::current())};
	fact(r.returnTypeIndex.name());
	r.fromCategory = irx_bool() ? ValueCategory::lvalue : irx_bool() ? ValueCategory::rvalue : ValueCategory::any;
	r.fromConstness = irx_bool() ? Constness::non_const : irx_bool() ? Constness::as_const : Constness::any;
	for (int i = 0; i < count; ++i) r.argDetails.push_back({types[i], names[i]});
	mimicpp::print(Sink{}, r);
	irx_assert(locations(r.fromLoc) == 1, "location-of-the-call");
	irx_assert(n == 4 + 1 + 3 * count, "nothing-else");
	// the qualification of the call
	int returned = 0;
	for (int i = 0, arg = 0, about = 0; i < len && arg < 5; ++i)
	{
		if (text[i] == '\1')
		{
			if (kinds[arg] == Pointer && about == 3) returned += pointers[arg] == typeid(Result).name();
			++arg;
		}
		else if (text[i] == 'c' && word(i, "constness")) about = 1;
		else if (text[i] == 'c' && word(i, "category")) about = 2;
		else if (text[i] == 'r' && word(i, "return")) about = 3;
	}
	const int constness = last("constness", len), category = last("category", len);
	irx_assert(constness >= 0 && category >= 0 && returned == 1, "qualification-and-return-type-told");
	const char* const c = after(text + constness + 9);
	const char* const v = after(text + category + 8);
	irx_assert(c[0] == (r.fromConstness == Constness::non_const ? 'm' : r.fromConstness == Constness::as_const ? 'c' : 'a'), "constness-of-the-call");
	irx_assert(v[0] == (r.fromCategory == ValueCategory::lvalue ? 'l' : r.fromCategory == ValueCategory::rvalue ? 'r' : 'a'), "category-of-the-call");
	for (int i = 0; i < count; ++i)
	{
		const int b = 5 + 3 * i;
		irx_assert(kinds[b] == Number && numbers[b] == i, "arguments-in-order");
		irx_assert(kinds[b + 1] == Pointer && pointers[b + 1] == types[i].name(), "type-of-each-argument");
		irx_assert(kinds[b + 2] == String && strings[b + 2] == names[i], "value-of-each-argument");
		irx_reach("argument");
	}
	irx_stop();
}
ENTRY(expectation_text)
{
	name_all();
	const int count = irx_int(0, 2);
	const bool located = irx_bool(), times = irx_bool(), finally = irx_bool();
	bool described[2]{};
	int total = times + finally;
	ExpectationReport r{};
	for (int i = 0; i < count; ++i)
	{
		described[i] = irx_bool();
		total += described[i];
		r.expectationDescriptions.push_back(described[i] ? std::optional{names[i]} : std::nullopt);
	}
	if (located) r.sourceLocation = there(std::source_location::current());
	if (times) r.timesDescription = names[2];
	if (finally) r.finalizerDescription = names[3];
	mimicpp::print(Sink{}, r);
	irx_assert(n_strings() == total, "each-description-once");
	int before = -1;
	for (int i = 0; i < count; ++i)
		if (described[i])
		{
			const int a = arg_of(names[i]);
			irx_assert(a > before, "descriptions-once-and-in-order");
			irx_assert(last("expects", at[a]) > last("times", at[a]) && last("finally", at[a]) < 0, "description-under-its-heading");
			before = a;
			irx_reach("described");
		}
	if (times) { const int a = arg_of(names[2]); irx_assert(a >= 0 && last("times", at[a]) > last("expects", at[a]), "limits-told"); }
	if (finally) { const int a = arg_of(names[3]); irx_assert(a >= 0 && last("finally", at[a]) > last("expects", at[a]), "finalizer-told"); }
	irx_assert(located ? locations(*r.sourceLocation) == 1 && pointer_args() == 2 : pointer_args() == 0, "location-of-the-expectation");
	irx_stop();
}

// ---------------------------------------------------------------- descriptions of matchers
template <typename T> concept copyable_inversion = requires(const T& t) { !t; };
// the text of a matcher, and after any number of inversions; tells the arguments it was made with
template <int inversions, typename M>
static int described(const M& m, const char* normal, const char* inverted)
{
	reset();
	const int k = made_as(detail::describe_hook::describe(m));
	irx_assert(reads(k, inversions % 2 ? inverted : normal), "text-as-the-matcher-decides");
	return k;
}
template <int inversions = 0, typename M, typename F>
static void every_inversion(M&& m, const char* normal, const char* inverted, F arguments)
{
	arguments(described<inversions>(m, normal, inverted));
	if constexpr (inversions < 3)
	{
		if constexpr (copyable_inversion<std::remove_cvref_t<M>>)
			if (irx_bool()) return every_inversion<inversions + 1>(!std::as_const(m), normal, inverted, arguments);
		every_inversion<inversions + 1>(!std::move(m), normal, inverted, arguments);
	}
	else irx_reach("inverted");
}
// the only argument of a text is the string made by printing a value
static int printed_argument(int k) { return made[k].last - made[k].first == 1 && kinds[made[k].first] == String ? made_as(strings[made[k].first]) : -1; }
ENTRY(matcher_comparisons)
{
	const int id = irx_int(-1000, 1000), which = irx_int(0, 5);
	const Value v{id};
	const auto shown = [&](int k)
	{
		const int p = printed_argument(k);
		irx_assert(p >= 0 && made[p].last - made[p].first == 1 && kinds[made[p].first] == Thing && static_cast<const Value*>(pointers[made[p].first])->id == id, "expected-value-shown");
	};
	if (which == 0) every_inversion(matches::eq(v), "== ?", "!= ?", shown);
	if (which == 1) every_inversion(matches::ne(v), "!= ?", "== ?", shown);
	if (which == 2) every_inversion(matches::lt(v), "< ?", ">= ?", shown);
	if (which == 3) every_inversion(matches::le(v), "<= ?", "> ?", shown);
	if (which == 4) every_inversion(matches::gt(v), "> ?", "<= ?", shown);
	if (which == 5) every_inversion(matches::ge(v), ">= ?", "< ?", shown);
	irx_stop();
}

ENTRY(matcher_others)
{
	name_all();
	const int which = irx_int(0, 4);
	const Value v{irx_int(-1000, 1000)};
	const auto none = [](int k) { irx_assert(made[k].first == made[k].last, "nothing-to-show"); };
	if (which == 0)
	{
		// an address
		every_inversion(matches::instance(v), "is instance at ?", "is not instance at ?", [&](int k)
		{
			const int p = printed_argument(k);
			bool address = false;
			for (int i = made[p < 0 ? 0 : p].first; i < made[p < 0 ? 0 : p].last; ++i) address = address || numbers[i] == reinterpret_cast<long>(&v) || pointers[i] == &v;
			irx_assert(p >= 0 && address, "address-shown");
		});
	}
	if (which == 1) every_inversion(matches::predicate([](const Value&) { return true; }, "the description", "the inverted one"), "the description", "the inverted one", none);
	if (which == 2) every_inversion(matches::range::is_empty(), "is an empty range", "is not an empty range", none);
	if (which == 3) every_inversion(matches::range::is_sorted(), "is a sorted range", "is an unsorted range", none);
	if (which == 4)
	{
		reset();
		const StringViewT w = matches::_.describe();
		const char* expected = "has no constraints";
		int i = 0;
		while (expected[i] && static_cast<std::size_t>(i) < w.size() && w[i] == expected[i]) ++i;
		irx_assert(!expected[i] && w.size() == static_cast<std::size_t>(i), "text-of-the-wildcard");
	}
	irx_stop();
}
ENTRY(matcher_strings)
{
	name_all();
	const int which = irx_int(0, 7);
	const StringT& pattern = names[0];
	const auto shown = [&](int k)
	{
		const int p = printed_argument(k);
		bool found = false;
		for (int i = made[p < 0 ? 0 : p].first; i < made[p < 0 ? 0 : p].last; ++i) found = found || (kinds[i] == String && strings[i] == pattern);
		irx_assert(p >= 0 && made[p].last - made[p].first == 1 && found, "pattern-shown");
	};
	namespace str = matches::str;
	if (which == 0) every_inversion(str::eq(pattern), "is equal to ?", "is not equal to ?", shown);
	if (which == 1) every_inversion(str::eq(pattern, case_insensitive), "is case-insensitively equal to ?", "is case-insensitively not equal to ?", shown);
	if (which == 2) every_inversion(str::starts_with(pattern), "starts with ?", "starts not with ?", shown);
	if (which == 3) every_inversion(str::starts_with(pattern, case_insensitive), "case-insensitively starts with ?", "case-insensitively starts not with ?", shown);
	if (which == 4) every_inversion(str::ends_with(pattern), "ends with ?", "ends not with ?", shown);
	if (which == 5) every_inversion(str::ends_with(pattern, case_insensitive), "case-insensitively ends with ?", "case-insensitively ends not with ?", shown);
	if (which == 6) every_inversion(str::contains(pattern), "contains ?", "contains not ?", shown);
	if (which == 7) every_inversion(str::contains(pattern, case_insensitive), "case-insensitively contains ?", "case-insensitively contains not ?", shown);
	irx_stop();
}
ENTRY(matcher_ranges)
{
	const int which = irx_int(0, 4), a = irx_int(-1000, 1000), b = irx_int(-1000, 1000);
	const auto elements = [&](int k)
	{
		const int p = printed_argument(k);
		irx_assert(p >= 0 && made[p].last - made[p].first == 2 && kinds[made[p].first] == Thing && kinds[made[p].first + 1] == Thing
			&& static_cast<const Value*>(pointers[made[p].first])->id == a && static_cast<const Value*>(pointers[made[p].first + 1])->id == b, "expected-elements-shown");
	};
	if (which == 0) every_inversion(matches::range::eq(std::vector{Value{a}, Value{b}}), "elements are ?", "elements are not ?", elements);
	if (which == 1) every_inversion(matches::range::unordered_eq(std::vector{Value{a}, Value{b}}), "is a permutation of ?", "is not a permutation of ?", elements);
	if (which == 2)
		every_inversion(matches::range::has_size(a), "has size of ?", "has different size than ?", [&](int k)
		{
			const int p = printed_argument(k);
			irx_assert(p >= 0 && made[p].last - made[p].first == 1 && kinds[made[p].first] == Number && numbers[made[p].first] == a, "expected-size-shown");
		});
	const auto inner = [&](int k)
	{
		const int d = printed_argument(k);
		const int p = d < 0 ? -1 : printed_argument(d);
		irx_assert(reads(d, "> ?") && p >= 0 && made[p].last - made[p].first == 1 && kinds[made[p].first] == Thing && static_cast<const Value*>(pointers[made[p].first])->id == a, "inner-matcher-shown");
	};
	if (which == 3) every_inversion(matches::range::each_element(!matches::le(Value{a})), "each el in range: el ?", "not each el in range: el ?", inner);
	if (which == 4) every_inversion(matches::range::any_element(!matches::le(Value{a})), "any el in range: el ?", "none el in range: el ?", inner);
	irx_stop();
}
// ---------------------------------------------------------------- descriptions of requirements
template <std::size_t index, typename M>
static void requirement_text(M matcher, const char* w)
{
	reset();
	const auto r = expect::arg<index>(std::move(matcher));
	const int k = made_as(r.describe());
	irx_assert(reads(k, "expect: arg[?] ?"), "requirement-text");
	const int first = made[k < 0 ? 0 : k].first;
	irx_assert(kinds[first] == Number && numbers[first] == static_cast<long>(index), "index-shown");
	irx_assert(kinds[first + 1] == String && reads(made_as(strings[first + 1]), w), "matcher-shown");
}
template <typename P>
static void policy_text(const char* w)
{
	reset();
	irx_assert(reads(made_as(P{}.describe()), w), "policy-text");
}
ENTRY(requirements)
{
	nested = true;
	requirement_text<0>(matches::eq(Value{1}), "== ?");
	requirement_text<1>(!matches::lt(Value{1}), ">= ?");
	requirement_text<12>(matches::ge(Value{1}), ">= ?");
	{
		// what is already formatted is not formatted again
		reset();
		const auto r = expect::arg<2>(matches::predicate([](int) { return true; }, "braces {{}}", "not"));
		const int k = made_as(r.describe());
		irx_assert(reads(k, "expect: arg[?] ?"), "requirement-text");
		irx_assert(numbers[made[k < 0 ? 0 : k].first] == 2 && reads(made_as(strings[made[k < 0 ? 0 : k].first + 1]), "braces {}"), "matcher-shown");
	}
	using namespace expectation_policies;
	policy_text<Category<ValueCategory::lvalue>>("expect: from lvalue category overload");
	policy_text<Category<ValueCategory::rvalue>>("expect: from rvalue category overload");
	policy_text<Category<ValueCategory::any>>("expect: from any category overload");
	policy_text<expectation_policies::Constness<mimicpp::Constness::non_const>>("expect: from mutable qualified overload");
	policy_text<expectation_policies::Constness<mimicpp::Constness::as_const>>("expect: from const qualified overload");
	policy_text<expectation_policies::Constness<mimicpp::Constness::any>>("expect: from any qualified overload");
	irx_stop();
}
// ---------------------------------------------------------------- texts of the reporters
static int said{};
static StringT said_text{};
static void say(int how, const StringT& t) { said = how; said_text = t; }
constexpr auto on_success = [](const StringT& s) { say(1, s); };
constexpr auto on_warning = [](const StringT& s) { say(2, s); };
constexpr auto on_fail = [](const StringT& s) { say(3, s); throw 1; };
using Speaker = BasicReporter<on_success, on_warning, on_fail>;
static CallReport a_call() { return {.returnTypeIndex = typeid(Result), .argDetails = {{typeid(Value), names[3]}}, .fromLoc = std::source_location::current(), .fromCategory = ValueCategory::lvalue, .fromConstness = Constness::any}; }
static MatchReport a_match(int i, bool matching, bool saturated)
{
	MatchReport r{};
	if (saturated) r.controlReport = state_saturated{0, 7, 7};
	else r.controlReport = state_applicable{0, 7, 3};
	r.expectationReports.push_back({matching, names[i]});
	return r;
}
static bool told_once(const StringT& s) { return arg_of(s) >= 0; }
static void whole(const char* headline)
{
	const int k = made_as(said_text);
	irx_assert(k >= 0 && made[k].from == 0 && made[k].to == len, "the-text-made-is-what-is-said");
	irx_assert(word(0, headline), "headline");
	irx_assert(told_once(names[3]) && last("call from", len) >= 0, "call-told");
}
ENTRY(reporter_no_match)
{
	name_all();
	const int count = irx_int(0, 2);
	std::vector<MatchReport> v{};
	for (int i = 0; i < count; ++i) v.push_back(a_match(i, false, false));
	CallReport c = a_call();
	reset();
	try { Speaker{}.report_no_matches(std::move(c), std::move(v)); } catch (int) {}
	irx_assert(said == 3, "fails");
	whole("No match for call from");
	int before = -1;
	for (int i = 0; i < count; ++i)
	{
		const int a = arg_of(names[i]);
		irx_assert(a > before, "each-expectation-once-and-in-order");
		before = a;
	}
	irx_assert(n_strings() == 1 + count, "nothing-else");
	irx_assert(has("No expectations available") == (count == 0), "no-expectations-told");
	if (count > 0)
	{
		const int w = last("available", len);
		int arg = 0;
		for (int i = 0; i < w; ++i) arg += text[i] == '\1';
		irx_assert(w > 0 && arg > 0 && text[w - 2] == '\1' && kinds[arg - 1] == Number && numbers[arg - 1] == count, "number-of-expectations-told");
		irx_reach("some");
	}
	irx_stop();
}
ENTRY(reporter_inapplicable)
{
	name_all();
	const int count = irx_int(1, 2);
	std::vector<MatchReport> v{};
	for (int i = 0; i < count; ++i) v.push_back(a_match(i, true, true));
	CallReport c = a_call();
	reset();
	try { Speaker{}.report_inapplicable_matches(std::move(c), std::move(v)); } catch (int) {}
	irx_assert(said == 3, "fails");
	whole("No applicable match for call from");
	int before = -1;
	for (int i = 0; i < count; ++i)
	{
		const int a = arg_of(names[i]);
		irx_assert(a > before, "each-expectation-once-and-in-order");
		before = a;
	}
	irx_assert(n_strings() == 1 + count, "nothing-else");
	irx_stop();
}
ENTRY(reporter_full)
{
	name_all();
	CallReport c = a_call();
	MatchReport m = a_match(0, true, false);
	reset();
	Speaker{}.report_full_match(std::move(c), std::move(m));
	irx_assert(said == 1, "succeeds");
	whole("Found match for call from");
	irx_assert(told_once(names[0]) && n_strings() == 2, "expectation-told");
	irx_stop();
}
struct What : std::exception { const char* what() const noexcept override { return "the reason"; } };
struct Nothing {};
static ExpectationReport an_expectation() { ExpectationReport r{}; r.timesDescription = names[1]; r.expectationDescriptions.push_back(names[0]); return r; }
ENTRY(reporter_others)
{
	name_all();
	const int which = irx_int(0, 2);
	if (which == 0)
	{
		ExpectationReport e = an_expectation();
		reset();
		try { Speaker{}.report_unfulfilled_expectation(std::move(e)); } catch (int) {}
		const int k = made_as(said_text);
		irx_assert(said == 3 && k >= 0 && made[k].from == 0 && made[k].to == len, "the-text-made-is-what-is-said");
		irx_assert(word(0, "Unfulfilled expectation") && told_once(names[0]) && told_once(names[1]) && n_strings() == 2, "unfulfilled-expectation-told");
	}
	else
	{
		ExpectationReport e = an_expectation();
		CallReport c = a_call();
		std::exception_ptr x = which == 1 ? std::make_exception_ptr(What{}) : std::make_exception_ptr(Nothing{});
		reset();
		Speaker{}.report_unhandled_exception(std::move(c), std::move(e), std::move(x));
		irx_assert(said == 2, "warns");
		whole("Unhandled exception");
		irx_assert(told_once(names[0]) && told_once(names[1]) && n_strings() == 3, "expectation-told");
		irx_assert(has("the reason") == (which == 1) && has("Unknown") == (which == 2), "exception-told");
		irx_reach("exception");
	}
	irx_stop();
}
// ---------------------------------------------------------------- texts made from real calls and expectations
ENTRY(call_arguments)
{
	reset();
	Value v{irx_int(-1000, 1000)}, w{irx_int(-1000, 1000)};
	const call::Info<void, Value&, const Value&> info{.args = {v, w}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
	const CallReport r = make_call_report(info);
	irx_assert(r.argDetails.size() == 2, "each-argument");
	for (int i = 0; i < 2; ++i)
	{
		const int k = made_as(r.argDetails[i].stateString);
		irx_assert(k >= 0 && made[k].last - made[k].first == 1 && pointers[made[k].first] == (i ? &w : &v), "argument-printed");
	}
	irx_stop();
}
ENTRY(sequence_text)
{
	using Seq = sequence::detail::BasicSequence<sequence::Id, sequence::detail::LazyStrategy{}>;
	install_reporter<Speaker>();
	const int count = irx_int(1, 3);
	int fine = 0;
	bool missing = false;
	reset();
	said = 0;
	try
	{
		Seq seq{};
		for (int i = 0; i < count; ++i)
		{
			const sequence::Id id = seq.add();
			const bool satisfied = irx_bool();
			if (satisfied) seq.set_satisfied(id);
			missing = missing || !satisfied;
			if (!missing) ++fine;
		}
	}
	catch (int) {}
	irx_assert(missing == (said == 3), "incomplete-sequence-said");
	if (missing)
	{
		const int k = made_as(said_text);
		irx_assert(k >= 0 && made[k].last - made[k].first == 2 && numbers[made[k].first] == fine && numbers[made[k].first + 1] == count, "elements-counted");
		irx_assert(has("Unfulfilled sequence"), "incomplete-sequence-named");
		irx_reach("incomplete");
	}
	irx_stop();
}

ENTRY(default_reporter)
{
	name_all();
	thrown_text = names[2];
	alignas(16) char stream[16]{};
	DefaultReporter reporter{irx_bool() ? reinterpret_cast<std::ostream*>(stream) : nullptr};
	const int which = irx_int(0, 3);
	CallReport c = a_call();
	ExpectationReport e = an_expectation();
	std::vector<MatchReport> v{a_match(0, which == 1, which == 1)};
	bool thrown = false;
	reset();
	try
	{
		if (which == 0) reporter.report_no_matches(std::move(c), std::move(v));
		if (which == 1) reporter.report_inapplicable_matches(std::move(c), std::move(v));
		if (which == 2) reporter.report_unfulfilled_expectation(std::move(e));
		if (which == 3) reporter.report_error(names[1]);
	}
	catch (const UnmatchedCallT& x) { thrown = which < 2; }
	catch (const UnfulfilledExpectationT& x) { thrown = which == 2; }
	catch (const Error<>& x) { thrown = which == 3; }
	irx_assert(thrown, "fails");
	const int k = made_as(thrown_text);
	irx_assert(which == 3 ? thrown_text == names[1] : k == 0 && made[k].from == 0, "thrown-with-the-text-made");
	if (which == 0) irx_assert(word(0, "No match for call from") && told_once(names[0]) && told_once(names[3]), "unmatched-call-told");
	if (which == 1) irx_assert(word(0, "No applicable match for call from") && told_once(names[0]) && told_once(names[3]), "inapplicable-call-told");
	if (which == 2) irx_assert(word(0, "Unfulfilled expectation") && told_once(names[0]) && told_once(names[1]), "unfulfilled-expectation-told");
	irx_stop();
}
struct AnyState
{
	int kind;
	Limits l;
	static bool is_satisfied() noexcept { return true; }
	control_state_t state() const
	{
		if (kind == 0) return state_applicable{l.min, l.max, l.count};
		if (kind == 1) return state_inapplicable{l.min, l.max, l.count, {sequence::rating{1, sequence::Tag{}}}, {sequence::Tag{}, sequence::Tag{}}};
		return state_saturated{l.min, l.max, l.count};
	}
	static void consume() {}
};
struct NoResult { static void finalize_call(const auto&) {} };
ENTRY(expectation_times)
{
	const Limits l = any_limits();
	irx_assume(l.min > 2 && l.count > 2);
	const int kind = irx_int(0, 2);
	const BasicExpectation<void(), AnyState, NoResult> e{std::source_location::current(), AnyState{kind, l}, NoResult{}};
	reset();
	const ExpectationReport r = e.report();
	irx_assert(r.timesDescription.has_value(), "limits-told");
	const int k = made_as(*r.timesDescription);
	irx_assert(k >= 0 && made[k].from == 0 && made[k].to == len, "limits-told");
	tell(0);
	const int used = check_times(l);
	irx_assert(kind == 1 ? n_told == used + 2 && told[used] == 2 && told[used + 1] == 3 : n_told == used, "sequences-told");
	irx_stop();
}
