"""Type-level witnesses for precedence and totality: every facility that must not be used for a type is declared so that using it does not compile, the one that must be used is sane (has to
compile), and the other way around (has to be rejected); printing is instantiated for an enumerated list of types with both formatting backends and both compilers.
Abstract interpretation, with the formatting backend replaced by a recorder, for what is shown: elements once and in order, the text itself, the state of optionals."""

KIND = 'both'
PRELUDE = r'''
#include <any>
#include <array>
#include <bitset>
#include <chrono>
#include <complex>
#include <coroutine>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <span>
#include <sstream>
#include <thread>
#include <typeindex>
#include <variant>
struct Empty {}; struct Abstract { virtual void f() = 0; }; enum E { a }; enum class EC : char { x }; union U { int i; };
struct Binding { int x; };
template <> struct std::tuple_size<Binding> : std::integral_constant<std::size_t, 1> {}; template <> struct std::tuple_element<0, Binding> { using type = int; };
template <std::size_t I> int get(const Binding& b) { return b.x; }
struct Members { template <std::size_t I> int get() const { return 0; } };
template <> struct std::tuple_size<Members> : std::integral_constant<std::size_t, 1> {}; template <> struct std::tuple_element<0, Members> { using type = int; };
struct MO { MO(MO&&) = default; }; struct Pin { Pin(const Pin&) = delete; };
struct Any { template <typename T> operator T() const; };
struct ToStr { operator std::string() const; }; struct ToView { operator std::string_view() const; }; struct ToC { operator const char*() const; };
struct Addr { Addr* operator&() const = delete; };
struct Comma { template <typename T> void operator,(T&&) const = delete; };
struct Fin final {}; struct Incomplete;
struct NotDestructible { ~NotDestructible() = delete; };
struct Self { struct It { using value_type = Self; using difference_type = std::ptrdiff_t; Self* operator->() const; const Self& operator*() const; It& operator++(); It operator++(int); bool operator==(const It&) const = default; }; It begin() const; It end() const; };
struct MutRange { int* begin(); int* end(); };
struct InRange { struct It { using value_type = int; using difference_type = std::ptrdiff_t; int operator*() const; It& operator++(); void operator++(int); bool operator==(std::default_sentinel_t) const; }; It begin() const; std::default_sentinel_t end() const; };
struct Counted { struct It { using value_type = int; using difference_type = std::ptrdiff_t; int operator*() const; It& operator++(); It operator++(int); bool operator==(const It&) const; bool operator==(std::default_sentinel_t) const; }; It begin() const; std::default_sentinel_t end() const; };
'''
TYPES = '''bool; char; signed char; unsigned char; wchar_t; char8_t; char16_t; char32_t; short; long long; unsigned long; float; double; long double; volatile int;
int*; const int*; volatile int*; const volatile void*; void*; void (*)(); int (*)(int) noexcept; int(int); int(...); int Empty::*; void (Empty::*)() const; std::nullptr_t;
const char*; char*; const wchar_t*; const char8_t*; const char16_t*; const char32_t*; const unsigned char*; signed char*; volatile char*; char[3]; char8_t[3]; wchar_t[3]; int[3]; int[3][2]; char[3][3]; int[]; char[]; Empty[2]; const char*[2];
Empty; Abstract; E; EC; U; Binding; Members; MO; Pin; Any; ToStr; ToView; ToC; Addr; Comma; Fin; Incomplete*; Incomplete**; NotDestructible; Self; MutRange; InRange; Counted;
std::string; std::wstring; std::u8string; std::u16string; std::u32string; std::string_view; std::wstring_view; std::u32string_view; std::vector<int>; std::vector<bool>; std::vector<bool>::reference; std::vector<Empty>; std::vector<std::vector<std::string>>;
std::array<int, 0>; std::array<int, 3>; std::array<char, 3>; std::array<Empty, 2>; std::map<int, std::string>; std::map<Empty*, std::set<int>>; std::list<int>; std::forward_list<int>; std::deque<char>; std::set<wchar_t>; std::span<int>; std::span<const char>; std::span<int, 3>;
std::queue<int>; std::bitset<4>; std::tuple<>; std::tuple<int>; std::tuple<int&, const Empty&, MO>; std::tuple<MO>; std::tuple<int&&>; std::pair<int, Empty>; std::pair<int&, int&&>; std::pair<std::optional<int>, std::tuple<const char*>>;
std::optional<int>; std::optional<Empty>; std::optional<std::optional<std::string>>; std::optional<MO>; std::nullopt_t; std::variant<int>; std::monostate; std::any; std::unique_ptr<int>; std::shared_ptr<int>; std::weak_ptr<int>; std::function<void()>;
std::filesystem::path; std::filesystem::directory_iterator; std::filesystem::directory_entry; std::vector<std::filesystem::path>; std::chrono::seconds; std::chrono::system_clock::time_point; std::thread::id; std::thread; std::mutex; std::complex<double>; std::error_code; std::exception; std::exception_ptr; std::type_info; std::type_index;
std::initializer_list<int>; std::istream; std::istream_iterator<int>; std::stringstream; std::source_location; std::strong_ordering; std::byte; std::regex; std::smatch; std::reference_wrapper<int>; std::promise<int>; std::coroutine_handle<>;
std::ranges::iota_view<int>; std::ranges::iota_view<int, int>; std::ranges::empty_view<int>; std::ranges::single_view<Empty>; decltype(std::declval<std::vector<int>&>() | std::views::filter([](int) { return true; })); decltype(std::declval<std::vector<int>&>() | std::views::transform([](int) -> MO { throw 1; }));
decltype(std::views::istream<int>(std::declval<std::istream&>())); decltype(std::declval<std::string&>() | std::views::split(' ')); std::ranges::subrange<int*>; std::ranges::subrange<std::list<int>::iterator>; std::counted_iterator<int*>; std::locale; decltype([](int) {}); decltype([](auto...) {});
mimicpp::ValueCategory; mimicpp::Constness; mimicpp::Mock<void()>; mimicpp::ScopedExpectation; mimicpp::CallReport; mimicpp::ExpectationReport; mimicpp::MatchReport; mimicpp::LazySequence; mimicpp::WildcardMatcher; std::mt19937'''
import re as _re
TYPES = [t.strip() for t in _re.split(r';(?![^{]*\})', TYPES.replace('\n', ' '))]
ARGS = ['--unroll', '40', '--disj', '400000', '--entries', '100000']
FORMS = [('lvalue', 'T&', 'v'), ('const lvalue', 'const T&', 'v'), ('rvalue', 'T&&', 'static_cast<T&&>(v)')]
# facilities: c: custom printer, i: internal one (for strings), r: range, f: formatter. `ok` is the one whose use compiles
CASE = r'''
namespace %(ns)s {
struct X; struct Elem {}; enum class Ch : char {};
}
template <> struct mimicpp::is_character<%(ns)s::Ch> : std::true_type {};
template <> class mimicpp::custom::Printer<%(ns)s::Elem> { public: template <typename O> static O print(O o, const %(ns)s::Elem&) { %(r)s return o; } };
template <> class mimicpp::custom::Printer<%(ns)s::Ch> { public: template <typename O> static O print(O o, const %(ns)s::Ch&) { %(i)s return o; } };
%(custom)s
%(string)s
%(formatter)s
namespace %(ns)s {
struct X { %(range)s };
%(use)s
}
'''
POISON = 'static_assert(sizeof(O) == 0);'


def case(ns, have, ok, use, where):
    d = dict(ns=ns, use=use)
    for k in 'cirf':
        d[k] = '' if k == ok else POISON
    d['custom'] = ('template <> class mimicpp::custom::Printer<%(ns)s::X> { public: template <typename O> static O print(O o, const %(ns)s::X&) { %(c)s return o; } };' % d) if 'c' in have else ''
    d['string'] = ('template <> struct mimicpp::string_traits<%(ns)s::X> { using char_t = %(ns)s::Ch; using view_t = std::span<const char_t>; static view_t view(const %(ns)s::X&) { return {}; } };' % d) if 'i' in have else ''
    d['formatter'] = ('template <> struct %s::formatter<%s::X, char> { template <typename P> constexpr auto parse(P& p) -> decltype(p.begin()) { return p.begin(); } '
                      'template <typename O> auto format(const %s::X&, O& o) const -> decltype(o.out()) { %s return o.out(); } };' % (where, ns, ns, d['f'])) if 'f' in have else ''
    d['range'] = 'const Elem* begin() const { return nullptr; } const Elem* end() const { return nullptr; }' if 'r' in have else ''
    return ' '.join((CASE % d).split('\n'))


def run(ck):
    jobs = []

    def programs(group, prelude, cases, flags=()):
        for j in range(0, len(cases), 60):
            jobs.append((group + '-%d' % (j // 60), prelude, cases[j:j + 60], flags))
    ck.rule('every facility but the most specific one available may be unusable, and the most specific one may not: exactly that one is selected')
    subsets = [''.join(k for j, k in enumerate('cirf') if b >> j & 1) for b in range(16)]
    for backend, flags, where, pre in (('std', (), 'std', ''), ('fmt', ('-DMIMICPP_CONFIG_USE_FMT',), 'fmt', '')):
        acc, rej, n = [], [], 0
        for have in subsets:
            best = have[:1]
            for form, par, val in FORMS:
                uses = [('directly', 'inline void use(%s v) { (void)mimicpp::print(std::ostreambuf_iterator<char>{nullptr}, %s); }' % (par.replace('T', 'X'), val.replace('T', 'X'))),
                        ('as text', 'inline void use(%s v) { (void)mimicpp::print(%s); }' % (par.replace('T', 'X'), val.replace('T', 'X')))]
                if form == 'const lvalue':
                    uses += [(w, 'inline void use(const %s& v) { (void)mimicpp::print(v); }' % t) for w, t in
                             (('in optional', 'std::optional<X>'), ('in tuple', 'std::tuple<int, X>'), ('in pair', 'std::pair<X&, int>'), ('in vector', 'std::vector<X>'), ('in array', 'std::type_identity_t<X[2]>'), ('in std::array', 'std::array<X, 2>'))]
                for w, use in uses:
                    n += 1
                    acc.append(('%s of {%s} %s %s' % (best or 'placeholder', have, form, w), case('n%d' % n, have, best, use, where), True))
                    if best and w in ('directly', 'as text', 'in vector', 'in optional'):
                        n += 1
                        rej.append(('%s of {%s} %s %s' % (best, have, form, w), poisoned(n, have, best, use, where), False))
        programs('precedence-' + backend, PRELUDE, acc, flags=flags)
        programs('precedence-used-' + backend, PRELUDE, rej, flags=flags)
        # the library's own printers stand before ranges and formatters, and behind user supplied ones
        own = []
        for i, (t, extra) in enumerate([('std::optional<Q>', ''), ('std::tuple<Q, int>', ''), ('std::pair<int, Q>', ''), ('std::pair<Q, Q>', ''), ('std::array<Q, 2>', ''), ('std::source_location', ''), ('std::nullopt_t', ''), ('std::string', ''), ('const char*', ''), ('char*', ''), ('Q*', ''), ('const Q*', ''), ('std::nullptr_t', ''), ('std::vector<Q>', ''), ('int', ''), ('Q[2]', '')]):
            for bad in (False, True):
                # a custom printer for the whole type is preferred: its poison decides
                code = ('namespace o%d%d { struct Q {}; using T = std::type_identity_t<%s>; } template <> class mimicpp::custom::Printer<o%d%d::Q> { public: template <typename O> static O print(O o, const o%d%d::Q&) { %s return o; } }; '
                        % (i, bad, t, i, bad, i, bad, POISON))
                code += 'template <> class mimicpp::custom::Printer<o%d%d::T> { public: template <typename O> static O print(O o, const o%d%d::T&) { %s return o; } }; ' % (i, bad, i, bad, POISON if bad else '')
                code += 'namespace o%d%d { inline void use(T& v, const T& c) { (void)mimicpp::print(v); (void)mimicpp::print(c); } }' % (i, bad)
                own.append(('custom printer of %s%s' % (t, ' is used' if bad else ''), code, not bad))
        # elements: pointers are shown as addresses, sub ranges as pairs of iterators
        for i, (t, ok) in enumerate([('Q*', True), ('const Q*', True), ('Q**', True), ('std::ranges::subrange<const Q*>', True), ('std::vector<Q*>', True), ('std::tuple<Q*, const void*>', True), ('std::optional<Q>', False), ('std::tuple<int, Q>', False),
                                     ('std::pair<Q, int>', False), ('std::array<Q, 2>', False), ('std::vector<Q>', False), ('Q[3]', False), ('std::map<int, Q>', False), ('std::map<Q, int>', False), ('std::vector<std::optional<Q>>', False), ('std::optional<std::vector<Q>>', False), ('std::span<Q>', False)]):
            code = ('namespace p%d { struct Q { auto operator<=>(const Q&) const = default; }; using T = std::type_identity_t<%s>; } template <> class mimicpp::custom::Printer<p%d::Q> { public: template <typename O> static O print(O o, const p%d::Q&) { %s return o; } }; '
                    'namespace p%d { inline void use(T& v, const T& c) { (void)mimicpp::print(v); (void)mimicpp::print(c); } }' % (i, t, i, i, POISON, i))
            own.append(('elements of %s %s' % (t, 'are not looked at' if ok else 'are shown'), code, ok))
        programs('own-' + backend, PRELUDE, own, flags=flags)
    ck.rule('printing compiles for every parameter type; it never prints a value by printing that value')
    uses = []
    for i, t in enumerate(TYPES):
        uses.append((t, 'namespace u%d { using T = std::type_identity_t<%s>; inline void use(T& l, const T& c, T&& r) { (void)mimicpp::print(l); (void)mimicpp::print(c); (void)mimicpp::print(static_cast<T&&>(r)); '
                     '(void)mimicpp::print(std::ostreambuf_iterator<char>(nullptr), l); } }' % (i, t), True))
    uses.append(('a range of itself', SELF, True))
    programs('total-std', PRELUDE, uses)
    programs('total-fmt', PRELUDE, uses, flags=('-DMIMICPP_CONFIG_USE_FMT',))
    # a mock with such a parameter can be declared, expected and called
    mocks = []
    for i, t in enumerate(TYPES):
        if t in ('NotDestructible',):
            continue
        mocks.append((t, 'namespace k%d { using T = std::type_identity_t<%s>; inline void use(T& l, const T& c) { mimicpp::Mock<void(T&), void(const T&, int)> m{}; mimicpp::ScopedExpectation e = m.expect_call(mimicpp::matches::_); '
                      'mimicpp::ScopedExpectation f = m.expect_call(mimicpp::matches::_, 1); m(l); m(c, 1); } }' % (i, t), True))
    programs('mocks', PRELUDE, mocks)
    ck.units('gcc', PRELUDE, [('total-%s-%d' % (b or 'std', i), '%s' % '\n'.join(u[1] for u in uses[i::2]), True) for b, f in (('', ()),) for i in range(2)], pch=False, compiler='g++')
    list(ck.pool.map(lambda j: ck.programs(j[0], j[1], j[2], flags=j[3]), jobs))
    ck.count('types', len(TYPES))
    ck.rule('elements of ranges, tuples and optionals are shown once and in order; texts, characters, pointers and locations are the given ones')
    ck.irx('print', args=ARGS, incs=['harness/stubs_fmt'])


SELF = ('namespace self { struct X; struct It { using value_type = X; using difference_type = std::ptrdiff_t; template <typename O = int> const X& operator*() const { static_assert(sizeof(O) == 0); return *(const X*)nullptr; } It& operator++() { return *this; } '
        'It operator++(int) { return *this; } bool operator==(const It&) const { return true; } }; struct X { It begin() const { return {}; } It end() const { return {}; } }; inline void use(X& x, const X& c) { (void)mimicpp::print(x); (void)mimicpp::print(c); } }')


def poisoned(n, have, best, use, where):
    # only the best one is poisoned
    s = case('n%d' % n, have, None, use, where)
    parts = s.split(POISON)
    # the order of the poison marks in the text: r, i, [c], [f]
    order = ['r', 'i'] + [k for k in 'cf' if k in have]
    assert len(parts) == len(order) + 1
    out = parts[0]
    for k, p in zip(order, parts[1:]):
        out += (POISON if k == best else '') + p
    return out
