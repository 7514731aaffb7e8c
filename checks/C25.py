"""Abstract interpretation of the string matchers on texts of arbitrary characters and bounded length (standard algorithms and views included, toupper as an arbitrary function that is only
defined on its domain), and compile witnesses for the string and character types."""

PRELUDE = '''
using namespace mimicpp;
struct Char { char c; bool operator ==(const Char&) const = default; auto operator <=>(const Char&) const = default; };
template <> struct mimicpp::is_character<Char> : std::true_type {};
struct MyString { std::string s; };
template <> struct mimicpp::string_traits<MyString> { using char_t = char; using view_t = std::string_view; static view_t view(const MyString& s) { return s.s; } };
struct CharString { std::vector<Char> s; };
template <> struct mimicpp::string_traits<CharString> { using char_t = Char; using view_t = std::span<const Char>; static view_t view(const CharString& s) { return s.s; } };
const std::string cstr{};
const char* ptr{};
char buffer[10];
template <typename C> std::basic_string<C> str{};
template <typename C> std::basic_string_view<C> view{};
template <typename C> const C* cptr{};
template <typename C> C array[3]{};
template <typename M, typename T> bool use(const M& m, T&& t) { return m.matches(t); }
'''
MODES = ('eq', 'starts_with', 'ends_with', 'contains')


def run(ck):
    ck.rule('the verdict of each string matcher equals its definition on the characters, folded on both sides exactly in the case-insensitive variants; toupper is only called on its domain')
    entries = ['str_' + m + f for m in MODES for f in ('', '_folded')] + ['str_pointers', 'str_owned', 'str_wchar', 'str_char32']
    if ck.tier == 'thorough':
        entries += ['str_%s_folded_longer' % m for m in MODES[:3]]
    ck.irx('strings', entries, args=['--unroll', '60', '--disj', '400000', '--entries', '100000'])
    ck.rule('the same for texts of 8 to 260 characters with one arbitrary character')
    ck.irx('longtext', ['long_' + f % m for m in MODES for f in ('%s', 'not_%s', '%s_folded')], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
    cases = []
    n = 0
    for m in MODES:
        def case(pat, tgt, ok, fold=False):
            nonlocal n
            n += 1
            cases.append(('%s%s-%d' % (m, '-folded' if fold else '', n), 'bool b%d = use(matches::str::%s(%s%s), %s);' % (n, m, pat, ', case_insensitive' if fold else '', tgt), ok))
        for p in ('"a"', 'cstr', 'ptr', 'buffer', 'std::string{}', 'std::string_view{}', 'MyString{}'):
            for t in ('"a"', 'cstr', 'ptr', 'buffer', 'str<char>', 'view<char>', 'MyString{}'):
                case(p, t, True)
                case(p, t, True, True)
        for c in ('wchar_t', 'char8_t', 'char16_t', 'char32_t', 'unsigned char', 'signed char'):
            for k in ('str', 'view', 'cptr', 'array'):
                case('%s<%s>' % (k, c), 'str<%s>' % c, True)
                case('view<%s>' % c, '%s<%s>' % (k, c), True)
            case('str<%s>' % c, 'str<%s>' % c, False, True)      # no folding is defined for it
            case('"a"', 'str<%s>' % c, False)                    # never compared across character types
            case('str<%s>' % c, '"a"', False)
        case('CharString{}', 'CharString{}', True)
        case('CharString{}', 'CharString{}', False, True)
        case('CharString{}', '"a"', False)
        case('1', '"a"', False)
        case('"a"', '1', False)
    ck.programs('string-types', PRELUDE, cases)
