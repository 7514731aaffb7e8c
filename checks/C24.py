"""Abstract interpretation of every comparison, predicate, identity and range matcher (arbitrary operators, values, relations; element matchers over ranges of any length, the other
range matchers up to three elements), and compile witnesses for the types they have to take."""

PRELUDE = '''
#include <list>
#include <forward_list>
#include <deque>
#include <set>
#include <map>
#include <tuple>
#include <memory>
using namespace mimicpp;
struct Opaque { bool operator ==(const Opaque&) const = default; auto operator <=>(const Opaque&) const = default; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); bool operator ==(const MoveOnly&) const; };
struct Mine {};      // a matcher whose traits are customised
template <> struct mimicpp::custom::matcher_traits<Mine>
{
    static bool matches(const Mine&, auto&) { return true; }
    static StringT describe(const Mine&) { return "mine"; }
};
template <typename Target, typename M> constexpr bool takes(const M&) { return matcher_for<M, Target>; }
const MoveOnly moveOnly{};
const Opaque opaque{};
const std::pair<int, int> pair{};
const std::tuple<int> tuple{};
const auto lvalueMatcher = matches::eq(1);
'''


def run(ck):
    ck.rule('verdict of each matcher equals its definition; negation inverts the verdict only')
    ck.irx('matchers', args=['--unroll', '40', '--disj', '400000', '--entries', '100000'], entries=bounded)
    ck.irx('matchers', entries=unbounded)
    ck.rule('the same for ranges of 5 to 258 elements with one arbitrary element')
    ck.irx('longtext', ['long_range_' + e for e in ('eq', 'shorter', 'sorted', 'permutation', 'size', 'elements')], args=['--unroll', '100000', '--disj', '400000', '--entries', '100000'])
    cases = []
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        for v in ('1', '1.5', 'std::string{"a"}', 'std::pair{1, 2}', 'pair', 'std::tuple{1}', 'std::tuple{1, 2.0}', 'tuple', 'std::optional{1}', 'std::vector<int>{}', 'Opaque{}', 'opaque', 'nullptr' if n in ('eq', 'ne') else '2u'):
            cases.append(('%s-%d' % (n, len(cases)), 'auto v%d = matches::%s(%s);' % (len(cases), n, v), True))
    for v, t in (('1', 'int'), ('1', 'const int'), ('1', 'double'), ('std::pair{1, 2}', 'std::pair<int, int>'), ('std::tuple{1}', 'std::tuple<int>'), ('Opaque{}', 'const Opaque'), ('std::string{"a"}', 'std::string'),
                 ('nullptr', 'int*'), ('nullptr', 'std::unique_ptr<int>'), ('std::nullopt', 'std::optional<int>')):
        cases.append(('eq-target-%d' % len(cases), 'static_assert(matcher_for<decltype(matches::eq(%s)), %s>);' % (v, t), True))
        cases.append(('negated-eq-target-%d' % len(cases), 'static_assert(matcher_for<decltype(!matches::eq(%s)), %s>);' % (v, t), True))
    cases.append(('eq-move-only', 'auto v%d = matches::eq(MoveOnly{});' % len(cases), True))
    cases.append(('negated-eq-move-only', 'auto v%d = !matches::eq(MoveOnly{});' % len(cases), True))
    for f in ('each_element', 'any_element'):
        for k, m in enumerate(('matches::eq(1)', 'lvalueMatcher', '!matches::eq(1)', '!lvalueMatcher', 'matches::_', 'Mine{}', 'matches::range::is_empty()', 'matches::eq(std::pair{1, 2})', 'matches::range::each_element(matches::eq(1))')):
            cases.append(('%s-%d' % (f, k), 'auto v%d = matches::range::%s(%s);' % (len(cases), f, m), True))
            cases.append(('%s-negated-%d' % (f, k), 'auto v%d = !matches::range::%s(%s);' % (len(cases), f, m), True))
        for k, t in enumerate(('std::vector<int>', 'const std::vector<int>', 'std::list<int>', 'std::forward_list<int>', 'std::set<int>', 'std::array<int, 3>', 'int[3]', 'std::span<const int>')):
            cases.append(('%s-target-%d' % (f, k), 'static_assert(matcher_for<decltype(matches::range::%s(matches::eq(1))), %s>);' % (f, t), True))
            cases.append(('%s-lvalue-target-%d' % (f, k), 'static_assert(matcher_for<decltype(matches::range::%s(lvalueMatcher)), %s>);' % (f, t), True))
            cases.append(('%s-custom-target-%d' % (f, k), 'static_assert(matcher_for<decltype(matches::range::%s(Mine{})), %s>);' % (f, t), True))
    R = ('std::vector<int>', 'const std::vector<int>', 'std::list<int>', 'std::forward_list<int>', 'std::deque<int>', 'std::array<int, 3>', 'int[3]', 'std::span<const int>')
    for k, t in enumerate(R):
        for n, m in (('eq', 'eq(std::vector<int>{})'), ('negated-eq', 'eq(std::span<const int>{})'), ('unordered', 'unordered_eq(std::list<int>{})'), ('sorted', 'is_sorted()'), ('sorted-by', 'is_sorted(std::greater<>{})'), ('empty', 'is_empty()')):
            cases.append(('range-%s-%d' % (n, k), 'static_assert(matcher_for<decltype(%smatches::range::%s), %s>);' % ('!' if n.startswith('neg') else '', m, t), True))
        if 'forward' not in t:
            cases.append(('range-size-%d' % k, 'static_assert(matcher_for<decltype(matches::range::has_size(3)), %s> && matcher_for<decltype(!matches::range::has_size(3u)), %s>);' % (t, t), True))
    cases.append(('instance-of-temporary', 'auto v = matches::instance(Opaque{});', False))
    ck.programs('matcher-types', PRELUDE, cases)


unbounded = ['range_elements_any_length', 'range_sizes_any_length']
bounded = ['compare_' + c for c in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'implicit', 'ints', 'stored')] + ['predicates', 'wildcard_and_instance', 'range_eq', 'range_eq_comparator',
           'range_unordered_eq', 'range_sorted', 'range_sizes', 'range_elements', 'range_size_widths']
