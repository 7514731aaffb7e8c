"""Type-level evaluation by the compiler: every order of the clause kinds up to a given length is declared, and has to be accepted exactly if it breaks none of the stated rules;
results, requirements and callables of fitting and non-fitting types; handles, builders and mocks can be moved but not copied."""
import itertools

KIND = 'type'
PRE = '''
#include <memory>
#include <string>
#include <vector>
using namespace mimicpp;
constexpr auto& _ = matches::_;
extern LazySequence lazy; extern GreedySequence greedy;
extern Mock<int(int)> mi; extern Mock<void(int)> mv;
struct Mine { static constexpr bool is_satisfied() noexcept { return true; } template <class R, class... A> static bool matches(const call::Info<R, A...>&) { return true; }
	template <class R, class... A> static void consume(const call::Info<R, A...>&) {} static StringT describe() { return {}; } };
struct OnlyInt { static constexpr bool is_satisfied() noexcept { return true; } template <class A> static bool matches(const call::Info<int, A>&) { return true; }
	template <class A> static void consume(const call::Info<int, A>&) {} static StringT describe() { return {}; } };
struct Fin { template <class R, class... A> R finalize_call(const call::Info<R, A...>&) { throw 1; } };
struct NC { NC(NC&&); NC(const NC&) = delete; };
struct Ex { explicit Ex(int); };
struct Im { Im(int); };
struct Base {}; struct Derived : Base {};
template <class T> concept movable_only = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;
'''
CL = {'L': 'expect::times(1, 3)', 'S': 'expect::in_sequence(lazy)', 'R': 'expect::arg<0>(_)', 'A': 'then::apply_all([](int&) {})', 'V': 'finally::returns(5)', 'T': 'finally::throws(1.0)'}
MORE = {'o': 'expect::once()', 'w': 'expect::twice()', 'l': 'expect::at_least(1)', 'm': 'expect::at_most(2)', 'n': 'expect::never()', 'x': 'expect::times(4)',
        'g': 'expect::in_sequences(lazy, greedy)', 'P': 'Mine{}', 'i': 'then::invoke([] {})', 'a': 'then::apply_arg<0>([](int&) {})', 'F': 'Fin{}',
        'r': 'finally::returns_result_of([] { return 5; })', 'q': 'finally::returns_arg<0>()'}
LIMIT, FINAL = set('Lowlmnx'), set('VTFrq')


def run(ck):
    ck.rule('a declaration is accepted exactly if limits and result appear at most once, a result is there where one is needed, and all parts fit the signature')
    allc = dict(CL, **MORE)
    for a in list(MORE):
        ok, _ = ck.compile('#include "mimic++/mimic++.hpp"\n' + PRE + 'auto x = %s;' % allc[a], 'probe_' + str(ord(a)))
        if not ok:
            del allc[a]
    seqs = []
    for n in range(0, 5 if ck.tier == 'thorough' else 4):
        seqs += list(itertools.product(CL, repeat=n))
    seqs += [p for p in itertools.permutations('LSRAV')] + [p for p in itertools.permutations('LSRAT')]
    pairs = [p for p in itertools.product(allc, repeat=2) if not set(p) <= set(CL)]
    # a longer declaration is only interesting if nothing is wrong before its last clause
    def ok(s):
        return sum(c in LIMIT for c in s) <= 1 and sum(c in FINAL for c in s) <= 1
    cases = []
    for m in ('mi', 'mv'):
        for s in seqs + pairs:
            if m == 'mv' and set(s) & set('Vrq'):
                continue
            if not ok(s[:-1]):
                continue
            k = '%s_%s' % (m, ''.join(str(ord(c)) if c in MORE else c for c in s))
            expr = ' and '.join(['%s.expect_call(_)' % m] + [allc[c] for c in s])
            complete = m == 'mv' or any(c in FINAL for c in s)
            if complete or len(s) <= 2 or not ok(s) or ck.tier == 'thorough':
                cases.append((k, 'void b_%s() { ScopedExpectation e = %s; }' % (k, expr), ok(s) and complete))
            if not complete and ok(s):
                cases.append((k + '_open', 'void o_%s() { auto e = %s; }' % (k, expr), True))
    ck.count('declarations', len(cases))
    per = (len(cases) + 7) // 8
    list(ck.pool.map(lambda i: ck.programs('orders-%d' % i, PRE, cases[i * per:(i + 1) * per]), range(8)))
    # parts that do and do not fit
    fits = []
    results = [('int', '5', True), ('int', "'c'", True), ('int', '2.5', True), ('int', 'std::string{}', False), ('int', '(int*)nullptr', False), ('std::string', 'std::string{"abc"}', True),
               ('std::string', '5', False), ('int*', 'nullptr', True), ('int*', '(const int*)nullptr', False), ('const int*', '(int*)nullptr', True), ('int&', 'std::ref(g)', True),
               ('const int&', 'std::ref(g)', True), ('const int&', 'std::cref(g)', True), ('int&', 'std::cref(g)', False), ('Ex', '5', True), ('Im', '5', True), ('Ex', 'std::string{}', False),
               ('int', 'Ex{5}', False), ('Base', 'Derived{}', True), ('Base&', 'std::ref(d)', True), ('std::vector<int>', 'std::vector<int>{}', True), ('std::vector<int>', 'std::string{}', False),
               ('std::unique_ptr<int>', 'std::unique_ptr<int>{}', False), ('NC', 'std::declval<NC>()', False), ('bool', 'true', True), ('std::optional<int>', '5', True)]
    for i, (t, v, e) in enumerate(results):
        fits.append(('returns%d' % i, 'void r%d(Mock<%s()>& m) { ScopedExpectation e = m.expect_call() and finally::returns(%s); }' % (i, t, v), e))
    calls = [('int', '[] { return 5; }', True), ('int', '[] { return std::string{}; }', False), ('int', '[] {}', False), ('int', '[](int) { return 5; }', False), ('std::unique_ptr<int>', '[] { return std::unique_ptr<int>{}; }', True),
             ('NC', '[]() -> NC { throw 1; }', True), ('int&', '[]() -> int& { return g; }', True), ('const std::string&', '[]() -> const std::string& { throw 1; }', True), ('int', '5', False)]
    for i, (t, v, e) in enumerate(calls):
        fits.append(('returns_result_of%d' % i, 'void s%d(Mock<%s()>& m) { ScopedExpectation e = m.expect_call() and finally::returns_result_of(%s); }' % (i, t, v), e))
    args = [('int', 'int', True), ('int', 'int&', True), ('int&', 'int&', True), ('std::string', 'int', False), ('int', 'std::string', False), ('const int&', 'int&', True), ('int&', 'const int&', False)]
    for i, (r, p, e) in enumerate(args):
        fits.append(('returns_arg%d' % i, 'void t%d(Mock<%s(%s)>& m) { ScopedExpectation e = m.expect_call(_) and finally::returns_arg<0>(); }' % (i, r, p), e))
    reqs = [('int', '5', True), ('int', '_', True), ('int', 'std::string{}', False), ('int', '"abc"', False), ('std::string', '"abc"', True), ('std::string', 'std::string{}', True), ('std::string', '5', False),
            ('int', 'matches::str::eq("a")', False), ('std::string', 'matches::str::eq("a")', True), ('const char*', 'matches::str::eq("a")', True), ('const char*', '"abc"', True), ('int', 'matches::eq(5)', True),
            ('int', 'matches::eq(std::string{})', False), ('int', 'matches::range::is_empty()', False), ('std::vector<int>', 'matches::range::is_empty()', True), ('std::vector<int>', 'matches::range::eq(std::vector<int>{})', True),
            ('int', 'matches::predicate([](int) { return true; })', True), ('int', 'matches::predicate([](std::string) { return true; })', False), ('int', 'matches::predicate([](int) {})', False),
            ('NC&&', '_', True), ('NC', '5', False), ('int*', 'nullptr', True), ('std::wstring', 'L"abc"', True), ('std::wstring', '"abc"', False)]
    for i, (p, a, e) in enumerate(reqs):
        fits.append(('positional%d' % i, 'void u%d(Mock<void(%s)>& m) { ScopedExpectation e = m.expect_call(%s); }' % (i, p, a), e))
        if a == '_' or a.startswith('matches::'):
            fits.append(('requirement%d' % i, 'void v%d(Mock<void(%s)>& m) { ScopedExpectation e = m.expect_call(_) and expect::arg<0>(%s); }' % (i, p, a), e))
    acts = [('int', '[](int&) {}', True), ('int', '[](int) {}', True), ('int', '[](const int&) {}', True), ('int', '[](std::string&) {}', False), ('int', '[]() {}', False), ('int', '[](int&, int&) {}', False),
            ('const int&', '[](int&) {}', False), ('const int&', '[](const int&) {}', True), ('int', '[](int&&) {}', False), ('NC', '[](NC&) {}', True), ('NC', '[](NC) {}', False)]
    for i, (p, a, e) in enumerate(acts):
        for j, f in enumerate(('then::apply_arg<0>', 'then::apply_args<0>', 'then::apply_all')):
            fits.append(('action%d_%d' % (i, j), 'void w%d_%d(Mock<void(%s)>& m) { ScopedExpectation e = m.expect_call(_) and %s(%s); }' % (i, j, p, f, a), e))
    fits += [('policy-fits', 'void x0() { ScopedExpectation e = mi.expect_call(_) and OnlyInt{} and finally::returns(1); }', True),
             ('policy-does-not-fit', 'void x1() { ScopedExpectation e = mv.expect_call(_) and OnlyInt{}; }', False),
             ('no-policy', 'void x2() { ScopedExpectation e = mv.expect_call(_) and 5; }', False),
             ('throws-copyable', 'void x3() { ScopedExpectation e = mv.expect_call(_) and finally::throws(std::string{}); }', True),
             ('throws-not-copyable', 'void x4() { ScopedExpectation e = mv.expect_call(_) and finally::throws(std::unique_ptr<int>{}); }', False),
             ('sequence-lvalue', 'void x5() { ScopedExpectation e = mv.expect_call(_) and expect::in_sequence(lazy); }', True),
             ('sequence-temporary', 'void x6() { ScopedExpectation e = mv.expect_call(_) and expect::in_sequence(LazySequence{}); }', False),
             ('sequences-two', 'void x7() { ScopedExpectation e = mv.expect_call(_) and expect::in_sequences(lazy, greedy); }', True),
             ('sequences-one', 'void x8() { ScopedExpectation e = mv.expect_call(_) and expect::in_sequences(lazy); }', False),
             # builders are single use
             ('builder-moved', 'void y0() { auto b = mv.expect_call(_); auto c = std::move(b) and expect::times(1); ScopedExpectation e = std::move(c); }', True)]
    fits += [('builder-reused-%s' % n, 'void z%d() { auto b = mi.expect_call(_); auto c = b and %s; }' % (i, c), False) for i, (n, c) in enumerate(CL.items())]
    fits += [('builder-moved-%s' % n, 'void zm%d() { auto b = mi.expect_call(_); auto c = std::move(b) and %s; }' % (i, c), True) for i, (n, c) in enumerate(CL.items())]
    fits += [('const-builder-%s' % n, 'void zc%d() { const auto b = mi.expect_call(_); auto c = std::move(b) and %s; }' % (i, c), False) for i, (n, c) in enumerate(CL.items())]
    fits += [('bind-lvalue', 'void y1() { auto b = mv.expect_call(_); ScopedExpectation e = b; }', False),
             ('bind-const', 'void y2() { const auto b = mv.expect_call(_); ScopedExpectation e = std::move(b); }', False),
             ('bind-rvalue', 'void y3() { auto b = mv.expect_call(_); ScopedExpectation e = std::move(b); }', True),
             ('copy-builder', 'void y4() { auto b = mv.expect_call(_); auto c = b; }', False),
             ('move-builder', 'void y5() { auto b = mv.expect_call(_); auto c = std::move(b); }', True),
             ('copy-handle', 'void y6(ScopedExpectation& a) { ScopedExpectation b = a; }', False),
             ('copy-assign-handle', 'void y7(ScopedExpectation& a, ScopedExpectation& b) { b = a; }', False),
             ('move-handle', 'void y8(ScopedExpectation& a) { ScopedExpectation b = std::move(a); }', True),
             ('move-assign-handle', 'void y9(ScopedExpectation& a, ScopedExpectation& b) { b = std::move(a); }', True),
             ('copy-mock', 'void ya(Mock<void()>& a) { Mock<void()> b = a; }', False),
             ('move-mock', 'void yb(Mock<void()>& a) { Mock<void()> b = std::move(a); }', True),
             ('macro', 'void yc() { MIMICPP_SCOPED_EXPECTATION mv.expect_call(_) and expect::times(2); SCOPED_EXP mv.expect_call(1); }', True),
             ('macro-incomplete', 'void yd() { MIMICPP_SCOPED_EXPECTATION mi.expect_call(_); }', False),
             ('wrong-argument-count', 'void ye() { auto b = mi.expect_call(_, _); }', False),
             ('negative-limits', 'constexpr auto yf = expect::times(-1);', False), ('zero-limits', 'constexpr auto yg = expect::times(0);', True),
             ('inverted-limits', 'constexpr auto yh = expect::times(3, 2);', False), ('ordered-limits', 'constexpr auto yi = expect::times(2, 3);', True)]
    per = (len(fits) + 7) // 8
    list(ck.pool.map(lambda i: ck.programs('fits-%d' % i, PRE + 'extern int g; extern Derived d;\n', fits[i * per:(i + 1) * per]), range(8)))
    B = 'decltype(std::declval<Mock<%s>&>().expect_call(%s))'
    items = []
    for i, s in enumerate(['void()', 'int()', 'void() const', 'int() const & noexcept', 'void(), int(int)', 'void() &, void() const &, void() &&, void() const &&', 'NC(NC)', 'int&(int, int&)']):
        items.append(('mock%d' % i, 'movable_only<Mock<%s>>' % s))
    items += [('handle', 'movable_only<ScopedExpectation>'), ('builder', '!std::is_copy_constructible_v<%s> && std::is_move_constructible_v<%s>' % (B % ('int(int)', '_'), B % ('int(int)', '_')))]
    ck.asserts('move-only', PRE, items)
