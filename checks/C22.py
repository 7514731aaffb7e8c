"""Abstract interpretation of calls made through an interface whose methods are generated by the macros (arguments, their order, identity and copies, results, the overload reached),
and type-level witnesses evaluated by the compiler for an enumerated set of interfaces: the generated class overrides exactly that function, its mock has exactly that signature,
and any mismatch with the interface is rejected."""

PRELUDE = '''
#include <memory>
#include <map>
#include <functional>
struct Move { Move(Move&&); Move& operator=(Move&&); };
struct Abstract { virtual void z() = 0; };
template <int N> struct T { T(T&&) = default; T(const T&) = delete; };
using Arr = int[3]; using Fn = int(int);
'''
QUALS = ['', 'const', '&', 'const &', '&&', 'const &&']
RETS = ['void', 'int', 'int&', 'const std::string&', 'Move', 'Move&&', 'std::unique_ptr<int>', 'const int*', 'std::pair<int, int>', 'std::map<int, std::pair<int, int>>&']
PLISTS = [[], ['int'], ['int&'], ['const int&'], ['int&&'], ['const int&&'], ['Move'], ['Abstract&', 'const Abstract&'], ['std::unique_ptr<int>', 'int'], ['int', 'double', 'char', 'Move&'],
          ['std::pair<int, int>'], ['std::pair<int, int>', 'const std::map<int, int>&'], ['int', 'std::map<int, std::pair<int, int>>&&', 'std::string'], ['Arr&', 'Fn&', 'Fn*'],
          ['std::function<int(int, int)>', 'void*', 'const char* const'], ['const Move*', 'Move* const&', 'bool', 'long', 'unsigned', 'short', 'float', 'std::nullptr_t']]


def paren(t):
    return '(%s)' % t if ',' in t else t


def macro(name, ret, ps, specs, pre='MIMICPP_'):
    return '%sMOCK_METHOD(%s, %s, (%s)%s)' % (pre, name, paren(ret), ', '.join(paren(p) for p in ps), ', ' + specs if specs else '')


def over(ret, ps, specs, pre='MIMICPP_'):
    return '%sADD_OVERLOAD(%s, (%s)%s)' % (pre, paren(ret), ', '.join(paren(p) for p in ps), ', ' + specs if specs else '')


def witness(n, ret, ps, specs, m):
    sig = '%s(%s) %s' % (ret, ', '.join(ps), specs)
    return ('namespace w%d { struct I { virtual ~I() = default; virtual %s f(%s) %s = 0; }; struct M : I { %s; }; '
            'static_assert(!std::is_abstract_v<M> && std::is_default_constructible_v<M> && std::is_same_v<decltype(M::f_), mimicpp::Mock<%s>> '
            '&& std::is_same_v<decltype(&M::f), %s (M::*)(%s) %s>); }') % (n, ret, ', '.join(ps), specs, m, sig, ret, ', '.join(ps), specs)


def run(ck):
    ck.rule('a call through the interface reaches the associated mock once, through its own signature, with the same objects in order; the result is handed back unchanged')
    ck.irx('iface')
    ck.rule('each generated method overrides exactly the named function; its mock has exactly this signature; mismatches do not compile')
    acc, rej, n = [], [], 0
    for ret in RETS:
        for ps in PLISTS:
            for q in QUALS:
                for ne in ('', 'noexcept'):
                    # full product of parameters and specifiers for one result, of results and specifiers for one parameter list
                    if not (ret in ('int', 'Move') or ps in (PLISTS[1], PLISTS[11])):
                        continue
                    n += 1
                    specs = (q + ' ' + ne).strip()
                    acc.append(('m%d %s(%s) %s' % (n, ret, ', '.join(ps), specs), witness(n, ret, ps, specs, macro('f', ret, ps, specs)), True))
    # the base declares something else: not an override
    specs = [(q + ' ' + ne).strip() for q in QUALS for ne in ('', 'noexcept')]
    for a in specs:
        for b in specs:
            if a.replace('noexcept', '').strip() != b.replace('noexcept', '').strip():
                n += 1
                rej.append(('specs %s | %s' % (a, b), 'namespace w%d { struct I { virtual int f(int) %s; }; struct M : I { %s; }; }' % (n, a, macro('f', 'int', ['int'], b)), False))
    for a, b in (('int', 'long'), ('int', 'int&'), ('int&', 'const int&'), ('int&&', 'int'), ('Move', 'Move&&'), ('int*', 'const int*'), ('std::pair<int, int>', 'std::pair<int, long>')):
        for x, y in ((a, b), (b, a)):
            n += 1
            rej.append(('parameter %s | %s' % (x, y), 'namespace w%d { struct I { virtual int f(int, %s); }; struct M : I { %s; }; }' % (n, x, macro('f', 'int', ['int', y], '')), False))
            if '*' in a or 'const' in b:
                continue
            n += 1
            rej.append(('result %s | %s' % (x, y), 'namespace w%d { struct I { virtual %s f(int); }; struct M : I { %s; }; }' % (n, x, macro('f', y, ['int'], '')), False))
    for i, w in enumerate(['struct I { int f(int); }; struct M : I { %s; };' % macro('f', 'int', ['int'], ''),
                           'struct I { virtual int g(int); }; struct M : I { %s; };' % macro('f', 'int', ['int'], ''),
                           'struct I { virtual int f(int); }; struct M : I { %s; };' % macro('f', 'int', ['int', 'int'], ''),
                           'struct I { virtual int f(int); }; struct M : I { %s; };' % macro('f', 'int', [], ''),
                           'struct I { virtual int f(int) noexcept; }; struct M : I { %s; };' % macro('f', 'int', ['int'], ''),
                           'struct I { virtual int f(int) final; }; struct M : I { %s; };' % macro('f', 'int', ['int'], ''),
                           'struct M { %s; };' % macro('f', 'int', ['int'], '')]):
        rej.append(('shape %d' % i, 'namespace v%d { %s }' % (i, w), False))
    # overload sets: every ordered pair of different qualifications and parameter lists, one mock for all
    for a in specs:
        for b in specs:
            for p1, p2 in ((['int'], ['int']), (['int', 'Move&&'], [])):
                na, nb = a.replace('noexcept', '').strip(), b.replace('noexcept', '').strip()
                if p1 == p2 and (na == nb or ('&' in na) != ('&' in nb)):
                    continue
                n += 1
                A, B = 'int(%s) %s' % (', '.join(p1), a), 'const int&(%s) %s' % (', '.join(p2), b)
                acc.append(('overloads %s | %s' % (A, B),
                            'namespace w%d { struct I { virtual ~I() = default; virtual int f(%s) %s = 0; virtual const int& f(%s) %s = 0; }; struct M : I { MIMICPP_MOCK_OVERLOADED_METHOD(f, %s, %s); }; '
                            'static_assert(!std::is_abstract_v<M> && std::is_same_v<decltype(M::f_), mimicpp::Mock<%s, %s>>); }'
                            % (n, ', '.join(p1), a, ', '.join(p2), b, over('int', p1, a), over('const int&', p2, b), A, B), True))
    # arity: the types of the parameters are pairwise different, so an argument that is dropped, doubled or out of place is an error of type
    for k in list(range(0, 33)) + [40, 50, 60]:
        for kind in ('%s', '%s&', '%s&&', 'const %s&'):
            n += 1
            ps = [kind % ('T<%d>' % i) for i in range(k)]
            acc.append(('arity %d %s' % (k, kind), witness(n, 'int', ps, '', macro('f', 'int', ps, '')), True))
    # number of overloads
    for k in range(1, 13):
        n += 1
        os = [('T<%d>' % i, ['T<%d>&' % j for j in range(i)], ('', 'const', 'noexcept')[i % 3]) for i in range(k)]
        acc.append(('overload-count %d' % k, 'namespace w%d { struct I { virtual ~I() = default; %s }; struct M : I { MIMICPP_MOCK_OVERLOADED_METHOD(f, %s); }; '
                    'static_assert(!std::is_abstract_v<M> && std::is_same_v<decltype(M::f_), mimicpp::Mock<%s>>); }'
                    % (n, ' '.join('virtual %s f(%s) %s = 0;' % (r, ', '.join(p), s) for r, p, s in os), ', '.join(over(r, p, s) for r, p, s in os),
                       ', '.join('%s(%s) %s' % (r, ', '.join(p), s) for r, p, s in os)), True))
    # short names, templates, several bases, several methods, nested names
    for ret, ps, sp in (('int', ['int'], ''), ('Move', ['Move', 'std::pair<int, int>'], 'const noexcept'), ('std::pair<int, int>', [], '&&'), ('void', [], '')):
        n += 1
        acc.append(('short %d' % n, witness(n, ret, ps, sp, macro('f', ret, ps, sp, '')), True))
        n += 1
        acc.append(('short overloaded %d' % n, witness(n, ret, ps, sp, 'MOCK_OVERLOADED_METHOD(f, %s)' % over(ret, ps, sp, '')), True))
        n += 1
        acc.append(('overloaded alone %d' % n, witness(n, ret, ps, sp, 'MIMICPP_MOCK_OVERLOADED_METHOD(f, %s)' % over(ret, ps, sp)), True))
    acc += [('template', 'namespace x1 { template <typename X, typename Y> struct I { virtual ~I() = default; virtual Y f(X, const Y&) const = 0; virtual X g(std::pair<X, Y>) = 0; }; '
             'template <typename X, typename Y> struct M : I<X, Y> { MIMICPP_MOCK_METHOD(f, Y, (X, const Y&), const); MIMICPP_MOCK_METHOD(g, X, ((std::pair<X, Y>))); }; '
             'static_assert(!std::is_abstract_v<M<int, std::string>> && std::is_same_v<decltype(M<int, char>::f_), mimicpp::Mock<char(int, const char&) const>>); template struct M<int, std::string>; template struct M<Move, const int&>; }', True),
            ('bases', 'namespace x2 { struct A { virtual ~A() = default; virtual void f() = 0; virtual int g(int) const = 0; }; struct B { virtual ~B() = default; virtual void f(int) = 0; virtual int h() = 0; }; '
             'struct M : A, B { MIMICPP_MOCK_OVERLOADED_METHOD(f, MIMICPP_ADD_OVERLOAD(void, ()), MIMICPP_ADD_OVERLOAD(void, (int))); MIMICPP_MOCK_METHOD(g, int, (int), const); MIMICPP_MOCK_METHOD(h, int, ()); }; '
             'static_assert(!std::is_abstract_v<M> && std::is_move_constructible_v<M>); }', True),
            ('covariant', 'namespace x3 { struct R {}; struct S : R {}; struct A { virtual ~A() = default; virtual R& f() = 0; virtual const R* g() = 0; }; struct M : A { MIMICPP_MOCK_METHOD(f, S&, ()); MIMICPP_MOCK_METHOD(g, S*, ()); }; '
             'static_assert(!std::is_abstract_v<M>); }', True),
            ('relaxed noexcept', 'namespace x4 { struct A { virtual ~A() = default; virtual int f() = 0; }; struct M : A { MIMICPP_MOCK_METHOD(f, int, (), noexcept); }; static_assert(!std::is_abstract_v<M> && noexcept(std::declval<M&>().f())); }', True),
            ('not noexcept', 'namespace x5 { struct A { virtual ~A() = default; virtual int f() = 0; }; struct M : A { MIMICPP_MOCK_METHOD(f, int, ()); }; static_assert(!std::is_abstract_v<M> && !noexcept(std::declval<M&>().f())); }', True),
            ('inside an unrelated namespace', 'namespace x6 { namespace std { } namespace mimicpp { } struct A { virtual ~A() = default; virtual int f(int&&, int&) const = 0; }; struct M : A { MIMICPP_MOCK_METHOD(f, int, (int&&, int&), const); }; static_assert(!::std::is_abstract_v<M>); }', True),
            ('expectable', 'namespace x7 { struct A { virtual ~A() = default; virtual int f(int) const = 0; }; struct M : A { MIMICPP_MOCK_METHOD(f, int, (int), const); }; '
             'inline void use() { M m{}; mimicpp::ScopedExpectation e = m.f_.expect_call(1) and mimicpp::finally::returns(2); A& a = m; (void)a.f(1); } }', True)]
    list(ck.pool.map(lambda ch: ck.programs('overrides-%d' % (ch // 120), PRELUDE, acc[ch:ch + 120]), range(0, len(acc), 120)))
    ck.programs('mismatches', PRELUDE, rej)
    # the same declarations, seen by the other compiler
    ck.units('gcc', PRELUDE, [('part%d' % i, '\n'.join(c[1] for c in acc[i::8]), True) for i in range(8)], pch=False, compiler='g++')
    ck.count('interfaces', len(acc) + len(rej))
KIND = 'both'
