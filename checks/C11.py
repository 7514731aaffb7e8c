"""Type-level evaluation by the compiler: for an enumerated set of signatures and of pairs and quadruples of overloads, calling a mock through every object form with every kind of
argument is compared with calling an equivalent hand-written class (oracle: the language's own overload resolution): callable or not, noexcept or not, result type, overload chosen.
Abstract interpretation: the call reaches the expectation declared through the same object form, with the qualification of its signature."""
import itertools

KIND = 'both'
QUALS = ['', 'const', '&', 'const &', '&&', 'const &&']
FORMS = ['%s&', 'const %s&', '%s', 'const %s']
PRE = '''
#include <memory>
#include <string>
#include <functional>
using namespace mimicpp;
struct Only { Only(Only&&); };
struct From { operator int() const; };
struct NC { NC(const NC&) = delete; };
template <int> struct tag {};
// the mock and the plain class are called alike
template <class M, class O, class... A>
consteval bool alike()
{
	if (std::is_invocable_v<M, A...> != std::is_invocable_v<O, A...>) return false;
	if constexpr (std::is_invocable_v<O, A...>)
		return std::is_nothrow_invocable_v<M, A...> == std::is_nothrow_invocable_v<O, A...> && std::is_same_v<std::invoke_result_t<M, A...>, std::invoke_result_t<O, A...>>;
	return true;
}
'''


def run(ck):
    ck.rule('a mock is callable, noexcept, and returns, exactly as a class whose call operators have its signatures; calls reach the expectations of that signature')
    rets = ['void', 'int', 'const int', 'int&', 'const std::string&', 'std::unique_ptr<int>', 'Only&&', 'NC&']
    plists = [([], [[], ['int'], ['int', 'int']]),
              (['int'], [[], ['int'], ['int&'], ['const int&'], ['double'], ['From'], ['std::string'], ['int', 'int']]),
              (['int&'], [['int'], ['int&'], ['const int&'], ['double&']]),
              (['const int&'], [['int'], ['int&'], ['const int&'], ['double'], ['From&']]),
              (['int&&'], [['int'], ['int&'], ['const int'], ['double&']]),
              (['Only'], [['Only'], ['Only&'], ['int']]),
              (['const NC&', 'Only&&'], [['NC&', 'Only'], ['NC', 'Only'], ['NC&', 'Only&'], ['NC&']]),
              (['int', 'std::string', 'double*'], [['int', 'const char*', 'double*'], ['int', 'std::string&', 'std::nullptr_t'], ['int', 'int', 'double*'], ['int', 'std::string']])]
    n, groups = 0, []
    for ri, ret in enumerate(rets):
        decl, items = [], []
        for pi, (ps, calls) in enumerate(plists):
            if ri > 1 and pi not in (0, 1, 6):
                continue                       # the return type does not interact with the parameters
            for q in QUALS:
                for ne in ('', ' noexcept'):
                    n += 1
                    S = '%s(%s) %s%s' % (ret, ', '.join(ps), q, ne)
                    decl.append('struct O%d { %s operator()(%s) %s%s; }; using M%d = Mock<%s>;' % (n, ret, ', '.join(ps), q, ne, n, S))
                    for fi, f in enumerate(FORMS):
                        for ai, a in enumerate(calls):
                            items.append(('s%d.%d.%d' % (n, fi, ai), 'alike<%s>()' % ', '.join([f % ('M%d' % n), f % ('O%d' % n)] + a),
                                          'Mock<%s> called through %s with (%s) has to behave like a class with that call operator' % (S, f % 'Mock', ', '.join(a))))
        groups.append(('signatures-%d' % ri, PRE + '\n'.join(decl), items))
    ck.count('signatures', n)
    # overload sets: every legal pair over the qualification forms, and both orders
    def legal(a, b):
        (pa, qa), (pb, qb) = a, b
        return pa != pb or (qa != qb and (('&' in qa) == ('&' in qb)))
    base = [(p, q) for p in ('int', 'const int&', 'int&', '') for q in QUALS]
    pairs = [(a, b) for a, b in itertools.permutations(base, 2) if legal(a, b)]
    if ck.tier != 'thorough':
        pairs = [(a, b) for i, (a, b) in enumerate(pairs) if base.index(a) < base.index(b) or i % 7 == 0]
    sets = [list(x) for x in pairs]
    sets += [[('', '&'), ('', 'const &'), ('', '&&'), ('', 'const &&')], [('int', ''), ('int', 'const'), ('int&', ''), ('int&', 'const')],
             [('int&', '&'), ('const int&', '&'), ('int&', 'const &'), ('const int&', 'const &&')]]
    per = 80
    for g in range(0, len(sets), per):
        decl, items = [], []
        for k, ss in enumerate(sets[g:g + per], g):
            ops = ['tag<%d> operator()(%s) %s%s' % (i, p, q, ' noexcept' if (i + k) % 3 == 0 else '') for i, (p, q) in enumerate(ss)]
            sigs = ['tag<%d>(%s) %s%s' % (i, p, q, ' noexcept' if (i + k) % 3 == 0 else '') for i, (p, q) in enumerate(ss)]
            decl.append('struct O%d { %s }; using M%d = Mock<%s>;' % (k, ' '.join(o + ';' for o in ops), k, ', '.join(sigs)))
            for fi, f in enumerate(FORMS):
                e = ' && '.join('alike<%s>()' % ', '.join([f % ('M%d' % k), f % ('O%d' % k)] + a) for a in ([], ['int'], ['int&'], ['const int&']))
                items.append(('o%d.%d' % (k, fi), e, 'Mock<%s> called through %s has to resolve like the overload set' % (', '.join(sigs), f % 'Mock')))
        groups.append(('overloads-%d' % (g // per), PRE + '\n'.join(decl), items))
    ck.count('overload_sets', len(sets))
    list(ck.pool.map(lambda g: ck.asserts(*g), groups))
    # the expectation is declared through the object form that makes the call, and is of the signature overload resolution selects
    ck.irx('qual')
