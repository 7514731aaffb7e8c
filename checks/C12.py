"""Type-level evaluation by the compiler: for an enumerated set of signatures (return types x parameter lists x constness x value category x noexcept x variadic)
every trait result is compared with the part written in the signature; overload legality is compared, pair by pair, with what the compiler says about two member functions
of these signatures (oracle: the front end's own overloading rule). Nothing is executed."""
import itertools
import re

PRELUDE = '''
#include <memory>
struct Move { Move(Move&&); Move& operator=(Move&&); };
template <typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
template <typename... T> using L = std::tuple<T...>;
using namespace mimicpp;
'''
QUALS = ['', 'const', '&', 'const &', '&&', 'const &&']


def sig(ret, params, q, ne, var=False):
    p = ', '.join(params + (['...'] if var else []))
    return '%s(%s) %s%s' % (ret, p, q, ' noexcept' if ne else '')


def run(ck):
    ck.rule('trait results equal the parts of the signature; add/remove noexcept are idempotent inverses; is_overloadable_with/is_overload_set agree with the language')
    rets = ['void', 'int', 'int&', 'const std::string&', 'std::unique_ptr<int>', 'Move&&']
    plists = [[], ['int'], ['int&'], ['const int&'], ['int&&'], ['int', 'double'], ['double', 'int'], ['Move', 'int*', 'std::string'], ['int', 'int', 'int', 'int', 'int']]
    items = []
    n = 0
    for ret in rets:
        for ps in plists:
            for q in QUALS:
                for ne in (False, True):
                    for var in (False, True):
                        S = sig(ret, ps, q, ne, var)
                        base, with_, dec = sig(ret, ps, q, False, var), sig(ret, ps, q, True, var), sig(ret, ps, '', False, var)
                        n += 1
                        t = 's%d' % n
                        items.append((t + '.add_noexcept', 'same<signature_add_noexcept_t<%s>, %s>' % (S, with_), S))
                        items.append((t + '.remove_noexcept', 'same<signature_remove_noexcept_t<%s>, %s>' % (S, base), S))
                        items.append((t + '.decay', 'same<signature_decay_t<%s>, %s>' % (S, dec), S))
                        items.append((t + '.return', 'same<signature_return_type_t<%s>, %s>' % (S, ret), S))
                        if not var:
                            items.append((t + '.params', 'same<signature_param_list_t<%s>, L<%s>>' % (S, ', '.join(ps)), S))
                            for i, p in enumerate(ps):
                                items.append(('%s.param%d' % (t, i), 'same<signature_param_type_t<%d, %s>, %s>' % (i, S, p), S))
    for ch in range(0, len(items), 1500):
        ck.asserts('signature-parts-%d' % (ch // 1500), PRELUDE, items[ch:ch + 1500])
    ck.count('signatures', n)
    # overload legality against the language
    sigs = [(r, tuple(ps), q, ne) for r in ('void', 'int') for ps in ([], ['int'], ['int&'], ['const int&'], ['int', 'double']) for q in QUALS for ne in (False, True)]
    pairs = [(a, b) for i, a in enumerate(sigs) for b in sigs[i:]]
    decl = ['#include <string>']
    for k, (a, b) in enumerate(pairs):
        decl.append('struct O%d { %s; %s; };' % (k, member(a), member(b)))
    ok, out = ck.compile('\n'.join(decl), 'overload_oracle', ['-ferror-limit=0'], pch=False)
    bad = {int(m.group(1)) - 2 for m in re.finditer(r'overload_oracle\.cpp:(\d+):\d+: error:', out)}
    if not bad or len(bad) == len(pairs):
        raise RuntimeError('overload oracle is degenerate: ' + out[:500])
    legal = {(a, b): (k not in bad) for k, (a, b) in enumerate(pairs)}
    items = []
    for k, (a, b) in enumerate(pairs):
        A, B, e = S_(a), S_(b), 'true' if legal[a, b] else 'false'
        d = '%s | %s: overloads of one member function: %s' % (A, B, e)
        items.append(('o%d' % k, 'is_overloadable_with_v<%s, %s> == %s' % (A, B, e), d))
        items.append(('o%dr' % k, 'is_overloadable_with_v<%s, %s> == %s' % (B, A, e), d))
    half = (len(items) + 7) // 8
    for i in range(8):
        ck.asserts('overloadable-%d' % i, PRELUDE, items[i * half:(i + 1) * half])
    ck.count('overload_pairs', len(pairs))
    small = [('void', tuple(ps), q, False) for ps in ([], ['int']) for q in QUALS] + [('int', ('int',), 'const', True)]
    items = []
    lg = lambda a, b: legal[(a, b)] if (a, b) in legal else legal[(b, a)]
    combos = list(itertools.permutations(small, 3)) if ck.tier == 'thorough' else list(itertools.combinations(small, 3))
    combos += list(itertools.combinations(small, 4))
    for k, c in enumerate(combos):
        e = all(lg(a, b) for a, b in itertools.combinations(c, 2))
        items.append(('set%d' % k, 'is_overload_set_v<%s> == %s' % (', '.join(S_(x) for x in c), 'true' if e else 'false'), str(c)))
    items.append(('single', 'is_overload_set_v<void()> && is_overload_set_v<int(int) const noexcept>'))
    ck.asserts('overload-sets', PRELUDE, items)
    ck.units('indices', PRELUDE, [
        ('last-parameter', 'using X = signature_param_type_t<1, void(int, double) const>;', True),
        ('beyond-the-end', 'using X = signature_param_type_t<2, void(int, double) const>;', False),
        ('no-parameters', 'using X = signature_param_type_t<0, void()>;', False),
        ('not-a-function', 'using X = signature_return_type_t<int>;', False),
        ('is-a-function', 'using X = signature_return_type_t<int()>;', True),
        # a mock of two signatures is declared exactly if they are overloads
        ('mock-overloads', 'mimicpp::Mock<void(int), void(int) const, int(int, int)> m{};', True),
        ('mock-not-overloads', 'mimicpp::Mock<void(int), int(int)> m{};', False),
        ('mock-not-overloads-ref', 'mimicpp::Mock<void(int) const, void(int) const &> m{};', False),
        ('mock-not-overloads-noexcept', 'mimicpp::Mock<void(int), void(int) noexcept> m{};', False),
        ('mock-overloads-ref', 'mimicpp::Mock<void(int) &, void(int) const &, void(int) &&, int(int) const &&> m{};', True),
    ])


def member(s):
    ret, ps, q, ne = s
    return '%s f(%s) %s%s' % (ret, ', '.join(ps), q, ' noexcept' if ne else '')


def S_(s):
    return sig(s[0], list(s[1]), s[2], s[3])
