"""Compiler front end as decision procedure: each header alone (two compilers, every configuration switch), every ordered pair of headers, the macros defined at lines of the library's
files, and the linkage of every function and variable the library's files define in the compiler's intermediate representation."""
import itertools, os, re
import vf

KIND = 'type'
STAND_INS = '-I' + vf.VERIF + '/harness/stubs'
NOTE = 'Frameworks that are not installed are represented by stand-ins of the facilities the adapters use.'
CONFIG = {'plain': [], 'fmt': ['-DMIMICPP_CONFIG_USE_FMT'], 'prefixed': ['-DMIMICPP_CONFIG_ONLY_PREFIXED_MACROS'],
          'prefixed_fmt': ['-DMIMICPP_CONFIG_ONLY_PREFIXED_MACROS', '-DMIMICPP_CONFIG_USE_FMT'], 'ndebug': ['-DNDEBUG'],
          'catch2_matchers': ['-DMIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION']}
SHORTHANDS = {'MOCK_METHOD': ('MIMICPP_MOCK_METHOD', '(f, int, (int, char const*), const noexcept)'), 'MOCK_OVERLOADED_METHOD': ('MIMICPP_MOCK_OVERLOADED_METHOD', '(f)'),
              'ADD_OVERLOAD': ('MIMICPP_ADD_OVERLOAD', '(int, (int, double), const)'), 'SCOPED_EXP': ('MIMICPP_SCOPED_EXPECTATION', ' mock.expect_call(1);')}


def headers():
    hs = []
    for d, _, fs in os.walk(vf.INC + '/mimic++'):
        hs += [os.path.relpath(os.path.join(d, f), vf.INC) for f in fs if f.endswith('.hpp')]
    return sorted(hs)


def stand_ins(h, flags=()):
    """only where the framework is missing"""
    h = os.path.basename(h).lower()
    real = {'doctest.hpp': '/usr/include/doctest/doctest.h', 'catch2.hpp': '/usr/include/catch2/catch_test_macros.hpp', 'gtest.hpp': '/usr/include/gtest/gtest.h', 'boosttest.hpp': '/usr/include/boost/test/unit_test.hpp'}
    return [STAND_INS] if h in real and not os.path.exists(real[h]) else []


def opts(*hs):
    out = []
    for h in hs:
        out += [x for x in stand_ins(h) if x not in out]
    return out


def mine(path):
    return os.path.realpath(path).startswith(os.path.realpath(vf.INC) + '/')


def closed(h):
    rc, out = vf.sh(['g++', '-std=c++20', '-MM', '-I' + vf.INC] + opts(h) + ['-include', h, '-x', 'c++', '/dev/null'], 300)
    return {os.path.relpath(f, vf.INC) for f in re.split(r'[\s\\]+', out) if f.startswith(vf.INC + '/')} if rc == 0 else set()


def macros(ck, h, flags):
    f = '%s/macro_%s_%d.cpp' % (ck.tmp, re.sub(r'\W', '_', h), len(flags))
    open(f, 'w').write('#include "%s"\n' % h)
    rc, out = vf.sh([vf.CLANG, '-std=c++20', '-E', '-dD', '-I' + vf.INC] + opts(h) + flags + [f], 300)
    if rc:
        raise vf.Open('preprocessing %s failed:\n%s' % (h, out[-500:]))
    cur, defined = '', {}
    for l in out.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            cur = m.group(2)
        m = re.match(r'#(define|undef) (\w+)', l)
        if m:
            if m.group(1) == 'undef':
                defined.pop(m.group(2), None)
            elif mine(cur):
                defined[m.group(2)] = cur
    return defined


def linkage(ck, name, hs, extra=()):
    """the definitions made by lines of the library, with their linkage"""
    f = '%s/link_%s.cpp' % (ck.tmp, re.sub(r'\W', '_', name))
    open(f, 'w').write(''.join('#include "%s"\n' % h for h in hs))
    rc, out = vf.sh([vf.CLANG, '-std=c++20', '-S', '-emit-llvm', '-femit-all-decls', '-g', '-I' + vf.INC, '-I' + vf.VERIF + '/harness', '-Wno-everything'] + opts(*hs) + list(extra) + [f, '-o', f + '.ll'], 600)
    if rc:
        return None, out
    files, where, res = {}, {}, []
    text = open(f + '.ll').read()
    for m in re.finditer(r'^!(\d+) = (?:distinct )?!DIFile\(filename: "([^"]*)", directory: "([^"]*)"', text, re.M):
        files[m.group(1)] = os.path.join(m.group(3), m.group(2))
    expr = dict(re.findall(r'^!(\d+) = (?:distinct )?!DIGlobalVariableExpression\(var: !(\d+)', text, re.M))
    for m in re.finditer(r'^!(\d+) = (?:distinct )?!DI(?:GlobalVariable|Subprogram)\((.*)\)$', text, re.M):
        d = m.group(2)
        fl, ln, nm = re.search(r'file: !(\d+)', d), re.search(r'\bline: (\d+)', d), re.search(r'name: "([^"]*)"', d)
        where[m.group(1)] = (files.get(fl.group(1), '') if fl else '', ln.group(1) if ln else '0', nm.group(1) if nm else '?')
    for m in re.finditer(r'^@([^ ]+) = (.*)$', text, re.M):
        g = re.search(r'!dbg !(\d+)', m.group(2))
        if not g or re.match(r'external ', m.group(2)):
            continue
        w = where.get(expr.get(g.group(1), g.group(1)))
        if w and mine(w[0]):
            r = m.group(2)
            kind = re.match(r'(\w+)', r).group(1)
            res.append(('variable', w, m.group(1), kind if kind in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'available_externally', 'common') else 'external', bool(re.search(r'\bconstant\b', r.split(' = ')[0]))))
    for m in re.finditer(r'^define (.*?)@([^(]+)\(.*?!dbg !(\d+)', text, re.M):
        w = where.get(m.group(3))
        if w and mine(w[0]):
            k = re.match(r'(internal|private|linkonce_odr|weak_odr|linkonce|weak|available_externally)\b', m.group(1))
            res.append(('function', w, m.group(2), k.group(1) if k else 'external', False))
    return res, ''


def run(ck):
    ck.rule('each header is accepted alone and after every other; macros from library lines carry the prefix if asked for, shorthands expand like their originals; '
            'no library line defines a strong symbol or a modifiable object of its own per translation unit')
    hs = headers()
    ck.count('headers', len(hs))
    tasks = []
    for h in hs:
        for c, fl in CONFIG.items():
            if c == 'catch2_matchers' and 'Catch2' not in h:
                continue
            for cc in (vf.CLANG, 'g++'):
                tasks.append(('alone', c, cc, (h,), fl, '-std=c++20'))
        tasks.append(('alone', 'c++23', vf.CLANG if ck.tier == 'quick' else 'g++', (h,), [], '-std=c++23'))
    # what a header already brings along is not new after it, except once (guards)
    closure = dict(zip(hs, ck.pool.map(closed, hs)))
    for a, b in itertools.product(hs, repeat=2):
        if a != b and b in closure[a]:
            ck.count('pairs_implied')
            continue
        for cc in ((vf.CLANG, 'g++') if ck.tier == 'thorough' else ('g++',)):
            tasks.append(('pair', 'plain', cc, (a, b), [], '-std=c++20'))

    def one(t):
        k, c, cc, inc, fl, std = t
        n = '_'.join((k, c, 'clang' if 'clang' in cc else 'gcc') + inc)
        return t, n, ck.compile(''.join('#include "%s"\n' % h for h in inc), n, fl + opts(*inc), compiler=cc, pch=False, std=std)
    alone_bad = set()
    for (k, c, cc, inc, fl, std), n, (ok, out) in ck.pool.map(one, tasks):
        if k == 'alone' and not ok and c == 'plain':
            alone_bad.add(inc[0])
        if k == 'pair' and set(inc) & alone_bad:
            continue
        ck.count('include_units')
        ck.ob('%s:%s' % (k, n), ok, 'does not compile (%s, %s): %s\n%s' % (os.path.basename(cc), std, ' '.join(fl), vf.first_errors(out)), ' then '.join(inc))

    # ---- macros
    for h, (plain, pre) in zip(hs, ck.pool.map(lambda h: (macros(ck, h, []), macros(ck, h, CONFIG['prefixed'])), hs)):
        bad = {m: f for m, f in pre.items() if not m.startswith('MIMICPP_')}
        ck.count('macros', len(plain))
        ck.ob('macros:%s' % h, not bad, 'with MIMICPP_CONFIG_ONLY_PREFIXED_MACROS these macros outside the prefix are defined: ' + ', '.join('%s (%s)' % x for x in sorted(bad.items())), h)
        gone = [m for m in plain if m.startswith('MIMICPP_') and m not in pre]
        ck.ob('prefixed:%s' % h, not gone, 'prefixed macros missing with MIMICPP_CONFIG_ONLY_PREFIXED_MACROS: ' + ', '.join(gone), h)

    def expand(text, i):
        f = '%s/short_%s.cpp' % (ck.tmp, i)
        open(f, 'w').write('#include "mimic++/mimic++.hpp"\n#pragma vf_mark\n' + text + '\n')
        rc, out = vf.sh([vf.CLANG, '-std=c++20', '-E', '-P', '-I' + vf.INC, f], 300)
        return rc, ''.join(out.split('#pragma vf_mark')[-1].split())
    for s, (p, args) in SHORTHANDS.items():
        a, b = expand(s + args, s), expand(p + args, p)
        ck.ob('shorthand:' + s, a == b and a[0] == 0 and s not in a[1], '%s%s expands to\n%s\nits original to\n%s' % (s, args, a[1], b[1]), s)

    # ---- one definition
    sets = [('all', ['usage.hpp'], []), ('all_fmt', ['usage.hpp'], CONFIG['fmt']), ('all_ndebug', ['usage.hpp'], CONFIG['ndebug'])] + [(h, [h], []) for h in hs if '/adapters/' in h]
    for (n, inc, fl), (res, out) in zip(sets, ck.pool.map(lambda s: linkage(ck, *s), sets)):
        if res is None:
            ck.ob('linkage:%s:compiles' % n, False, vf.first_errors(out), n)
            continue
        ck.count('definitions', len(res))
        strong = [r for r in res if r[3] in ('external', 'common')]
        own = [r for r in res if r[0] == 'variable' and r[3] in ('internal', 'private') and not r[4]]
        show = lambda rs: '\n'.join('%s %s (%s:%s) has %s linkage' % (r[0], r[1][2], os.path.relpath(r[1][0], vf.INC), r[1][1], r[3]) for r in rs[:8])
        ck.ob('linkage:%s:no_strong_symbol' % n, not strong, 'two translation units with this header can not be linked together:\n' + show(strong), n)
        ck.ob('linkage:%s:one_object' % n, not own, 'every translation unit gets a modifiable object of its own:\n' + show(own), n)
        ck.ob('linkage:%s:seen' % n, len(res) > (100 if n.startswith('all') else 3), 'only %d definitions of the library found' % len(res), n)
