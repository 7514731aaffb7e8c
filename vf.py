"""Shared machinery of the checks: compiles the harnesses and witnesses against /repo's current headers, runs the analyses,
collects obligations and writes the verdict and the evidence file."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
INC = REPO + '/include'
BUILD = VERIF + '/build'
IRX = BUILD + '/irx'
JOBS = os.cpu_count() or 4
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
CXXFLAGS = ['-std=c++20', '-I' + INC, '-I' + VERIF + '/harness']


LIMIT = 840            # seconds after which a check has to have answered


class Open(Exception):
    """The analysis could not be finished for reasons that say nothing about the code (time, memory)."""


class Broken(Exception):
    """The analysis could not be carried out (no verdict)."""


def sh(cmd, timeout=600, cwd=None, limit=False):
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, preexec_fn=pre if limit else None)
    except subprocess.TimeoutExpired:
        return 124, 'timeout: ' + ' '.join(cmd)[:200]
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def kill_children():
    subprocess.call(['pkill', '-9', '-P', str(os.getpid())])


def ensure_irx():
    if not os.path.exists(IRX):
        rc, out = sh(['make', '-C', VERIF + '/irx', '-j%d' % JOBS], 1500)
        if rc or not os.path.exists(IRX):
            raise Broken('analyser does not build:\n' + out[-2000:])


class Check:
    def __init__(self, prop, title, explanation):
        self.prop, self.title, self.explanation = prop, title, explanation
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obligations = []          # (id, ok, where, detail)
        self.violations = []           # (key, text)
        self.broken = []
        self.open_entries = set()
        self.undecided = []            # parts of the exploration that were not completed
        self.known = load_known(prop)
        self.cov = {'functions_analysed': set(), 'rules': set(), 'files': set()}
        self.num = {}
        self.assumptions = set()
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.inner = cf.ThreadPoolExecutor(JOBS)      # for work started from within a task of the pool

    # ---------------------------------------------------------------- bookkeeping
    def count(self, name, n=1):
        self.num[name] = self.num.get(name, 0) + n

    def ob(self, oid, ok, detail='', where='', key=None):
        self.obligations.append((oid, bool(ok), where, detail))
        if not ok:
            self.violations.append((key or oid, ('%s: ' % where if where else '') + 'obligation %s fails\n%s' % (oid, detail)))

    def fail(self, key, text):
        self.violations.append((key, text))

    def rule(self, text):
        self.cov['rules'].add(text)

    def assume(self, text):
        self.assumptions.add(text)

    # ---------------------------------------------------------------- abstract interpretation of harnesses
    def irx(self, harness, entries=None, defs=(), args=(), seconds=None, ndebug=False, incs=(), soft=False):
        """Analyse the entries of a harness; every irx_assert is an obligation, every irx_reach must be reachable."""
        ensure_irx()
        src = '%s/harness/%s.cpp' % (VERIF, harness)
        tag = harness + ''.join(re.sub(r'\W', '_', d) for d in defs)
        raw, bc = '%s/%s.raw.bc' % (self.tmp, tag), '%s/%s.bc' % (self.tmp, tag)
        if not os.path.exists(bc):
            rc, out = sh([CLANG] + CXXFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-c', '-emit-llvm', src, '-o', raw]
                         + ['-D' + d for d in defs] + ['-I' + VERIF + '/' + i for i in incs] + (['-DNDEBUG'] if ndebug else []))
            if rc:
                # says nothing about the property: the other analyses of it decide (without any, the check has no answer)
                self.undecided.append('harness %s does not compile against the current headers:\n%s' % (harness, out[-1500:]))
                return
            rc, out = sh([OPT, '-passes=sroa,early-cse,simplifycfg', raw, '-o', bc])
            if rc:
                raise Broken('opt failed: ' + out[-2000:])
        rc, out = sh([IRX, '--entry', 'list', bc])
        avail = [l.strip()[len('irx_entry_'):] for l in out.splitlines() if l.startswith('irx_entry_')]
        want = entries or avail
        for e in want:
            if e not in avail:
                raise Broken('harness %s has no entry %s' % (harness, e))
        if seconds is None:
            seconds = 240 if self.tier == 'quick' else 500
        decl = declared(src)

        def one(e):
            left = 780 - (time.time() - self.t0)
            if left < 10:
                return e, None, 'not started: no time left'
            lim = int(min(seconds, left))
            o = '%s/%s-%s.json' % (self.tmp, tag, e)
            rc, out = sh([IRX, '--repo', INC, '--harness', src, '--out', o, '--entry', 'irx_entry_' + e, '--seconds', str(lim)] + list(args) + [bc], lim + 60, limit=True)
            if rc or not os.path.exists(o):
                return e, None, out
            r = json.load(open(o))[0]
            if any(x['approx'] for x in r['violations'] + [x for x in r['obligations'] if x['violated']]):
                self.confirm(r, bc, src, o, e)
            return e, r, out
        for e, r, out in list(self.pool.map(one, want)):
            if r is None:
                self.undecided.append('%s/%s: analyser failed: %s' % (harness, e, out[-300:]))
                self.open_entries.add('%s/%s' % (harness, e))
                continue
            self.account(harness, e, r, decl)

    def confirm(self, r, bc, src, o, e):
        """A violation in a state that was joined, widened or folded may be spurious: it counts only if a search
        without any such step (few elements, few iterations) meets one, otherwise the obligation is just not proved."""
        open_ = {x['id'] for x in r['obligations'] if x['violated'] and x['approx']}
        vio = [v for v in r['violations'] if v['approx']]
        found, tried = [], []
        for refute, unroll in ((3, 40), (0, 6)):
            left = 800 - (time.time() - self.t0)
            if left < 15:
                break
            f = o.replace('.json', '-refute%d.json' % refute)
            rc, out = sh([IRX, '--repo', INC, '--harness', src, '--out', f, '--entry', 'irx_entry_' + e, '--seconds', str(int(min(150, left))), '--refute', str(refute),
                          '--unroll', str(unroll), bc], int(min(210, left + 60)), limit=True)
            tried.append('up to %d elements' % refute if refute else 'up to %d iterations' % unroll)
            if rc or not os.path.exists(f):
                continue
            found = [json.load(open(f))[0]]
            self.count('irx_confirmations')
            for x in found[0]['obligations']:
                x['violated'] = x['violated'] and not x['approx']
            found[0]['violations'] = [v for v in found[0]['violations'] if not v['approx']]
            if any(x['violated'] for x in found[0]['obligations']) or found[0]['violations']:
                break
            found = []
        r['violations'] = [v for v in r['violations'] if not v['approx']]
        for x in r['obligations']:
            if x['violated'] and x['approx']:
                x['violated'] = False
        for q in found:
            r['violations'] += [v for v in q['violations']]
            for x in q['obligations']:
                if x['violated']:
                    for y in r['obligations']:
                        if y['id'] == x['id']:
                            y.update(x)
                    if x['id'] not in {y['id'] for y in r['obligations']}:
                        r['obligations'].append(x)
                    open_.discard(x['id'])
        r['unproved'] = [] if found else sorted(open_) + ['%s: %s' % (v['kind'], v['msg']) for v in vio]
        r['tried'] = ', '.join(tried)

    def account(self, harness, e, r, decl):
        name = '%s/%s' % (harness, e)
        self.cov['functions_analysed'].update(r['repo_functions'])
        for k in ('steps', 'paths', 'splits', 'joins', 'widenings', 'subsumed', 'loop_heads', 'accesses', 'guarded'):
            self.count('irx_' + k, r[k])
        self.count('irx_entries')
        if r['budget_hit'] or r['incomplete']:
            self.open_entries.add(name)
        exp = expected().get(name)
        seen = {o['id'] for o in r['obligations']}
        bad = False
        for o in r['obligations']:
            tr = clean_trace(o.get('trace', []))
            self.ob('%s:%s' % (name, o['id']), not o['violated'] , '\n'.join(tr), o.get('file', '') and last_repo(tr))
            self.count('irx_obligation_states', o['checked'])
            bad |= o['violated']
        for v in r['violations']:
            tr = clean_trace(v['trace'])
            fn = v['func'].split('(')[0][-60:]
            self.fail('%s:%s:%s' % (name, v['kind'], v['msg'][:60]), '%s:%d: %s: %s (in %s)\n%s' % (v['file'], v['line'], v['kind'], v['msg'], v['func'][:200], '\n'.join(tr)))
            bad = True
        if not r['violations']:
            self.obligations.append((name + ':no-undefined-or-aborting-behaviour', True, '', ''))
        for u in r.get('unproved', []):
            self.undecided.append('%s: %s not proved (and not refuted with %s)' % (name, u, r['tried']))
            self.open_entries.add(name)
            bad = True
        incomplete = list(r['incomplete'].items())
        if r['budget_hit']:
            self.undecided.append('%s: analysis budget exhausted' % name)
        for k, v in incomplete:
            self.undecided.append('%s: %s\n%s' % (name, k, '\n'.join(clean_trace(v['trace'])[-8:])))
        if exp is None:
            if not os.environ.get('VF_FREEZE'):
                self.broken.append('%s: no record of what it has to reach' % name)
        else:
            complete = not incomplete and not r['budget_hit'] and not bad
            for l in exp['reach']:
                if l not in r['reached']:
                    if complete:
                        self.fail('%s:never:%s' % (name, l), 'no execution reaches outcome "%s" of %s: the behaviour that has to be possible is not' % (l, name))
                    elif not bad:
                        self.undecided.append('%s: outcome %s not reached' % (name, l))
            for l in exp['obligations']:
                if l not in seen:
                    if complete:
                        self.fail('%s:never:%s' % (name, l), 'no execution reaches obligation "%s" of %s: the behaviour that has to be possible is not' % (l, name))
                    elif not bad:
                        self.undecided.append('%s: obligation %s not reached' % (name, l))
        if os.environ.get('VF_FREEZE'):
            path = VERIF + '/harness/expected.json'
            d = expected(); d[name] = {'reach': sorted(r['reached']), 'obligations': sorted(seen)}
            json.dump(d, open(path, 'w'), indent=1, sort_keys=True); open(path, 'a').write('\n')

    # ---------------------------------------------------------------- compile witnesses
    def compile(self, code, name, flags=(), compiler=None, pch=True, std='-std=c++20'):
        f = '%s/%s.cpp' % (self.tmp, re.sub(r'\W', '_', name))
        with open(f, 'w') as h:
            h.write(code)
        cc = compiler or CLANG
        cmd = [cc, std, '-I' + INC, '-I' + VERIF + '/harness', '-fsyntax-only'] + list(flags)
        if 'clang' in cc:
            if not any(x.startswith('-ferror-limit') for x in flags):
                cmd += ['-ferror-limit=5']
            cmd += ['-Wno-everything', '-fbracket-depth=1024']
            if pch:
                cmd += ['-include-pch', self.pch(tuple(x for x in flags if not x.startswith('-ferror-limit')), std)]
        else:
            cmd += ['-fmax-errors=5', '-w']
        rc, out = sh(cmd + [f], 600)
        if rc not in (0, 1):
            raise Open('compiling %s was cut short (%d): %s' % (name, rc, out[-200:]))
        return rc == 0, out

    def pch(self, flags=(), std='-std=c++20'):
        import threading
        if not hasattr(self, '_pch'):
            self._pch, self._pchlock = {}, threading.Lock()
        with self._pchlock:
            k = (flags, std)
            if k not in self._pch:
                h = '%s/pre%d.hpp' % (self.tmp, len(self._pch))
                open(h, 'w').write('#include "mimic++/mimic++.hpp"\n')
                rc, out = sh([CLANG, std, '-I' + INC, '-I' + VERIF + '/harness', '-Wno-everything', '-x', 'c++-header', h, '-o', h + '.pch'] + list(flags), 300)
                if rc:
                    raise Broken('the library header does not compile:\n' + out[-3000:])
                self._pch[k] = h + '.pch'
            return self._pch[k]

    def asserts(self, group, prelude, items, flags=(), pch=True, includes='#include "mimic++/mimic++.hpp"\n'):
        """items: (id, constant expression) or (id, expression, detail). Each one is a static_assert; all in one unit, a failing one is identified by its message."""
        lines = (includes + prelude).split('\n')
        first = len(lines) + 1
        for it in items:
            lines.append('static_assert((%s), "WITNESS<%s>");' % (' '.join(it[1].split('\n')), it[0]))
        ok, out = self.compile('\n'.join(lines) + '\n', group, list(flags) + ['-ferror-limit=0'], pch=pch)
        self.count('witness_units')
        failed = {}
        if not ok:
            fn = re.escape(re.sub(r'\W', '_', group) + '.cpp')
            cur = ''
            for l in out.splitlines():
                if ' error: ' in l:
                    cur = l
                m = re.search(fn + r':(\d+):\d+: (error|note)', l)
                if m and first <= int(m.group(1)) < first + len(items):
                    failed.setdefault(items[int(m.group(1)) - first][0], cur + ('' if cur == l else '\n' + l))
            if not failed:
                # the declarations the witnesses are about do not compile
                self.ob(group + ':declarations', False, first_errors(out), group)
                return
        for it in items:
            self.ob('%s:%s' % (group, it[0]), it[0] not in failed, '%s\nwitness: static_assert(%s)\n%s' % (it[2] if len(it) > 2 else '', it[1], failed.get(it[0], '')), group)

    def units(self, group, prelude, cases, flags=(), pch=True, includes='#include "mimic++/mimic++.hpp"\n', compiler=None):
        """cases: (id, body, expect) with expect True (must compile) or False (must be rejected)."""
        def one(c):
            return c, self.compile(includes + prelude + '\n' + c[1] + '\n', group + '_' + c[0], flags, pch=pch, compiler=compiler)
        for c, (ok, out) in self.pool.map(one, cases):
            self.count('witness_units')
            self.count('must_compile' if c[2] else 'must_be_rejected')
            self.ob('%s:%s' % (group, c[0]), ok == c[2],
                    ('has to compile but is rejected:\n%s\n%s' % (first_errors(out), c[1][:2000])) if c[2] else ('has to be rejected by the compiler but compiles:\n' + c[1]), group)

    def programs(self, group, prelude, cases, flags=(), pch=True, includes='#include "mimic++/mimic++.hpp"\n'):
        """cases: (id, one-line declaration, expect). All accepted ones in one unit, all to be rejected in another one, errors are told apart by their line;
        a rejection that can not be attributed to its line is decided in a unit of its own."""
        for expect in (True, False):
            cs = [c for c in cases if c[2] == expect]
            if not cs:
                continue
            name = '%s_%s' % (group, 'accept' if expect else 'reject')
            lines = (includes + prelude).split('\n')
            first = len(lines) + 1
            ok, out = self.compile('\n'.join(lines + [' '.join(c[1].split('\n')) for c in cs]) + '\n', name, list(flags) + ['-ferror-limit=0'], pch=pch)
            self.count('witness_units')
            self.count('must_compile' if expect else 'must_be_rejected', len(cs))
            fn = re.escape(re.sub(r'\W', '_', name) + '.cpp')
            hit, cur = {}, ''
            for l in out.splitlines():
                if ' error: ' in l:
                    cur = l
                m = re.search(fn + r':(\d+):\d+: (error|note)', l)
                if m and first <= int(m.group(1)) < first + len(cs) and cur:
                    hit.setdefault(int(m.group(1)) - first, cur)
            if expect and not ok and not hit:
                self.ob(group + ':declarations', False, first_errors(out), group)
                continue
            alone = [] if expect else [i for i in range(len(cs)) if i not in hit]
            self.count('witnesses_decided_alone', len(alone))
            done = dict(zip(alone, self.inner.map(lambda i: self.compile(includes + prelude + '\n' + cs[i][1] + '\n', '%s_%d' % (name, i), flags, pch=pch)[0], alone)))
            for i, c in enumerate(cs):
                if expect:
                    self.ob('%s:%s' % (group, c[0]), i not in hit, 'has to compile but is rejected:\n%s\n%s' % (c[1], hit.get(i, '')), group)
                else:
                    self.ob('%s:%s' % (group, c[0]), not done.get(i, False), 'has to be rejected by the compiler but compiles:\n' + c[1], group)

    # ---------------------------------------------------------------- verdict
    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        new, known = [], []
        for key, text in self.violations:
            k = next((x for x in self.known if x['id'] in key), None)
            (known if k else new).append((key, text, k))
        n = len(self.obligations)
        d = sum(1 for o in self.obligations if o[1] and not any(o[0].startswith(e + ':') for e in self.open_entries))
        cov = {
            'explanation': self.explanation,
            'obligations': n, 'discharged': d, 'undecided': [u[:300] for u in self.undecided],
            'rules': sorted(self.cov['rules']),
            'functions_analysed': len(self.cov['functions_analysed']),
            'functions': sorted(f[:200] for f in self.cov['functions_analysed'])[:400],
            'samples': [{'obligation': o[0], 'holds': o[1]} for o in self.obligations[:60]],
        }
        cov.update(self.num)
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': sorted(self.assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        done = set()
        for key, text, k in known:
            if k['id'] not in done:
                done.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if new:
            rp = '%s/evidence/replay-%s.txt' % (VERIF, self.prop)
            with open(rp, 'w') as f:
                f.write('%s %s: %d violation(s)\nre-run: cd %s && python3 check.py %s\n\n' % (self.prop, self.title, len(new), VERIF, self.prop))
                for key, text, _ in new:
                    f.write('--- %s\n%s\n\n' % (key, text))
            for key, text, _ in new[:8]:
                print('  %s\n    %s' % (key, '\n    '.join(text.splitlines()[:12])))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.undecided:
            # neither a violation nor a proof: part of the exploration was left open
            for u in self.undecided[:12]:
                print('UNDECIDED property=%s %s' % (self.prop, u.replace('\n', '\n  ')))
            if os.environ.get('VF_STRICT'):
                return 2
        if self.broken:
            print('ANALYSIS BROKEN property=%s' % self.prop)
            for b in self.broken[:12]:
                print('  ' + b)
            return 2
        if d == 0:
            print('ANALYSIS BROKEN property=%s: nothing was analysed' % self.prop)
            return 2
        print('%s property=%s obligations=%d discharged=%d functions=%d wall=%.1fs' % ('OPEN' if self.undecided else 'OK', self.prop, n, d, len(self.cov['functions_analysed']), time.time() - self.t0))
        return 0


def first_errors(out, n=6):
    return '\n'.join([l for l in out.splitlines() if 'error' in l][:n])


def clean_trace(t):
    r = []
    for l in t:
        if '/include/c++/' in l and 'enter ' in l:
            continue
        r.append(l[:300])
    return r


def last_repo(tr):
    for l in reversed(tr):
        if INC in l:
            m = re.search(re.escape(INC) + r'[^ :)]*:\d+', l)
            if m:
                return m.group(0)
    return ''


def declared(src):
    return None


def expected():
    p = VERIF + '/harness/expected.json'
    return json.load(open(p)) if os.path.exists(p) else {}


def load_known(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'known']
