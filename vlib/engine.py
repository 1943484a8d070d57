"""Pattern engine: compiles generated patterns, runs them against the reference model, isolates and shrinks failures."""
import json
import os
from . import core
from .core import sh, Config, DEFAULT, KIND, FL_CI, FL_ML, cps, cxx_str, show_cps, Infra
from .gen import render, reductions, size, features, N, in_domain

UNIT_T = {1: 'char', 4: 'char32_t', 2: 'char16_t', 8: 'char8_t', 14: 'wchar_t'}


class Case:
    """one pattern with the operations to run on it"""

    def __init__(self, pattern, ops, unit=1, node=None, extra=0, decl=None):
        self.pattern = list(pattern)     # code points
        self.ops = list(ops)             # (kind, flags, C++ function expression or None, name)
        self.unit = unit
        self.node = node
        self.extra = extra
        self.decl = decl                 # C++ text placed before the case; %p is the name of the pattern
        self.id = -1

    def text(self):
        return show_cps(self.pattern)


def default_fn(kind, flags, unit, p, route=0):
    """C++ text of one operation on pattern p"""
    ml = bool(flags & FL_ML)
    ci = bool(flags & FL_CI)
    name = kind
    mods = []
    if ml and route % 2 == 0:
        name = 'multiline_' + kind
    elif ml:
        mods.append('ctre::multiline')
    if ci:
        mods.append('ctre::case_insensitive' if route % 3 else 'ctre::ci')
    obj = 'ctre::%s<%s>' % (name, ', '.join([p] + mods))
    put = 'put_range' if kind in ('search_all', 'tokenize', 'split') else 'put_result'
    t = UNIT_T[unit]
    if unit == 8:
        if put == 'put_range':
            raise ValueError('not available for UTF-8')
        return '[](const void * q, size_t n, VOut * o) { const char8_t * b = static_cast<const char8_t *>(q); vh::put_result(%s(std::u8string_view(b, n)), b, o); }' % obj
    return 'V_CALL(%s, %s, %s)' % (put, t, obj)


def op(kind, flags=0, route=0, fn=None, name=None):
    return (kind, flags, route, fn, name or kind + ('_ml' if flags & FL_ML else '') + ('_ci' if flags & FL_CI else ''))


def comment(pattern):
    return ''.join(chr(c) if 32 <= c < 127 and c != 92 else '<%x>' % c for c in pattern)


def tu(cases, prelude=''):
    out = [prelude, 'static const int v_unused = 0;\n']
    for c in cases:
        p = 'p%d' % c.id
        out.append('// %s' % comment(c.pattern))
        out.append('static constexpr char32_t r%d[] = %s;' % (c.id, cxx_str(c.pattern)))
        out.append('static constexpr auto %s = ctll::fixed_string{r%d};' % (p, c.id))
        if c.decl:
            out.append(c.decl.replace('%p', p))
        out.append('static const VOp o%d[] = {' % c.id)
        for kind, flags, route, fn, name in c.ops:
            f = fn.replace('%p', p) if fn else default_fn(kind, flags, c.unit, p, route)
            out.append('\t{%s, %d, "%s", %s},' % (KIND[kind], flags, name, f))
        out.append('};')
    out.append('const VCase v_cases[] = {')
    for c in cases:
        unit = {14: 4}.get(c.unit, c.unit)
        out.append('\t{%d, r%d, %d, %d, o%d, %d, %d},' % (c.id, c.id, len(c.pattern), unit, c.id, len(c.ops), c.extra))
    out.append('};')
    out.append('const int v_ncases = %d;' % len(cases))
    return '\n'.join(out) + '\n'


def accepted(check, patterns, props=()):
    """what the reference grammar says: (accepted, names resolved, groups)"""
    exe = check.path('refcheck')
    if not os.path.exists(exe):
        obj = check.driver('refcheck.cpp')
        r, o, e = sh(['g++', obj, '-o', exe])
        if r:
            raise Infra('refcheck: ' + e.decode()[:300])
    r, o, e = sh([exe] + list(props or check.props), input=''.join(' '.join(map(str, p)) + '\n' for p in patterns).encode())
    if r:
        raise Infra('refcheck failed')
    out = [tuple(map(int, l.split())) for l in o.decode().splitlines()]
    assert len(out) == len(patterns)
    return out


def expectations(check, reqs):
    """reqs: (pattern, unit, kind index, flags, count, maxlen) -> list of [{s: subject, e: expected items}] chosen and computed by the model"""
    exe = check.path('refgen')
    if not os.path.exists(exe):
        obj = check.driver('refgen.cpp')
        r, o, e = sh(['g++', obj, '-o', exe])
        if r:
            raise Infra('refgen: ' + e.decode()[:300])
    text = ''.join('%d %d %d %d %d %d | %s\n' % (check.seed, n, ml, unit, kind, flags, ' '.join(map(str, p))) for p, unit, kind, flags, n, ml in reqs)
    r, o, e = sh([exe], input=text.encode())
    if r:
        raise Infra('refgen failed')
    out = [json.loads(l) for l in o.decode().splitlines()]
    assert len(out) == len(reqs)
    return out


LIBS = {'driver_pcre.cpp': ['-lpcre2-32']}


class Engine:
    def __init__(self, check, cfg=DEFAULT, prelude='', driver='driver_main.cpp', run_args=(), per_tu=24, random_subjects=160, exhaustive=364, run_env=None):
        self.c = check
        self.cfg = cfg
        self.prelude = prelude
        self.driver_src = driver
        self.run_args = list(run_args)
        self.per_tu = per_tu
        self.random = random_subjects
        self.exhaustive = exhaustive
        self.serial = 0
        self.stats = dict(patterns=0, subjects=0, evals=0, nontrivial=0, matched=0, undecided=0, refrejected=0, infra=0)
        self.run_env = run_env
        f1 = check.pool.submit(check.pch, cfg)
        f2 = check.pool.submit(check.driver, driver)
        f1.result()
        self.driver = f2.result()

    # -- one translation unit
    def build(self, cases, tag):
        src, exe = self.c.path(tag + '.cpp'), self.c.path(tag)
        with open(src, 'w') as f:
            f.write(tu(cases, self.prelude))
        obj = src[:-4] + '.o'
        ok, err = self.c.compile(src, obj, self.cfg)
        if ok:
            r, o, e = sh([self.cfg.cxx] + [x for x in self.cfg.extra if x.startswith('-fsan')] + list(self.cfg.link) + [obj, self.driver, '-o', exe] + LIBS.get(self.driver_src, []), timeout=120)
            if r != 0:
                r, o, e = sh([self.cfg.cxx] + [x for x in self.cfg.extra if x.startswith('-fsan')] + list(self.cfg.link) + [obj, self.driver, '-o', exe] + LIBS.get(self.driver_src, []), timeout=120)
                if r != 0:
                    ok, err = None, 'link: ' + e.decode(errors='replace')[:400]
        for f in (src, obj):
            try:
                os.unlink(f)
            except OSError:
                pass
        return ok, err, exe

    def execute(self, exe, args, tag):
        out = self.c.path(tag + '.jsonl')
        r, o, e = sh([exe, '--out', out] + [str(a) for a in args], timeout=800, env=self.run_env)
        rows = []
        try:
            for line in open(out, 'rb'):
                try:
                    rows.append(json.loads(line.decode()))
                except ValueError:
                    pass
            os.unlink(out)
        except OSError:
            pass
        if not rows or rows[-1].get('t') != 'end':
            raise Infra('a generated program did not finish (status %d): %s' % (r, e.decode(errors='replace')[:300]))
        return rows, e.decode(errors='replace')

    def args(self):
        return ['--seed', self.c.seed, '--random', self.random, '--exhaustive', self.exhaustive] + self.run_args

    def chunk(self, cases, extra_args=()):
        """compile and run some cases; returns the rows and the cases which don't compile"""
        self.serial += 1
        tag = 't%d' % self.serial
        ok, err, exe = self.build(cases, tag)
        if ok:
            try:
                rows, e = self.execute(exe, list(self.args()) + list(extra_args), tag)
            finally:
                try:
                    os.unlink(exe)
                except OSError:
                    pass
            return rows, []
        if len(cases) == 1:
            if ok is None:
                self.stats['infra'] += 1
                self.c.notes.append('compiler failed on %s: %s' % (cases[0].text(), err[:200]))
                return [], []
            return [], [(cases[0], err)]
        rows, bad = [], []
        mid = len(cases) // 2
        for part in (cases[:mid], cases[mid:]):
            a, b = self.chunk(part, extra_args)
            rows += a
            bad += b
        return rows, bad

    def run(self, cases, extra_args=(), collect=None):
        """all cases; returns the failures"""
        for i, c in enumerate(cases):
            c.id = i
        chunks = [cases[i:i + self.per_tu] for i in range(0, len(cases), self.per_tu)]
        failures = []
        futs = [self.c.pool.submit(self.chunk, ch, extra_args) for ch in chunks]
        samples = []
        for f in futs:
            rows, bad = f.result()
            for c, err in bad:
                failures.append(dict(case=c, kind='compile', err=err))
            for r in rows:
                t = r['t']
                if t == 'case':
                    self.stats['patterns'] += 1
                    for k, s in (('subjects', 'subjects'), ('evals', 'evals'), ('nontrivial', 'nontrivial'), ('matched', 'matched'), ('skipped', 'undecided')):
                        self.stats[s] += r[k]
                elif t in ('mismatch', 'crash'):
                    if t == 'crash' and (r['signal'] == 9 or r['opi'] < 0):
                        self.stats['infra'] += 1
                        self.c.notes.append('worker ended outside of the library: %r' % (r,))
                        continue
                    failures.append(dict(case=cases[r['case']], kind=t, **{k: v for k, v in r.items() if k not in ('t', 'case')}))
                elif t == 'refreject':
                    self.stats['refrejected'] += 1
                    self.c.notes.append('model rejects %s' % cases[r['case']].text())
                elif t == 'sample':
                    samples.append((cases[r['case']], r))
                if collect:
                    collect(cases, r)
        self.c.rng.shuffle(samples)
        for c, r in samples[:max(0, 8 - len(self.c.samples))]:
            self.c.samples.append('%s /%s/ on "%s" -> %s' % (r['op'], c.text(), show_cps(r['subject']), json.dumps(r['result'])))
        return failures

    # -- failures
    def recheck(self, cases, subject, opi_name=None):
        """run single cases on one subject; returns the list of still failing (case, row)"""
        extra = ['--noshrink'] + (['--subject', ','.join(map(str, subject))] if subject is not None else [])
        fails = []
        for i, c in enumerate(cases):
            c.id = i
        n = 1 if len(cases) <= 8 else 4
        futs = [self.c.pool.submit(self.chunk, cases[i:i + n], extra) for i in range(0, len(cases), n)]
        for f in futs:
            rows, bad = f.result()
            for c, err in bad:
                fails.append((c, dict(t='compile', err=err)))
            for r in rows:
                if r['t'] in ('mismatch', 'crash') and r.get('opi', 0) >= 0 and r.get('signal') != 9:
                    fails.append((cases[r['case']], r))
        return fails

    def shrink_pattern(self, case, opi, kind, subject, rounds=12):
        """smaller pattern which fails in the same way (any subject of the generator counts)"""
        if case.node is None:
            return case, subject, None
        best, best_row = case, None
        for _ in range(rounds):
            if best.node is None or self.c.elapsed() > self.c.scale(360, 3000):
                break
            cand, seen = [], set()
            for r in sorted(reductions(best.node), key=size):
                t = render(r)
                if t in seen or t == render(best.node) or len(t) > len(best.pattern) or not in_domain(r):
                    continue
                seen.add(t)
                cand.append(Case(cps(t), [best.ops[opi]] if opi < len(best.ops) else best.ops[:1], best.unit, r, best.extra, best.decl))
            valid = accepted(self.c, [c.pattern for c in cand])
            cand = [c for c, v in zip(cand, valid) if v[0] and v[1]][:48]
            if not cand:
                break
            opi = 0
            for i, c in enumerate(cand):
                c.id = i
            fails = []
            futs = [self.c.pool.submit(self.chunk, cand[i:i + 6], ()) for i in range(0, len(cand), 6)]
            for f in futs:
                rows, bad = f.result()
                for c, err in bad:
                    if kind == 'compile':
                        fails.append((c, dict(t='compile', err=err)))
                for r in rows:
                    if kind != 'compile' and r['t'] in ('mismatch', 'crash') and r.get('opi', -1) >= 0 and r.get('signal') != 9:
                        fails.append((cand[r['case']], r))
            if not fails:
                break
            fails.sort(key=lambda x: (size(x[0].node), len(x[0].pattern)))
            best, best_row = fails[0]
        return best, (best_row or {}).get('subject', subject), best_row

    def report(self, failures, limit=3, shrink=True, describe=None):
        """confirm (three times), shrink and record failures as violations"""
        self.c.coverage['failing_cases_before_confirmation'] = len(failures)
        failures.sort(key=lambda f: (len(f['case'].pattern), len(f.get('subject') or [])))
        done = 0
        for f in failures[:limit * 2]:
            if done >= limit or (done and self.c.elapsed() > self.c.scale(420, 3600)):
                break
            case, opi, kind = f['case'], f.get('opi', 0), f['kind']
            subject = f.get('subject')
            c1 = Case(case.pattern, [case.ops[opi]] if kind != 'compile' else case.ops, case.unit, case.node, case.extra, case.decl)
            hits, row = 0, None
            for _ in range(3):
                fr = self.recheck([c1], subject if kind != 'compile' else None)
                if fr:
                    hits += 1
                    row = fr[0][1]
            if hits < 3:
                self.c.notes.append('not confirmed (%d of 3): %s' % (hits, case.text()))
                if hits:
                    self.c.log('not reproducible: %s' % case.text())
                continue
            done += 1
            small, ssub, srow = (c1, subject, None)
            if shrink and done == 1:
                small, ssub, srow = self.shrink_pattern(c1, 0, kind, subject)
            r = srow or row
            data = dict(pattern=show_cps(small.pattern), pattern_code_points=small.pattern, unit=small.unit,
                        op=small.ops[0][4], ops=small.ops, decl=small.decl, prelude=self.prelude, driver=self.driver_src, run_args=self.run_args,
                        config=self.cfg.as_dict(),
                        original_pattern=case.text(), original_subject=show_cps(subject or []))
            if r['t'] == 'compile':
                errs = [l for l in r['err'].splitlines() if 'error' in l]
                what = 'pattern /%s/ does not compile (%s): %s' % (data['pattern'], self.cfg, '; '.join(errs[:2])[:400])
            elif r['t'] == 'crash':
                data.update(subject=r['subject'])
                what = '%s /%s/ on "%s" ends with signal %d' % (data['op'], data['pattern'], show_cps(r['subject']), r['signal'])
            else:
                data.update(subject=r['subject'], expected=r['exp'], got=r['got'])
                what = '%s /%s/ on "%s": expected %s, got %s (%s)' % (data['op'], data['pattern'], show_cps(r['subject']), json.dumps(r['exp'])[:300], json.dumps(r['got'])[:300], self.cfg)
            self.c.violation(r['t'], what, data)

    def take(self):
        self.c.evals += self.stats['evals']
        self.c.nontrivial += self.stats['nontrivial']
        self.c.coverage.setdefault('runs', []).append(dict(config=str(self.cfg), **self.stats))
        if self.stats['infra'] > 20:
            raise Infra('the framework failed on %d units' % self.stats['infra'])


RULE = ('a case is (pattern, operation, subject); patterns come from a seeded generator of syntax trees, subjects are all short strings over characters of the '
        'pattern plus strings derived from the tree and mutated; each (pattern, subject) is run once. Non-trivial: the subject is not empty and the model '
        'either matches a non-empty text or needs more than 3 steps per position to refuse it')


def known_findings(engine):
    """replays the listed findings; prints a line for each one which still fails"""
    c = engine.c
    kf = [k for k in c.known() if k.get('pattern') is not None and not k.get('custom')]
    for k in kf:
        ops = [op(k['op'], k.get('flags', 0))]
        case = Case(cps(k['pattern']), ops, k.get('unit', 1))
        case.id = 0
        rows, bad = engine.chunk([case], ['--noshrink', '--verbose', '--subject', ','.join(str(ord(x)) for x in k['subject'])])
        got = 'does not compile' if bad else None
        for r in rows:
            if r['t'] == 'eval':
                got = r['got']
            if r['t'] == 'crash':
                got = 'crash'
        if got != k['expected']:
            print('KNOWN-FINDING: property=%s %s /%s/ on %r: %s (expected %s, got %s)' % (c.id, k['op'], k['pattern'], k['subject'], k['what'], json.dumps(k['expected']), json.dumps(got)[:60]), flush=True)
            c.coverage.setdefault('known_findings', []).append(k['what'])
