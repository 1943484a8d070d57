"""Histories of iterators, ranges and results of several patterns, interleaved and in several threads."""
from checks.pat import *
import os
from vlib.core import sh, cxx_str, LIB

ITER = ('search_all', 'tokenize', 'split')
CONT = {'char': ['std::string', 'std::list<char>', 'std::vector<char>'], 'char32_t': ['std::u32string', 'std::list<char32_t>']}
V = {'match': 'V_MATCH', 'search': 'V_SEARCH', 'starts_with': 'V_STARTS', 'search_all': 'V_SEARCH_ALL', 'tokenize': 'V_TOKENIZE', 'split': 'V_SPLIT'}


class Part:
    """one pattern with one operation on one kind of subject"""

    def __init__(self, text, kind, flags, cont, form, seed):
        self.text, self.kind, self.flags, self.cont, self.form, self.seed = text, kind, flags, cont, form, seed

    def obj(self, i):
        return 'ctre::%s%s<p%d%s>' % ('multiline_' if self.flags & FL_ML else '', self.kind, i, ', ctre::case_insensitive' if self.flags & FL_CI else '')

    def call(self, i):
        if self.form == 'iterators':
            return '[](const %s & s) { return %s(s.begin(), s.end()); }' % (self.cont, self.obj(i))
        if self.form == 'pipe':
            return '[](const %s & s) { return s | %s; }' % (self.cont, self.obj(i))
        return '[](const %s & s) { return %s(s); }' % (self.cont, self.obj(i))

    def show(self):
        return '%s /%s/ on %s (%s)' % (self.kind + ('_ml' if self.flags & FL_ML else '') + ('_ci' if self.flags & FL_CI else ''), self.text, self.cont, self.form)


def source(parts, seed, histories, length, threads, only):
    out = ['#include "history.hpp"\n']
    for i, p in enumerate(parts):
        out.append('static constexpr char32_t r%d[] = %s; static constexpr auto p%d = ctll::fixed_string{r%d};' % (i, cxx_str(cps(p.text)), i, i))
    out.append('int main() {')
    for i, p in enumerate(parts):
        out.append('\tstatic const hist::Data<%s> d%d(std::u32string(r%d, sizeof(r%d) / 4 - 1), %s, %d, %du, 7);' % (p.cont, i, i, i, V[p.kind], p.flags, p.seed))
    out.append('\tauto make = [] { hist::Pools p;')
    for i, p in enumerate(parts):
        out.append('\t\tp.push_back(hist::%s<%s>(d%d.subjects, d%d.expected, %s, "pool %d"));' % ('iterations' if p.kind in ITER else 'results', p.cont, i, i, p.call(i), i))
    out.append('\t\treturn p; };\n\treturn hist::explore(make, %du, %d, %d, %d, %s);\n}' % (seed, histories, length, threads, 'true' if only else 'false'))
    return '\n'.join(out)


def one(c, cfg, parts, seed, n, tag, threads=0, only=False):
    src, exe = c.path(tag + '.cpp'), c.path(tag)
    text = source(parts, seed, n, 400, threads, only)
    open(src, 'w').write(text)
    obj = src[:-4] + '.o'
    ok, err = c.compile(src, obj, cfg)
    if ok:
        r, o, e = sh([cfg.cxx] + [x for x in cfg.extra if x.startswith('-fsan')] + [obj, c.driver('driver_history.cpp'), '-o', exe, '-pthread'], timeout=120)
        if r:
            raise Infra('link: ' + e.decode(errors='replace')[:300])
        r, o, e = sh([exe], timeout=600)
        line = o.decode(errors='replace').strip().splitlines()[-1:] or ['']
        os.unlink(exe)
        os.unlink(obj)
        if r == 0 and line[0].startswith('ok'):
            return 'ok', [int(x) for x in line[0].split()[1:]], text
        if r in (3, -9):
            raise Infra('history: %s %s' % (line[0], e.decode(errors='replace')[:300]))
        return 'fail', line[0] if line[0].startswith('fail') else 'status %d %s' % (r, [l for l in e.decode(errors='replace').splitlines() if 'WARNING' in l or 'ERROR' in l or 'SUMMARY' in l][:2]), text
    if ok is None:
        raise Infra(err[:300])
    if len(parts) > 1:
        for k in range(len(parts)):
            v = one(c, cfg, [parts[k]], seed, 3, tag + 'c%d' % k, 0)
            if v[0] != 'ok':
                return v
        raise Infra('compiles alone but not together: ' + err[:300])
    return 'fail', 'does not compile: ' + '; '.join(l for l in err.splitlines() if 'error' in l)[:300], text


def run(c):
    c.rule = 'a case is a history of 400 steps on 6 pools (pattern, operation, kind of subject, 7 subjects): making, copying, assigning, swapping, incrementing, comparing, reading and dropping ranges, iterators and results, with other evaluations in between. Evaluations are steps; non-trivial are those which had something to do'
    c.assumptions = ['subjects on which an iteration makes no progress are not used (known finding of C10)', 'subjects outlive what refers to them']
    r = c.rng
    profs = [Profile(alphabet='ab', extra='cAB01 ,;-\n', depth=2, seqlen=(1, 3), w=dict(look=6, anchor=5, wordb=5, cap=18, bref=4, set=14, atomic=3), names=15),
             Profile(alphabet='a,', extra='b ;\n', depth=1, seqlen=(1, 2), quant=30, w=dict(set=25, cls=20, wordb=6, cap=15))]
    parts = []
    for prof in profs:
        for node, text, _ in patterns(c, prof, c.scale(130, 1600), 26):
            kind = r.choice(['search_all', 'split', 'tokenize', 'search_all', 'split', 'match', 'search', 'starts_with'])
            unit = r.choice(['char', 'char', 'char32_t'])
            cont = r.choice(CONT[unit])
            flags = (FL_ML if r.random() < 0.2 else 0) | (FL_CI if r.random() < 0.15 else 0)
            p = Part(text, kind, flags, cont, r.choice(['range', 'iterators', 'pipe'] if kind in ITER else ['range', 'iterators']), r.randrange(1 << 30))
            c.count(kind)
            c.count(cont)
            parts.append(p)
    r.shuffle(parts)
    groups = [parts[i:i + 6] for i in range(0, len(parts), 6)]
    tsan = Config('clang++-18', 'c++20', '-O1', extra=['-fsanitize=thread', '-g0'])
    clang = Config('clang++-18', 'c++17', '-O2')
    c.driver('driver_history.cpp')
    for cfg in (DEFAULT, tsan, clang):
        c.pch(cfg)
    jobs = []
    n = c.scale(120, 600)
    for i, g in enumerate(groups):
        k = i % 5
        if k == 4:
            jobs.append((g, tsan, n // 4, 4, True))
        elif k == 3:
            jobs.append((g, clang, n, 0, False))
        else:
            jobs.append((g, DEFAULT, n, 2, False))
    futs = [(j, c.pool.submit(one, c, j[1], j[0], c.seed * 100 + i, j[2], 'h%d' % i, j[3], j[4]), c.seed * 100 + i) for i, j in enumerate(jobs)]
    bad = []
    late = 0
    for j, f, seed in futs:
        v, info, text = f.result()
        if v == 'ok':
            c.evals += info[0]
            c.nontrivial += info[1]
            late += info[2]
        else:
            bad.append((j, info, text, seed))
    c.coverage.update(histories_of='400 steps', programs=len(jobs), reads_long_after=late)
    for p in r.sample(parts, min(8, len(parts))):
        c.samples.append('a pool of ' + p.show())
    bad.sort(key=lambda b: len(b[1]))
    for (g, cfg, n, threads, only), info, text, seed in bad[:3]:
        again = [one(c, cfg, g, seed, n, 'x%d' % i, threads, only) for i in range(3)]
        if any(a[0] != 'fail' for a in again):
            c.notes.append('not confirmed: ' + str(info)[:200])
            continue
        # fewer pools
        while len(g) > 1:
            for k in range(len(g)):
                t = g[:k] + g[k + 1:]
                v = one(c, cfg, t, seed, n, 'm', threads, only)
                if v[0] == 'fail':
                    g, info, text = t, v[1], v[2]
                    break
            else:
                break
        c.violation('history', 'histories of %s: %s (%s)' % ('; '.join('pool %d: %s' % (i, p.show()) for i, p in enumerate(g)), info, cfg), dict(patterns=[p.text for p in g], source='#include <ctre.hpp>\n' + text, config=dict(cfg.as_dict(), link=['-pthread', os.path.join(LIB, 'driver_history.cpp')])))
