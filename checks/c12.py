"""Constant evaluation, compilers, standards and optimisation levels give the same results."""
from checks.pat import *
from vlib.core import sh, show_cps
from vlib.engine import expectations, UNIT_T
import json

HEAD = '''#include <cstdio>
#include <utility>
template <typename R, typename It, size_t... I> constexpr bool v_caps(const R & r, It b, const int * e, std::index_sequence<I...>) {
	auto one = [&](const auto & c, const int * x) { return c ? (c.begin() - b == x[0] && c.end() - b == x[1]) : x[0] == -1; };
	return (one(r.template get<I>(), e + 2 * I) && ...);
}
template <typename R, typename It> constexpr bool v_single(const R & r, It b, const int * e, int) { return v_caps(r, b, e, std::make_index_sequence<R::count()>()); }
template <typename R, typename It> constexpr bool v_range(const R & rg, It b, const int * e, int items) {
	int k = 0;
	for (auto it = rg.begin(); it != rg.end(); ++it, ++k) {
		using V = std::remove_cv_t<std::remove_reference_t<decltype(*it)>>;
		if (k >= items || !v_caps(*it, b, e + 2 * static_cast<int>(V::count()) * k, std::make_index_sequence<V::count()>())) return false;
	}
	return k == items;
}
struct v_row { int id; bool ok; };
'''
KINDS = ['match', 'search', 'starts_with', 'search_all', 'tokenize', 'split']


def row_text(i, pat, unit, kind, flags, s, e):
    t = UNIT_T[unit]
    lines = ['static constexpr char32_t r%d[] = %s; static constexpr auto p%d = ctll::fixed_string{r%d};' % (i, core_str(pat), i, i)]
    # char: the same code units
    vals = ['static_cast<%s>(%d)' % (t, x) if unit == 1 and x > 127 else str(x) for x in s]
    lines.append('static constexpr %s s%d[] = {%s};' % (t, i, ', '.join(vals + ['0'])))
    flat = []
    for item in e:
        for sp in item:
            flat += [-1, -1] if sp is None else sp
    lines.append('static constexpr int e%d[] = {%s};' % (i, ', '.join(map(str, flat + [0]))))
    name = KINDS[kind]
    fn = 'ctre::%s%s<p%d%s>' % ('multiline_' if flags & FL_ML else '', name, i, ', ctre::case_insensitive' if flags & FL_CI else '')
    lines.append('static constexpr v_row w%d{%d, v_%s(%s(s%d, s%d + %d), s%d, e%d, %d)};' % (i, i, 'range' if kind > 2 else 'single', fn, i, i, len(s), i, i, len(e)))
    return '\n'.join(lines)


def core_str(p):
    return '{' + ''.join('%d,' % x for x in p) + '0}'


def source(rows):
    out = [HEAD]
    for row in rows:
        out.append(row_text(*row))
    out.append('static constexpr v_row v_r[] = {%s};' % ', '.join('w%d' % r[0] for r in rows))
    out.append('int main() { int bad = 0; for (auto & x: v_r) { std::printf("%d %d\\n", x.id, x.ok); if (!x.ok) bad = 1; } return bad; }')
    return '\n'.join(out) + '\n'


def run_unit(c, cfg, rows, tag):
    src, obj, exe = c.path(tag + '.cpp'), c.path(tag + '.o'), c.path(tag)
    open(src, 'w').write(source(rows))
    ok, err = c.compile(src, obj, cfg)
    if ok:
        r, o, e = sh([cfg.cxx, obj, '-o', exe])
        if r:
            raise Infra('link: ' + e.decode()[:300])
        r, o, e = sh([exe], timeout=60)
        res = {}
        for l in o.decode().splitlines():
            i, a = map(int, l.split())
            res[i] = ('ok' if a else 'differs', '')
        return res
    if len(rows) == 1:
        return {rows[0][0]: ('no constant' if ok is False else 'infra', err)}
    h = len(rows) // 2
    res = run_unit(c, cfg, rows[:h], tag + 'a')
    res.update(run_unit(c, cfg, rows[h:], tag + 'b'))
    return res


def run(c):
    c.rule = RULE + '. In constant evaluation a case is (pattern, operation, subject, compiler); all of them count as evaluations, those with a non-empty subject as non-trivial'
    c.assumptions = ['g++ 13 and clang 18, C++17 and C++20, -O0 to -O3']
    prof = Profile(w=dict(look=4, bref=4, atomic=3, anchor=6, wordb=3, cap=10), depth=3, names=0)
    # -- run time, in other configurations
    cfgs = [Config('clang++-18', 'c++20', '-O2'), Config('clang++-18', 'c++17', '-O0'), Config('g++', 'c++17', '-O3'), Config('g++', 'c++20', '-O0')]
    if c.thorough():
        cfgs += [Config('clang++-18', 'c++17', '-O3'), Config('g++', 'c++20', '-O3'), Config('g++', 'c++17', '-O0'), Config('clang++-18', 'c++20', '-Os')]
    n = c.scale(110, 900)
    for cfg in cfgs:
        e = Engine(c, cfg, random_subjects=c.scale(120, 250), per_tu=14)
        cases = []
        for node, text, _ in patterns(c, prof, n, 36):
            ops = ops3(c, FL_ML if c.rng.random() < 0.15 else 0) + [op(c.rng.choice(['search_all', 'tokenize', 'split']))]
            cases.append(Case(cps(text), ops, c.rng.choice([1, 1, 4]), node))
        e.report(e.run(cases), limit=2)
        e.take()
    # -- constant evaluation
    reqs, meta = [], []
    for node, text, _ in patterns(c, prof, c.scale(240, 2500), 36):
        for kind in ([c.rng.randrange(3), c.rng.randrange(6)]):
            unit = c.rng.choice([1, 1, 4, 14, 2])
            flags = c.rng.choice([0, 0, 0, FL_ML, FL_CI])
            reqs.append((cps(text), unit if unit != 14 else 4, kind, flags, 3, 24))
            meta.append((cps(text), unit, kind, flags))
    for node, text, _ in patterns(c, prof, c.scale(110, 1200), 30):
        kind, unit, flags = c.rng.choice([0, 1, 1, 1, 2, 3, 5]), c.rng.choice([1, 1, 4]), c.rng.choice([0, 0, FL_ML, FL_CI])
        reqs.append((cps(text), unit, kind, flags, 1, 520))
        meta.append((cps(text), unit, kind, flags))
    rows = []
    for (p, unit, kind, flags), got in zip(meta, expectations(c, reqs)):
        for x in got:
            rows.append((len(rows), p, unit, kind, flags, x['s'], x['e']))
            c.count('long constant subjects', len(x['s']) > 100)
    res_all = []
    deep = ['-fconstexpr-depth=100000']
    for cfg in (Config('g++', 'c++20', '-O0', extra=deep), Config('clang++-18', 'c++17', '-O0', extra=deep)):
        c.pch(cfg)
        part = rows if cfg.cxx == 'g++' else c.rng.sample(rows, len(rows) * 2 // 3)
        units = [part[i:i + 24] for i in range(0, len(part), 24)]
        futs = [c.pool.submit(run_unit, c, cfg, u, 'k%s%d' % (cfg.key(), k)) for k, u in enumerate(units)]
        bad = []
        for f in futs:
            for i, (v, err) in f.result().items():
                row = rows[i]
                c.evals += 1
                c.nontrivial += bool(row[5])
                c.count('constant evaluation ' + cfg.cxx)
                if v == 'infra':
                    c.notes.append('constant evaluation: ' + err[:200])
                elif v != 'ok':
                    bad.append((row, v, err))
        bad.sort(key=lambda b: (len(b[0][1]), len(b[0][5])))
        for row, v, err in bad[:2]:
            again = [run_unit(c, cfg, [row], 'x')[row[0]] for _ in range(3)]
            if any(a[0] not in ('differs', 'no constant') for a in again):
                c.notes.append('not confirmed')
                continue
            what = '%s<"%s"> of "%s" %s in constant evaluation (%s), expected %s %s' % (KINDS[row[3]], show_cps(row[1]), show_cps(row[5]), 'differs' if v == 'differs' else 'is not a constant', cfg, json.dumps(row[6]), err[:200])
            c.violation(v, what, dict(pattern=show_cps(row[1]), subject=row[5], expected=row[6], source='#include <string_view>\n#include <ctre.hpp>\n' + source([row]), config=cfg.as_dict()))
    for row in c.rng.sample(rows, min(6, len(rows))):
        c.samples.append('constant: %s<"%s"> of "%s" -> %s' % (KINDS[row[3]], show_cps(row[1]), show_cps(row[5]), json.dumps(row[6])))
