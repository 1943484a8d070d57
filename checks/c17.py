"""Unicode properties: membership of all code points, names, and properties inside of patterns."""
import re
from checks.pat import *
from checks import c09
from vlib import ucd
from vlib.core import sh, cxx_str, show_cps

HEAD = '''#include <cstdio>
template <auto & P> static void v_row(int id) {
	static constexpr ctre::regular_expression<typename ctre::regex_builder<P>::type, ctre::match_method> re{};
	std::printf("%d ", id);
	bool prev = false;
	for (char32_t c = 0; c < 0x110000; ++c) { bool m = bool(re(&c, &c + 1)); if (m != prev) { std::printf("%u,", static_cast<unsigned>(c)); prev = m; } }
	char32_t out = 0; unsigned n = 0;
	auto beyond = [&](char32_t c) { if (re(&c, &c + 1)) { out = out ? out : c; ++n; } };
	for (char32_t c = 0x110000; c < 0x120000; ++c) beyond(c);
	for (unsigned k = 0; k < 4096; ++k) beyond(0x120000u + k * 1048343u);
	beyond(0xFFFFFFFFu);
	std::printf(" %u:%u\\n", n, static_cast<unsigned>(out));
}
'''
BEYOND = 0x10000 + 4097
FORMS = [('\\p{%s}', 0), ('\\P{%s}', 1), ('[\\p{%s}]', 0), ('[^\\p{%s}]', 1), ('[\\P{%s}]', 1), ('[^\\P{%s}]', 0), ('(?:\\p{%s})', 0), ('\\p{%s}+', 0), ('(\\P{%s})??', 1), ('(?=\\p{%s}).', 0), ('\\P{%s}|\\p{Zs}\\p{Zs}', 1)]
MAIN = 'int main() {\n%s}\n'


def spell(r, name):
    """names are not case sensitive"""
    x = r.random()
    if x < 0.5:
        return name
    if x < 0.7:
        return name.lower()
    if x < 0.85:
        return name.upper()
    return ''.join(ch.swapcase() if r.random() < 0.5 else ch for ch in name)


def text_of(rows):
    out = [HEAD]
    for i, p in rows:
        out.append('static constexpr auto p%d = ctll::fixed_string{%s};' % (i, '"' + p.replace('\\', '\\\\') + '"'))
    out.append(MAIN % ''.join('\tv_row<p%d>(%d);\n' % (i, i) for i, p in rows))
    return '\n'.join(out)


def unit(c, cfg, rows, tag):
    src, obj, exe = c.path(tag + '.cpp'), c.path(tag + '.o'), c.path(tag)
    open(src, 'w').write(text_of(rows))
    ok, err = c.compile(src, obj, cfg)
    if ok:
        r, o, e = sh([cfg.cxx, obj, '-o', exe])
        if r == 0:
            r, o, e = sh([exe], timeout=400)
        if r:
            raise Infra('property unit: status %d %s' % (r, e.decode()[:300]))
        return {int(l.split(' ')[0]): ([int(x) for x in l.split(' ')[1].split(',') if x], [int(x) for x in l.split(' ')[2].split(':')]) for l in o.decode().splitlines()}
    if ok is None:
        raise Infra(err)
    if len(rows) == 1:
        return {rows[0][0]: err}
    h = len(rows) // 2
    res = unit(c, cfg, rows[:h], tag + 'a')
    res.update(unit(c, cfg, rows[h:], tag + 'b'))
    return res


def membership(c, u, cfg):
    r = c.rng
    todo = []
    for k, pats, m in u.props:
        for name in (pats if c.thorough() else [r.choice(pats)]):
            f, neg = r.choice(FORMS) if r.random() < 0.6 else FORMS[0]
            todo.append((k, f % spell(r, name), m, neg))
            if c.thorough():
                f, neg = r.choice(FORMS[1:])
                todo.append((k, f % spell(r, name), m, neg))
    r.shuffle(todo)
    rows = list(enumerate(t[1] for t in todo))
    futs = [c.pool.submit(unit, c, cfg, rows[i:i + 24], 'm%d' % i) for i in range(0, len(rows), 24)]
    bad = []
    for f in futs:
        for i, got in f.result().items():
            k, pat, m, neg = todo[i]
            c.count('kind ' + k)
            c.evals += ucd.TOP + BEYOND
            c.nontrivial += 2 * len(ucd.invlist(m)) + 1000
            if isinstance(got, str):
                bad.append((i, 'does not compile: ' + '; '.join(l for l in got.splitlines() if 'error' in l)[:300], None))
                continue
            got, (n, out) = got
            if n and not neg and not re.search(r'\{(C|Cn|Other|Unassigned|Zzzz|Unknown)\}', pat, re.I) and not re.search(r'=(zzzz|unknown)\}', pat, re.I):
                bad.append((i, 'the value %X, which is no code point, is accepted (%d of %d)' % (out, n, BEYOND), out))
                continue
            g = ucd.mask(got)
            exp = u.all ^ m if neg else m
            d = (g ^ exp) & ~u.unusable
            if d:
                first = (d & -d).bit_length() - 1
                bad.append((i, 'U+%04X is %s, %d code points differ' % (first, 'accepted' if g >> first & 1 else 'refused', bin(d).count('1')), first))
            elif len(c.samples) < 6:
                c.samples.append('/%s/ accepts exactly its %d code points' % (pat, bin(exp).count('1')))
    bad.sort(key=lambda b: len(todo[b[0]][1]))
    for i, what, first in bad[:3]:
        pat = todo[i][1]
        src = '#include <ctre-unicode.hpp>\n#include <string_view>\nint main() { static constexpr auto p = ctll::fixed_string{"%s"}; %s }\n' % (
            pat.replace('\\', '\\\\'), 'return 0;' if first is None else 'char32_t x = %du; return bool(ctre::match<p>(std::u32string_view(&x, 1))) == %s ? 0 : 1;' % (first, 'true' if ((min(first, ucd.TOP) < ucd.TOP and todo[i][2] >> first & 1) != todo[i][3]) else 'false'))
        if first is None:
            src = src.replace('return 0;', 'return ctre::match<p>(std::u32string_view(U"a")) ? 0 : 0;')
        c.violation('membership', '/%s/: %s' % (pat, what), dict(pattern=pat, source=src, config=cfg.as_dict()))
    c.coverage['properties_checked_for_all_code_points'] = len(todo)


def names(c, u, cfg):
    """known names are accepted, all others are refused"""
    r = c.rng
    all_names = [p for _, ps, _ in u.props for p in ps]
    loose = u.known
    good, bad = set(), set()
    for _ in range(c.scale(260, 3000)):
        good.add(spell(r, r.choice(all_names)))
    pieces = ['Foo', 'L1', 'Latin42', 'Lat', 'xLatin', 'Script', 'Age', 'Block', 'sc', '15.0', '1.0', 'Luu', 'Grekk', 'unknown_', 'Age=', 'zzzzz', '14.1', 'Kawi', '1', '14']
    keys = ['Script', 'sc', 'scx', 'Script_Extensions', 'Age', 'Block', 'gc', 'Foo', 'Scriptx', 'Scrip', 'Ag', 'Blocks', 's']
    future = {x.lower() for x in ucd.MISSING | ucd.NO_THIRD | ucd.LATER_BLOCKS}
    while len(bad) < c.scale(260, 3000):
        x = r.random()
        n = r.choice(all_names).split('=')
        if x < 0.3:
            t = list(r.choice(n))
            j = r.randrange(len(t))
            t[j:j + r.choice([0, 1, 1, 2])] = r.choice(['', 'x', '_', '1', 'Q', '.'])
            n[-1] = ''.join(t)
            t = '='.join(n)
        elif x < 0.6:
            t = r.choice(keys) + '=' + r.choice(pieces + [n[-1]] * 6)
        else:
            t = r.choice(pieces)
        part = t.split('=')
        low = t.lower()
        if low in loose or low.split('=')[-1] in future or any(not re.fullmatch(r'[A-Za-z0-9_.]+', q) for q in part):
            continue
        if part[0].lower() in ('script', 'sc', 'scx', 'script_extensions', 'script_extension') and part[-1].lower() in ('unknown', 'zzzz'):
            continue
        if part[0].lower() == 'script_extension':
            continue
        bad.add(t)
    c.coverage['names_accepted'], c.coverage['names_refused'] = len(good), len(bad)
    pats = [(t, 1) for t in sorted(good)] + [(t, 0) for t in sorted(bad)]
    r.shuffle(pats)
    idx = [(i, cps(r.choice(['\\p{%s}', '\\P{%s}', '[\\p{%s}]', 'a[^\\P{%s}b]']) % t)) for i, (t, _) in enumerate(pats)]
    units = [idx[i:i + 50] for i in range(0, len(idx), 50)]
    futs = [c.pool.submit(c09.run_unit, c, cfg, q, 'n%d' % k) for k, q in enumerate(units)]
    wrong = []
    for f in futs:
        for i, (got, pos) in f.result().items():
            c.evals += 1
            c.nontrivial += 1
            if got is None or bool(got) != bool(pats[i][1]):
                wrong.append((i, got))
    wrong.sort(key=lambda w: len(idx[w[0]][1]))
    for i, got in wrong[:3]:
        p = idx[i][1]
        want = pats[i][1]
        text = '#include <ctre-unicode.hpp>\n' + c09.source([(0, p)]).split('int main')[0] + 'int main() { return v_r[0].ok == %d ? 0 : 1; }\n' % want
        c.violation('name', 'pattern /%s/ is %s' % (show_cps(p), 'a hard error' if got is None else 'accepted though there is no such property' if got else 'rejected'), dict(pattern=show_cps(p), source=text, config=cfg.as_dict()))


def inside(c, u, cfg, count=0, prelude='#include "u8.hpp"\n', with_utf8=True):
    """properties inside of larger patterns, code points and UTF-8"""
    r = c.rng
    from checks import c15
    chosen = {}
    want = ['L', 'Lu', 'Ll', 'Nd', 'P', 'Pd', 'Zs', 'Any', 'ASCII', 'Alphabetic', 'Greek', 'Cyrillic', 'Script=Latin', 'scx=Hira', 'Block=Arrows', 'Age=6.0', 'White_Space', 'Emoji', 'Cn', 'Hex']
    byname = {p: m for _, ps, m in u.props for p in ps}
    for n in want + [r.choice(ps) for _, ps, _ in r.sample(u.props, 20)]:
        n2 = spell(r, n)
        chosen[n2] = byname[n]
    path = c.path('ucd.tsv')
    u.write(path, chosen)
    c.props = list(chosen)
    e = Engine(c, cfg, random_subjects=c.scale(160, 400), exhaustive=200, prelude=prelude, per_tu=12, run_args=['--props', path])
    prof = Profile(alphabet='ab\u00e9', extra='Z0_ -\n\u03b1\u0416', wide='\u2192\u3042\U0001F600', props=tuple(chosen), w=dict(cls=45, set=35, cap=12, look=5, anchor=4, atomic=3, bref=3), quant=55, depth=3)
    cases = []
    for node, text, _ in patterns(c, prof, count or c.scale(340, 4000), 60):
        ops = []
        utf8 = r.random() < 0.3 and with_utf8
        for k in ('match', 'search', 'starts_with', r.choice(['search_all', 'tokenize', 'split'])):
            fl = FL_ML if r.random() < 0.2 else 0
            if utf8:
                obj = 'ctre::%s%s<%%p>' % ('multiline_' if fl & FL_ML else '', k)
                name, fn = r.choice(c15.forms(obj, 'u8_range' if k in ('search_all', 'tokenize', 'split') else 'u8_single'))
                ops.append(op(k, fl, 0, fn, k + ' of ' + name))
            else:
                ops.append(op(k, fl, r.randrange(6)))
        c.count('UTF-8' if utf8 else 'code points')
        cases.append(Case(cps(text), ops, 8 if utf8 else 4, node))
    fails = e.run(cases)
    e.report(fails)
    if fails:
        for v in c.violations:
            if 'run_args' in v:
                v['run_args'] = ['--props', '@ucd']
                v['props'] = {n: ucd.invlist(m) for n, m in chosen.items() if n in v['pattern']}
                v['props']['!'] = ucd.invlist(u.unusable)
    e.take()


def run(c):
    c.rule = ('a case is (property in one of its spellings and notations, code point) for all 1114112 code points and 69633 values beyond them, (name, verdict), or (pattern with properties, operation, subject). '
              'Non-trivial: code points beside a bound of the property (and 1000 for each property), every name, and for patterns as in the other checks')
    c.assumptions = ['the oracle is the Unicode 15.0 data of the installed perl; code points which 15.0 added or changed (listed in vlib/ucd.py) are left out, the library has 14.0',
                     'case insensitive mode with properties is not claimed']
    u = ucd.Ucd()
    cfg = Config(header='ctre-unicode.hpp')
    c.pch(cfg)
    membership(c, u, cfg)
    names(c, u, Config(header='ctre-unicode.hpp', opt='-O0') if c.pch(Config(header='ctre-unicode.hpp', opt='-O0')) else None)
    inside(c, u, cfg)
