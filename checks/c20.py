"""The single-header files, judged on their own by the reference model."""
import os
from checks.pat import *
from checks import c08, c09, c10, c15, c17
from vlib import ucd
from vlib.core import REPO

SH = os.path.join(REPO, 'single-header')
ITER = ('search_all', 'tokenize', 'split')


def configs():
    return [Config(inc=SH, header='ctre.hpp'), Config(inc=SH, header='ctre-unicode.hpp'), Config('clang++-18', 'c++17', inc=SH, header='ctre.hpp')]


def profiles():
    w = '\u00e9\u0416\u6f22\uffff\U0001F600\U0010FFFF'
    return [(Profile(w=dict(look=9, bref=5, atomic=6, anchor=8, wordb=5, cap=14), names=20), 34, (1, 1, 4, 14, 2)),
            (Profile(alphabet='ab\u00e9', wide=w, extra='bA0 _-\n', w=dict(set=32, cls=18, cap=12, any=8), quant=50, escapes=20), 30, (4, 4, 8, 2, 14)),
            (Profile(alphabet='abB', extra='cA09_ ,-\n', w=dict(set=20, cls=10, anchor=8, cap=12, look=5), prefix_modes=('(?i)', '(?m)', '(?s)', '(?im)')), 30, (1, 1, 1, 4)),
            (Profile(alphabet='ab', extra='cAB01 ,;-\n', depth=2, seqlen=(1, 3), w=dict(look=5, anchor=6, wordb=5, cap=14, bref=3, set=14), names=15), 24, (1, 4, 8))]


def ops(c, unit, prefix, iterations):
    out = []
    for k in ('match', 'search', 'starts_with') + ((c.rng.choice(ITER),) if iterations else ()):
        fl = FL_ML if c.rng.random() < 0.2 and not prefix else 0
        if unit == 8:
            obj = 'ctre::%s%s<%%p>' % ('multiline_' if fl & FL_ML else '', k)
            name, fn = c.rng.choice(c15.forms(obj, 'u8_range' if k in ITER else 'u8_single'))
            out.append(op(k, fl, 0, fn, k + ' of ' + name))
        else:
            fl |= FL_CI if c.rng.random() < 0.15 else 0
            out.append(op(k, fl, c.rng.randrange(6)))
    return out


def matching(c, cfg, count, twenty):
    e = Engine(c, cfg, random_subjects=c.scale(130, 350), exhaustive=220, prelude='#include "u8.hpp"\n' if twenty else '', per_tu=14)
    cases = []
    ps = profiles()
    for prof, ml, units in ps:
        for node, text, _ in patterns(c, prof, count // len(ps), ml):
            unit = c.rng.choice([u for u in units if twenty or u != 8])
            mode = any(x.k == 'mode' for x in walk(node)) or text.startswith('(?')
            cases.append(Case(cps(text), ops(c, unit, mode, True), unit, node))
    if twenty:
        for node, text, _ in small_alternations(c, count // 6):
            cases.append(Case(cps(text), ops3(c), 1, node))
        for node, text, _ in headed_patterns(c, count // 6):
            cases.append(Case(cps(text), ops3(c, FL_ML if c.rng.random() < 0.3 else 0), 1, node))
    e.report(e.run(cases))
    e.take()


def classes(c, cfg, count):
    """every class of characters, on every character up to 0x3100"""
    e = Engine(c, cfg, random_subjects=60, run_args=['--classes'], per_tu=20)
    cases = []
    for n, t, _ in valid(c, c08.expressions(c, count)[0]):
        cases.append(Case(cps(t), [op('match', fl, 0) for fl in (0, FL_CI)], 4, n))
    e.report(e.run(cases))
    e.take()


def syntax(c, cfg, count):
    """accepted or rejected, and where"""
    r = c.rng
    props = ['L', 'Lu', 'Nd', 'Script=Latin', 'sc=grek']
    strs = set()
    pl = c09.places()
    strs |= set(r.sample(pl, min(len(pl), count)))
    gen = Gen(r, Profile(w=dict(look=4, bref=5, atomic=4, anchor=6, wordb=3, cap=12, set=14), names=40, escapes=25, prefix_modes=('(?i)', '(?m)', '(?ims)', '(?c)'), wide='\u00e9\u6f22'))
    while len(strs) < 2 * count:
        n, t = make(gen, c, 30)
        if len(t) <= 50:
            strs.add(c09.mutate(r, t) if r.random() < 0.7 else t)
    import re
    strs = {t for t in strs if not re.search(r'\(\?<[=!].*\(\?[icsm]', t) and not re.search(r'\\[pP]', t)}
    pats = sorted(strs)
    r.shuffle(pats)
    ref = accepted(c, [cps(t) for t in pats], props)
    c.pch(cfg)
    idx = list(enumerate([cps(t) for t in pats]))
    futs = [c.pool.submit(c09.run_unit, c, cfg, idx[i:i + 60], 'y%d' % i) for i in range(0, len(idx), 60)]
    bad = []
    for f in futs:
        for i, (got, pos) in f.result().items():
            want = bool(ref[i][0])
            c.evals += 1
            c.nontrivial += len(pats[i]) > 1
            c.count('accepted' if want else 'rejected')
            if got is None or bool(got) != want or (pos != ref[i][3] if not want and ref[i][3] != c09.NOPOS else want and pos != len(idx[i][1])):
                bad.append((i, got, pos, want))
    bad.sort(key=lambda b: len(pats[b[0]]))
    for i, got, pos, want in bad[:3]:
        p = idx[i][1]
        at = len(p) if want else ref[i][3]
        text = '#include <%s>\n' % cfg.header + c09.source([(0, p)]).split('int main')[0] + 'int main() { return v_r[0].ok == %d && (v_r[0].pos == %d || %d) ? 0 : 1; }\n' % (want, at, at == c09.NOPOS)
        c.violation('syntax', 'single-header: pattern /%s/ should be %s, it is %s (%s)' % (pats[i], 'accepted' if want else 'rejected', 'a hard error' if got is None else 'accepted' if got else 'rejected', str(pos)[:300]), dict(pattern=pats[i], source=text, config=cfg.as_dict()))


def run(c):
    c.rule = RULE + '. Here everything is compiled from the files of single-header, which are not generated from include before the check'
    c.assumptions = ['single-header/unicode-db.hpp alone is part of C21', 'the same domain as in C01, C04 to C10, C15 and C17']
    one, uni, old = configs()
    matching(c, one, c.scale(250, 3500), True)
    matching(c, old, c.scale(110, 1500), False)
    classes(c, one, c.scale(60, 1500))
    syntax(c, Config(inc=SH, header='ctre.hpp', opt='-O0'), c.scale(700, 8000))
    u = ucd.Ucd()
    c.pch(uni)
    all_props = u.props
    if not c.thorough():
        u.props = c.rng.sample(u.props, 150)
    c17.membership(c, u, uni)
    u.props = all_props
    c17.inside(c, u, uni, c.scale(120, 1500))
