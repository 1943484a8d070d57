"""Operations give what PCRE2 gives for what both dialects mean the same by."""
from checks.pat import *

FULL = ('match', 'search', 'starts_with')


def run(c):
    c.rule = RULE
    c.assumptions = ['PCRE2 10.42, 32-bit units, PCRE2_DOLLAR_ENDONLY, PCRE2_ALT_CIRCUMFLEX, PCRE2_DOTALL or PCRE2_MULTILINE',
                     'no opinion: repetitions of what may be empty, \\Z outside of the multiline mode, what PCRE2 refuses (lookbehinds of no fixed length), classes and characters above 255, and where a way back into an iteration matters (a known finding of C01)']
    e = Engine(c, driver='driver_pcre.cpp', random_subjects=c.scale(150, 400), exhaustive=200)
    n = c.scale(1000, 12000)
    profs = [(Profile(names=30, w=dict(look=5, bref=5, atomic=4, anchor=6, wordb=4, cap=10)), 1, 0.4),
             (Profile(alphabet='ab\u00e9', wide='\u00e9\u00df\u0416\u6f22\U0001F600\u0100\u00ff\u0080', extra='cAB09_ -\n', w=dict(look=2, anchor=4, wordb=2)), 4, 0.2),
             (Profile(w=dict(lit=40, set=20, cls=10, alt=14, cap=14), quant=70, depth=3, seqlen=(2, 4)), 1, 0.25)]
    profs = [p + (None,) for p in profs]
    # what one group takes is taken again elsewhere; captures leave a lookahead
    again = lambda x: any(y.k == 'bref' for y in walk(x))
    ahead = lambda x: any(y.k == 'look' and any(z.k == 'cap' for z in walk(y)) for y in walk(x))
    profs += [(Profile(w=dict(cap=35, bref=45, alt=10, look=3), quant=35, names=60, depth=3, seqlen=(2, 4)), 1, 0.15, again),
              (Profile(w=dict(cap=30, bref=30, alt=8, look=30, lit=30), quant=25, names=40, depth=3, seqlen=(2, 3)), 1, 0.15, ahead)]
    cases = []
    for prof, unit, share, must in profs:
        for node, text, _ in patterns(c, prof, int(n * share), must=must):
            flags = (FL_ML if c.rng.random() < 0.3 else 0) | (FL_CI if c.rng.random() < 0.2 else 0)
            ops = ops3(c, flags)
            if c.rng.random() < 0.4:
                ops.append(op(c.rng.choice(['search_all', 'tokenize', 'split']), flags))
            cases.append(Case(cps(text), ops, unit, node))
    e.report(e.run(cases))
    e.take()
    if e.stats['undecided'] > 3 * e.stats['evals']:
        raise Infra('PCRE2 has an opinion too rarely')
