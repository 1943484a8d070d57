from checks.pat import *


def run(c):
    c.rule = RULE + '; every pattern has a lookahead or a lookbehind'
    c.assumptions = ['inside of a lookbehind: no captures, backreferences, atomic groups or possessive repetitions, and repeated parts have a fixed length']
    e = Engine(c, random_subjects=c.scale(200, 400))
    known_findings(e)
    has = lambda x: any(y.k == 'look' for y in walk(x))
    cases = []
    for prof, k in ((Profile(w=dict(look=40, anchor=3, wordb=3), depth=3), c.scale(450, 6000)),
                    (Profile(w=dict(look=50, alt=4, cap=6, set=14), depth=2, quant=35, seqlen=(1, 3)), c.scale(300, 4000))):
        for node, text, _ in patterns(c, prof, k, 40, must=has):
            cases.append(Case(cps(text), ops3(c, FL_ML if c.rng.random() < 0.2 else 0), 1, node))
    e.report(e.run(cases))
    e.take()
