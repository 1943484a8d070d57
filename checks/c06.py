from checks.pat import *


def run(c):
    c.rule = RULE + '; every pattern has a backreference'
    c.assumptions = ['a backreference inside of its own group and inside of a lookbehind is excluded (known finding)']
    e = Engine(c, random_subjects=c.scale(250, 500))
    known_findings(e)
    has = lambda x: any(y.k == 'bref' for y in walk(x))
    cases = []
    for prof, k, ml in ((Profile(w=dict(cap=35, bref=45, alt=10, look=3), names=35, depth=3, seqlen=(2, 4)), c.scale(450, 6000), 44),
                        (Profile(w=dict(cap=55, bref=40, lit=25), names=10, depth=4, max_groups=16, seqlen=(2, 5), quant=25), c.scale(250, 3000), 70)):
        for node, text, _ in patterns(c, prof, k, ml, must=has):
            cases.append(Case(cps(text), ops3(c, FL_CI if c.rng.random() < 0.25 else 0), c.rng.choice([1, 1, 1, 4]), node))
    e.report(e.run(cases))
    e.take()
