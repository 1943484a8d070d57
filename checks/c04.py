from checks.pat import *


def run(c):
    c.rule = RULE + '; every pattern has an anchor, a boundary or a dot and most run with and without multiline'
    e = Engine(c, random_subjects=c.scale(200, 400))
    known_findings(e)
    has = lambda x: any(y.k in ('anchor', 'any') for y in walk(x))
    p1 = Profile(alphabet='ab\n', extra='\nc _-0', w=dict(anchor=35, wordb=14, any=14, look=3, cap=5, cls=3), depth=3)
    p2 = Profile(alphabet='a\n ', extra='\nb_-', w=dict(anchor=20, wordb=30, any=8, alt=14), depth=3, quant=30)
    cases = []
    for prof in (p1, p2):
        for node, text, _ in patterns(c, prof, c.scale(320, 4500), 32, must=has):
            fl = c.rng.choice([0, FL_ML, FL_ML])
            ops = ops3(c, fl)
            ops.append(op(c.rng.choice(['match', 'search', 'starts_with']), FL_ML - fl, 1))
            cases.append(Case(cps(text), ops, c.rng.choice([1, 1, 1, 4]), node))
    for node, text, _ in headed_patterns(c, c.scale(520, 6000)):
        fl = c.rng.choice([0, 0, FL_ML])
        cases.append(Case(cps(text), [op('search', fl, c.rng.randrange(6)), op(c.rng.choice(['match', 'starts_with', 'search']), FL_ML - fl, 1), op(c.rng.choice(['tokenize', 'split', 'search_all']), fl, 0)], c.rng.choice([1, 1, 1, 4]), node))
    e.report(e.run(cases))
    e.take()
