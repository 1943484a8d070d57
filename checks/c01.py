from checks.pat import *


def run(c):
    c.rule = RULE
    c.assumptions = ['each completed iteration of a repetition is final (documented difference to backtracking into it), as in the model',
                     'patterns are limited to 44 characters and subjects to 600 characters']
    e = Engine(c, random_subjects=c.scale(150, 400))
    known_findings(e)
    n = c.scale(900, 12000)
    prof = Profile(w=dict(look=3, bref=2, atomic=3, anchor=5, wordb=2), names=10)
    wide = Profile(alphabet='ab\u00e9', wide='\u00e9\u00df\u0416\u6f22\U0001F600\u0100\u00ff\u0080', extra='cAB09_ -\n', w=dict(look=2, anchor=4, wordb=2))
    cases = []
    for node, text, _ in patterns(c, prof, n * 3 // 4):
        cases.append(Case(cps(text), ops3(c, FL_ML if c.rng.random() < 0.15 else 0), 1, node))
    for node, text, _ in patterns(c, wide, n // 4):
        cases.append(Case(cps(text), ops3(c), c.rng.choice([4, 4, 14, 2]), node))
    for node, text, _ in small_alternations(c, n // 4):
        cases.append(Case(cps(text), ops3(c), 1, node))
    e.report(e.run(cases))
    e.take()
