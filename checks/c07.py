from checks.pat import *


def run(c):
    c.rule = RULE + '; every pattern runs in the case insensitive mode, by a flag of the call or by a switch at the front of the pattern'
    c.assumptions = ['only ASCII letters have a case', 'a switch stands at the front of a pattern without top level alternatives']
    e = Engine(c, random_subjects=c.scale(200, 400))
    known_findings(e)
    cases = []
    alpha = dict(alphabet='aBz', extra='AbZ@[`{19_ -\n')
    p1 = Profile(w=dict(set=25, cls=5, bref=3, look=3, cap=9, anchor=2), depth=3, strings=30, **alpha)
    for node, text, _ in patterns(c, p1, c.scale(400, 5000), 40):
        ops = ops3(c, FL_CI)
        ops.append(op(c.rng.choice(['match', 'search', 'starts_with']), 0))
        cases.append(Case(cps(text), ops, c.rng.choice([1, 1, 1, 4]), node))
    p2 = Profile(w=dict(set=20, anchor=12, any=10, look=3, bref=2), depth=3, strings=25, prefix_modes=('(?i)', '(?i)', '(?c)', '(?m)', '(?s)', '(?im)', '(?i)(?m)', '(?ic)', '(?ci)', '(?sm)', '(?mi)'), alphabet='aBz', extra='\nAb @[`{')
    for node, text, _ in patterns(c, p2, c.scale(320, 4000), 40, must=lambda x: any(y.k == 'mode' for y in walk(x))):
        ops = ops3(c, c.rng.choice([0, 0, FL_CI, FL_ML]))
        cases.append(Case(cps(text), ops, 1, node))
    e.report(e.run(cases))
    e.take()
