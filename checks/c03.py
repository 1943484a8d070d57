from checks.pat import *


def run(c):
    c.rule = RULE + '; every pattern has a repetition'
    c.assumptions = ['each completed iteration of a repetition is final, as in the model', 'a maximum of zero repetitions is excluded (known finding)']
    prof = Profile(w=dict(atomic=3, any=8, set=14, anchor=3, wordb=1, cap=6), quant=80, modes=(55, 20, 25), bigbounds=8, depth=3)
    n = c.scale(420, 5000)
    cases = []
    has = lambda x: any(y.k == 'rep' for y in walk(x))
    for node, text, _ in patterns(c, prof, n, must=has):
        cases.append((node, text))
    for node, text, _ in small_scope(c, c.scale(380, 5000)):
        cases.append((node, text))
    atoms = small_atoms()[:6]
    for node, text, _ in small_scope(c, c.scale(150, 1500), 3, atoms):
        cases.append((node, text))
    cfgs = [(DEFAULT, 1.0), (Config(defs=('CTRE_DISABLE_GREEDY_OPT',)), c.scale(30, 50) / 100), (Config(defs=('CTRE_MSVC_GREEDY_WORKAROUND',)), c.scale(30, 50) / 100)]
    first = True
    for cfg, share in cfgs:
        e = Engine(c, cfg, random_subjects=c.scale(150, 300))
        if first:
            known_findings(e)
            first = False
        sel = cases if share == 1.0 else c.rng.sample(cases, int(len(cases) * share))
        e.report(e.run([Case(cps(t), ops3(c), 1, node) for node, t in sel]))
        e.take()
