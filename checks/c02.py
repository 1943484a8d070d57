from checks.pat import *

def run(c):
    c.rule = RULE + '; here also every pattern has at least one capture and every capture is compared'
    c.assumptions = ['captures inside of a lookbehind are not observed (known finding)', 'at most 40 groups']
    e = Engine(c, random_subjects=c.scale(200, 400))
    known_findings(e)
    n = c.scale(800, 9000)
    has_cap = lambda x: any(y.k == 'cap' for y in walk(x))
    cases = []
    profs = [(Profile(w=dict(cap=40, alt=14, look=3, atomic=4, bref=3), names=45, max_groups=9), 0.5, 44),
             (Profile(w=dict(cap=60, alt=10, lit=30), names=25, max_groups=30, depth=6, seqlen=(1, 5), quant=30), 0.2, 90),
             (Profile(w=dict(cap=70, alt=10, lit=20, cls=2, set=3), names=100, depth=2, seqlen=(2, 4), quant=30), 0.12, 90),
            (Profile(w=dict(cap=50, alt=20, look=6, atomic=8), names=0, depth=5, quant=70, modes=(50, 30, 20)), 0.3, 44)]
    for prof, share, maxlen in profs:
        for node, text, _ in patterns(c, prof, int(n * share), maxlen, must=has_cap):
            names, i = name_table(node)
            c.count('groups>9' if i > 9 else 'groups<=9')
            ops = ops3(c)
            decl = None
            if names:
                k = c.rng.randrange(3)
                ops[k] = named_op(('match', 'search', 'starts_with')[k], names)
                decl = name_decl(names)
            cases.append(Case(cps(text), ops, 1, node, decl=decl))
    e.report(e.run(cases))
    e.take()
