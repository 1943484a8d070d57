from checks.pat import *
from vlib.engine import UNIT_T


def variants(kind, unit, ml):
    """different ways to write the same iteration"""
    t = UNIT_T[unit]
    pre = 'multiline_' if ml else ''
    name = {'search_all': 'search_all', 'tokenize': 'tokenize', 'split': 'split'}[kind]
    obj = 'ctre::%s%s<%%p>' % (pre, name)
    lam = '[](const void * q, size_t n, VOut * o) { const %s * b = static_cast<const %s *>(q); (void) n; %%s }' % (t, t)
    sv = 'std::basic_string_view<%s>(b, n)' % t
    v = [('range-for', lam % ('vh::put_range(%s(b, b + n), b, o);' % obj)),
         ('pipe', lam % ('vh::put_range(%s | %s, b, o);' % (sv, obj))),
         ('view', lam % ('auto s = %s; vh::put_range(%s(s), b, o);' % (sv, obj))),
         ('iterators', lam % ('auto r = %s(b, b + n); vh::put_iter(r.begin(), r.end(), b, o, 0);' % obj)),
         ('iterators post', lam % ('auto r = %s | %s; vh::put_iter(r.begin(), r.end(), b, o, 3);' % (sv, obj))),
         ('method', lam % ('vh::put_range(ctre::re<%%p>().%s%s(b, b + n), b, o);' % (pre, {'search_all': 'range', 'tokenize': 'tokenize', 'split': 'split'}[kind])))]
    if kind == 'search_all':
        v += [('iterator+sentinel', lam % ('vh::put_iter(ctre::%siterator<%%p>(b, b + n), ctre::%ssentinel, b, o, 1);' % (pre, pre))),
              ('iterator+sentinel view', lam % ('auto s = %s; vh::put_iter(ctre::%siterator<%%p>(s), ctre::%siterator<%%p>(), b, o, 2);' % (sv, pre, pre))),
              ('range', lam % ('vh::put_range(ctre::%srange<%%p>(b, b + n), b, o);' % pre)),
              ('iterator method', lam % ('vh::put_iter(ctre::re<%%p>().%siterator(b, b + n), ctre::sentinel, b, o, 2);' % pre))]
    return v


def run(c):
    c.rule = RULE + '; here an operation is a whole iteration (search_all, tokenize or split), written in one of ten ways'
    c.assumptions = ['after an empty match which makes no progress nothing is claimed (known finding): only the results up to it are compared', 'at most 218 results']
    e = Engine(c, random_subjects=c.scale(160, 350), exhaustive=200)
    known_findings(e)
    cases = []
    profs = [(Profile(alphabet='ab', extra='cAB01 ,;-\n', depth=2, seqlen=(1, 3), w=dict(look=5, anchor=6, wordb=5, cap=14, bref=3, set=14), names=15), 0.6, 24),
             (Profile(alphabet='a,', extra='b ;\n', depth=1, seqlen=(1, 2), quant=30, w=dict(set=25, cls=20, anchor=8, wordb=6)), 0.4, 14)]
    n = c.scale(900, 8000)
    for prof, share, ml in profs:
        for node, text, _ in patterns(c, prof, int(n * share), ml):
            unit = c.rng.choice([1, 1, 1, 4, 14, 2])
            fl = FL_ML if c.rng.random() < 0.25 else 0
            ops = []
            for kind in ('search_all', 'tokenize', 'split'):
                name, fn = c.rng.choice(variants(kind, unit, fl))
                c.count(kind + ': ' + name)
                ops.append(op(kind, fl, 0, fn, kind + ('_ml ' if fl else ' ') + name))
            cases.append(Case(cps(text), ops, unit, node))
    e.report(e.run(cases))
    e.take()
