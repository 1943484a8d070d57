"""Pipelines over ranges of subjects and compositions of expressions."""
from checks.pat import *
from vlib.engine import UNIT_T

PRE = '#include "multi.hpp"\n'
LAM = '[](const void * q, size_t n, VOut * o) { const %s * b = static_cast<const %s *>(q); %s }'
KINDS3 = ('match', 'search', 'starts_with')
FORMS = ['VIEWS', 'STRINGS', 'LIST', 'ARRAY', 'POINTERS', 'CONST_STRINGS', 'TEMPORARY', 'MOVED', 'FILTERED', 'DEQUE']
DIVIDE = ['split', 'split', 'search_all', 'tokenize']


def multi_op(c, k, unit, other):
    t = UNIT_T[unit]
    fl = FL_ML if c.rng.random() < 0.2 else 0
    ci = c.rng.random() < 0.12
    fl |= FL_CI if ci else 0
    obj = 'ctre::%s%s<%%p%s>' % ('multiline_' if fl & FL_ML else '', k, ', ctre::ci' if ci else '')
    style = c.rng.randrange(4)
    if c.rng.random() < 0.25 and unit != 14:
        d = c.rng.choice(DIVIDE)
        code = 'vm::chain<%s>(ctre::%s<d_%%p>, %s, b, n, %d, o);' % (t, d, obj, style)
        name = d + ' | ' + k
    else:
        form = c.rng.choice([f for f in FORMS if f != 'POINTERS' or unit in (1, 14)])
        code = 'vm::subjects<vm::%s, %s>(%s, b, n, %d, o);' % (form, t, obj, style)
        name = form.lower() + ' | ' + k
    c.count(name.split(' | ')[0] + ' piped')
    return op(k, fl, 0, LAM % (t, t, code + ' vh::put_result(%s(b, b + n), b, o);' % obj), name)


def plain(n):
    """without captures, modes of the rest of the expression and references"""
    return not any(x.k in ('cap', 'bref', 'mode') for x in walk(n))


SHAPES = [('(?:%s)|(?:%s)', '({0} | {1})', 2), ('(?:%s)(?:%s)', '({0} >> {1})', 2), ('(?:%s)|(?:%s)|(?:%s)', '({0} | {1} | {2})', 3), ('(?:%s)(?:%s)(?:%s)', '({0} >> {1} >> {2})', 3),
          ('(?:%s)(?:(?:%s)|(?:%s))', '({0} >> ({1} | {2}))', 3), ('(?:(?:%s)|(?:%s))(?:%s)', '(({0} | {1}) >> {2})', 3), ('(?:%s)(?:%s)|(?:%s)', '(({0} >> {1}) | {2})', 3)]
METHODS = {'match': 'match', 'search': 'search', 'starts_with': 'starts_with', 'search_all': 'range', 'tokenize': 'tokenize', 'split': 'split'}


def composed(c, a, unit):
    """a case whose pattern is the text of the composition, evaluated as a composition of objects"""
    shape, expr, k = c.rng.choice(SHAPES)
    nodes = a[:k]
    text = shape % tuple(render(n) for n in nodes)
    t = UNIT_T[unit]
    decl = ' '.join('static constexpr char32_t s%d_%%p[] = U"%s"; static constexpr auto c%d_%%p = ctll::fixed_string{s%d_%%p};' % (i, ''.join('\\U%08x' % x if x > 159 else '\\%03o' % x for x in cps(render(n))), i, i) for i, n in enumerate(nodes))
    e = expr.format(*['ctre::re<c%d_%%p>()' % i for i in range(k)])
    ops = []
    for kind in ('match', 'search', 'starts_with', c.rng.choice(['search_all', 'tokenize', 'split'])):
        fl = FL_ML if c.rng.random() < 0.25 else 0
        put = 'put_range' if kind in ('search_all', 'tokenize', 'split') else 'put_result'
        ops.append(op(kind, fl, 0, LAM % (t, t, 'constexpr auto re = %s; vh::%s(re.%s%s(b, b + n), b, o);' % (e, put, 'multiline_' if fl else '', METHODS[kind])), kind + ' of ' + expr))
    c.count('composed ' + expr)
    return text, ops, decl


def run(c):
    c.rule = RULE + '; here an operation is a whole pipeline over the parts of the subject, or an expression which is composed of two or three of them'
    c.assumptions = ['composed expressions have no captures, references and top level modes', 'the strings of a range live as long as the results', 'after an empty match which makes no progress nothing is claimed (known finding of C10)']
    e = Engine(c, random_subjects=c.scale(110, 300), exhaustive=120, prelude=PRE, per_tu=11)
    cases = []
    n = c.scale(330, 4000)
    p1 = Profile(w=dict(cap=20, alt=14, look=5, anchor=8, bref=3, atomic=3), depth=3, names=12, max_groups=6)
    seps = [',', '[, ]', 'a', 'b+', '(?:ab|,)', ' +', 'b|,', '(?=b)b', '[^ab]', '\\d']
    for node, text, _ in patterns(c, p1, int(n * 0.62), 32):
        unit = c.rng.choice([1, 1, 1, 4, 14, 2])
        ops = [multi_op(c, k, unit, None) for k in KINDS3]
        cases.append(Case(cps(text), ops, unit, node, decl='static constexpr auto d_%%p = ctll::fixed_string{"%s"};' % c.rng.choice(seps).replace('\\', '\\\\')))
    p2 = Profile(w=dict(cap=0, bref=0, look=6, anchor=9, wordb=5, atomic=4, set=14), depth=2, seqlen=(1, 2), names=0)
    pool = [nd for nd, text, _ in patterns(c, p2, int(n * 0.8), 14, forbid=lambda x: not plain(x))]
    made = []
    for _ in range(int(n * 0.38)):
        unit = c.rng.choice([1, 1, 4, 2])
        made.append(composed(c, c.rng.sample(pool, 3), unit) + (unit,))
    ok = accepted(c, [cps(m[0]) for m in made])
    for (text, ops, decl, unit), v in zip(made, ok):
        if v[0] and v[1]:
            cases.append(Case(cps(text), ops, unit, None, decl=decl))
    e.report(e.run(cases))
    e.take()
