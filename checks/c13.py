"""Reads and steps outside of the subject."""
from checks.pat import *
from vlib.engine import UNIT_T

PRE = '#include "chk.hpp"\n'
TAGS = {'f': 'std::forward_iterator_tag', 'b': 'std::bidirectional_iterator_tag', 'r': 'std::random_access_iterator_tag'}


def back(n):
    return any(x.k == 'anchor' or (x.k == 'look' and x.a[0]) for x in walk(n))


def behind(n):
    return any(x.k == 'look' and x.a[0] for x in walk(n))


def checked_op(c, k, node, t, fl=0, mods=''):
    put = 'vh::cranged' if k in ('search_all', 'tokenize', 'split') else 'vh::csingle'
    tags = ['b', 'b', 'r'] if back(node) else ['f', 'b', 'r']
    tag = c.rng.choice(tags)
    ways = ['chk_iters', 'chk_subject']
    if not behind(node):
        ways.append('chk_sentinel')
    way = c.rng.choice(ways)
    c.count('%s %s' % (way, TAGS[tag][5:]))
    obj = 'ctre::%s%s<%%p%s>' % ('multiline_' if fl & FL_ML else '', k, mods)
    fn = '[](const void * q, size_t n, VOut * o) { vh::%s<%s, %s>(%s, static_cast<const %s *>(q), n, o); }' % (way, put, TAGS[tag], obj, t)
    return op(k, fl, 0, fn, '%s with %s %s' % (k, way, TAGS[tag]))


def run(c):
    c.rule = RULE + '; here the iterators of the subject notice each read and each step outside of it, and the memory of the subject ends (or begins) at an inaccessible page'
    c.assumptions = ['forward iterators are used with patterns which never look back', 'a subject of malformed UTF-8 has no expected result: only the bounds of reads and of the result, and the end of the evaluation']
    n = c.scale(760, 8000)
    e = Engine(c, random_subjects=c.scale(130, 300), exhaustive=200, prelude=PRE, per_tu=16)
    p1 = Profile(w=dict(look=9, bref=5, atomic=4, anchor=10, wordb=6, cap=12), depth=3, names=5)
    p2 = Profile(w=dict(cap=10, set=12, bref=6, cls=12), depth=3)
    cases = []
    for prof, share in ((p1, 0.6), (p2, 0.4)):
        for node, text, _ in patterns(c, prof, int(n * share), 34):
            unit = c.rng.choice([1, 1, 1, 4, 2])
            t = c.rng.choice({1: ['char', 'unsigned char'], 4: ['char32_t'], 2: ['char16_t']}[unit])
            ops = []
            for k in ('match', 'search', 'starts_with', c.rng.choice(['search_all', 'tokenize', 'split'])):
                fl = FL_ML if c.rng.random() < 0.25 else 0
                ops.append(checked_op(c, k, node, t, fl))
            cases.append(Case(cps(text), ops, unit, node))
    e.report(e.run(cases))
    e.take()
    # UTF-8: any bytes
    e = Engine(c, random_subjects=c.scale(500, 1500), prelude=PRE, per_tu=12)
    p3 = Profile(alphabet='ab\u00e9', wide='\u00e9\u0416\u6f22\U0001F600\ufffd', w=dict(look=12, bref=5, anchor=12, wordb=8, cap=8, set=12))
    cases = []
    for node, text, _ in patterns(c, p3, c.scale(200, 2500), 26):
        ops = []
        for k in ('match', 'search', 'starts_with', c.rng.choice(['search_all', 'tokenize', 'split'])):
            pre = c.rng.choice(['', 'multiline_'])
            put = 'put_u8_range' if k in ('search_all', 'tokenize', 'split') else 'put_u8'
            fn = '[](const void * q, size_t n, VOut * o) { const char8_t * b = static_cast<const char8_t *>(q); vh::%s(ctre::%s%s<%%p>(std::u8string_view(b, n)), b, n, o); }' % (put, pre, k)
            ops.append(op(k, 0, 0, fn, 'u8 ' + pre + k))
        cases.append(Case(cps(text), ops, 9, node))
        c.count('any bytes as UTF-8')
    e.report(e.run(cases))
    e.take()
