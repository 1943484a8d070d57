from checks.pat import *

PRE = '#include "forms.hpp"\n'
T = {1: ['char', 'unsigned char'], 4: ['char32_t', 'wchar_t'], 2: ['char16_t']}


def forms(t, put, forward_only, behind):
    bidir = not forward_only
    f = []
    stringish = t != 'unsigned char'
    for cont in ('std::vector', 'std::deque', 'std::list', 'vh::own_string'):
        f.append((cont, 'vh::by_range<%s<%s>, %s>' % (cont, t, put)))
        f.append((cont + ' lvalue', 'vh::by_lvalue<%s<%s>, %s>' % (cont, t, put)))
        if cont != 'vh::own_string':
            f.append((cont + ' iterators', 'vh::by_iters<%s<%s>, %s>' % (cont, t, put)))
    if not behind:
        f.append(('list sentinel', 'vh::by_sentinel<std::list<%s>, %s>' % (t, put)))
        f.append(('vector sentinel', 'vh::by_sentinel<std::vector<%s>, %s>' % (t, put)))
    f.append(('span', 'vh::by_span<%s>' % put))
    f.append(('reverse iterators', 'vh::by_reverse_source<%s>' % put))
    if stringish:
        f.append(('string', 'vh::by_range<std::basic_string<%s>, %s>' % (t, put)))
        f.append(('string lvalue', 'vh::by_lvalue<std::basic_string<%s>, %s>' % (t, put)))
        f.append(('pmr string', 'vh::by_range<std::pmr::basic_string<%s>, %s>' % (t, put)))
        f.append(('string_view', 'vh::by_view<%s>' % put))
    if t in ('char', 'wchar_t'):
        f += [('zero terminated', 'vh::by_zstring<%s>' % put)] * 3
    if forward_only:
        f += [('forward_list', 'vh::by_range<std::forward_list<%s>, %s>' % (t, put)), ('forward_list iterators', 'vh::by_iters<std::forward_list<%s>, %s>' % (t, put))] * 2
    return f


def back(n):
    return any(x.k == 'anchor' or (x.k == 'look' and x.a[0]) for x in walk(n))


def run(c):
    c.rule = RULE + '; here the subject is given in one of about 25 representations, and the offsets of the result are distances from its begin'
    c.assumptions = ['forward iterators are used with patterns which never look back', 'a zero terminated subject has no zero inside', 'a sentinel of another type than the iterator is used with patterns without lookbehind (there it has to be an iterator)']
    e = Engine(c, random_subjects=c.scale(110, 300), exhaustive=150, prelude=PRE, per_tu=14)
    known_findings(e)
    cases = []
    n = c.scale(520, 5000)
    p1 = Profile(w=dict(look=6, bref=4, atomic=3, anchor=8, wordb=5, cap=12), depth=3, names=10)
    p2 = Profile(w=dict(cap=12, set=12, bref=5), depth=3)
    wide = dict(alphabet='ab\u00e9', wide='\u00e9\u0416\u6f22')
    p3 = Profile(w=dict(look=4, anchor=6, cap=10), depth=3, **wide)
    for prof, share, units in ((p1, 0.4, [1]), (p2, 0.3, [1, 1, 4]), (p3, 0.3, [4, 4, 2])):
        for node, text, _ in patterns(c, prof, int(n * share), 30):
            unit = c.rng.choice(units)
            t = c.rng.choice(T[unit])
            ops = []
            kinds = ['match', 'search', 'starts_with', c.rng.choice(['search_all', 'tokenize', 'split'])]
            for k in kinds:
                put = 'vh::ranged' if k in ('search_all', 'tokenize', 'split') else 'vh::single'
                name, fn = c.rng.choice(forms(t, put, not back(node), any(x.k == 'look' and x.a[0] for x in walk(node))))
                c.count(name)
                fl = FL_ML if c.rng.random() < 0.15 else 0
                obj = 'ctre::%s%s<%%p>' % ('multiline_' if fl else '', k)
                text_fn = '[](const void * q, size_t n, VOut * o) { %s(%s, static_cast<const %s *>(q), n, o); }' % (fn, obj, t)
                ops.append(op(k, fl, 0, text_fn, '%s of %s(%s)' % (k, name, t)))
            cases.append(Case(cps(text), ops, unit, node))
    e.report(e.run(cases))
    e.take()
