"""What a result and its captures convert to, compare with and count."""
import os
from checks.pat import *
from vlib.core import sh, LIB
from vlib.engine import UNIT_T

PRE = '#include "forms.hpp"\n#include "results.hpp"\n'
LAM = '[](const void * q, size_t n, VOut * o) { const %s * b = static_cast<const %s *>(q); %s }'
ITER = ('search_all', 'tokenize', 'split')


def sources(t):
    """(name, declarations, arguments, base iterator, contiguous)"""
    out = [('pointers', '', 'b, b + n', 'b', 1),
           ('string_view', 'const std::basic_string_view<%s> s(b, n);' % t, 's', 'b', 1),
           ('string', 'const std::basic_string<%s> s(b, n);' % t, 's', 's.begin()', 1),
           ('string iterators', 'std::basic_string<%s> s(b, n);' % t, 's.begin(), s.end()', 's.begin()', 1),
           ('vector', 'const std::vector<%s> s(b, b + n);' % t, 's', 's.begin()', 1),
           ('deque', 'const std::deque<%s> s(b, b + n);' % t, 's', 's.begin()', 0),
           ('reverse', 'const std::vector<%s> v(b, b + n); const std::basic_string<%s> s(v.rbegin(), v.rend());' % (t, t), 's.rbegin(), s.rend()', 's.rbegin()', 0),
           ('list', 'const std::list<%s> s(b, b + n);' % t, 's', 's.begin()', 0)]
    return out


def names_of(node):
    names, i = [], 0
    for x in walk(node):
        if x.k == 'cap':
            i += 1
            if x.a[0]:
                names.append((i, x.a[0]))
    return i, names


def body(c, node, k, fl, unit):
    t = UNIT_T[unit]
    groups, names = names_of(node)
    obj = 'ctre::%s%s<%%p%s>' % ('multiline_' if fl & FL_ML else '', k, ', ctre::ci' if fl & FL_CI else '')
    more = ''
    for i, nm in names:
        more += '{ const auto & x = r.template get<%d>(); const auto & y = r.template get<"%s">(); if (bool(x) != bool(y) || x.to_string() != y.to_string()) vh::note(o, 150, "text of the named capture"); vr::one<C, false>(y, o); } ' % (i, nm)
    if groups < 14:
        v = ', '.join('x%d' % i for i in range(groups + 1))
        more += '{ const auto & [%s] = r; ' % v + ' '.join('if (x%d.begin() != r.template get<%d>().begin() || x%d.end() != r.template get<%d>().end() || bool(x%d) != bool(r.template get<%d>())) vh::note(o, 151, "structured binding differs");' % ((i,) * 6) + (' static_assert(x%d.get_id() == %d);' % (i, i) if not i else '') for i in range(groups + 1)) + ' } '
    if unit == 8:
        name, arg, cont = c.rng.choice([('u8string_view', 'std::u8string_view(b, n)', 1), ('utf8_range', 'ctre::utf8_range(std::u8string_view(b, n))', 0)])
        pre, put = '', 'vh::u8_item(r, b, o)'
    else:
        name, pre, arg, base, cont = c.rng.choice(sources(t))
        put = 'vh::put_item_d(r, %s, o)' % base
    c.count(name + ' ' + t)
    look = 'constexpr bool C = %s; %s; vr::inspect<C>(r, o); %s' % ('true' if cont else 'false', put, more)
    if k in ITER:
        code = '%s for (const auto & r: %s(%s)) { %s if (o->overflow) return; }' % (pre, obj, arg, look)
    else:
        code = '%s const auto r = %s(%s); %s' % (pre, obj, arg, look)
    return op(k, fl, 0, LAM % (t, t, code), k + ' of ' + name)


def numbers(c):
    src = os.path.join(LIB, 'numbers.cpp')

    def one(k, cfg):
        exe = c.path('numbers%d' % k)
        x, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe], timeout=400)
        if x:
            return cfg, 'does not compile: ' + e.decode(errors='replace')[:600], 0, 0
        n = c.scale(300000, 6000000)
        x, o, e = sh([exe, str(c.seed + k), str(n)], timeout=800)
        o = o.decode(errors='replace')
        if x == 0 and o.startswith('OK'):
            return cfg, None, int(o.split()[1]), int(o.split()[2])
        return cfg, 'status %d: %s' % (x, o.strip()), n, 0
    for f in [c.pool.submit(one, k, g) for k, g in enumerate((Config('g++', 'c++20', '-O1'), Config('clang++-18', 'c++20', '-O1')))]:
        cfg, err, n, distinct = f.result()
        c.evals += n
        c.nontrivial += distinct
        c.count('texts converted to numbers ' + cfg.cxx, n)
        if err and one(9, cfg)[1] and one(9, cfg)[1]:
            c.violation('number', 'to_number: %s (%s)' % (err, cfg), dict(source=open(src).read(), config=cfg.as_dict(), args=[c.seed, 300000]))


def findings(c):
    """the listed findings: an expression which should be true"""
    for k in c.known():
        if not k.get('code'):
            continue
        src, exe = c.path('known.cpp'), c.path('known')
        open(src, 'w').write('#include <ctre.hpp>\n#include <optional>\n#include <string_view>\nusing namespace std::literals;\nint main() { %s }\n' % k['code'])
        r, o, e = sh([DEFAULT.cxx] + DEFAULT.flags() + [src, '-o', exe], timeout=200)
        if r == 0:
            r, o, e = sh([exe], timeout=60)
        if r:
            print('KNOWN-FINDING: property=%s %s' % (c.id, k['what']), flush=True)
            c.coverage.setdefault('known_findings', []).append(k['what'])


def run(c):
    c.rule = RULE + '; here every conversion and comparison of the result and of each of its captures is compared with a plain copy of the elements between its begin and its end. A text converted to numbers counts once (distinct texts)'
    c.assumptions = ['views are asked for contiguous subjects only', 'nothing is claimed for to_number<double> of infinities, NaN and results outside of the range', 'an optional view is taken from to_optional_view or from a const object (see the known finding)']
    findings(c)
    numbers(c)
    e = Engine(c, random_subjects=c.scale(110, 300), exhaustive=120, prelude=PRE, per_tu=9)
    w = '\u00e9\u0416\u6f22\uffff'
    num = dict(alphabet='019-', extra='aFzZ+.e 58')
    profs = [(Profile(w=dict(cap=34, alt=16, look=4, anchor=6, bref=3), depth=3, names=35, max_groups=7), 0.5, [1, 1, 1, 4, 2, 14], 34),
             (Profile(w=dict(cap=40, set=14, cls=14, any=6), depth=3, names=15, max_groups=5, **num), 0.25, [1], 28),
             (Profile(alphabet='ab\u00e9', wide=w, w=dict(cap=34, alt=14, any=12), depth=3, max_groups=5), 0.25, [8, 8, 4, 2], 26)]
    n = c.scale(330, 3600)
    cases = []
    for prof, share, units, ml in profs:
        for node, text, _ in patterns(c, prof, int(n * share), ml):
            unit = c.rng.choice(units)
            ops = []
            for k in c.rng.sample(['match', 'search', 'search', 'starts_with'], 2) + [c.rng.choice(ITER)]:
                fl = FL_ML if c.rng.random() < 0.15 else 0
                fl |= FL_CI if unit != 8 and c.rng.random() < 0.1 else 0
                ops.append(body(c, node, k, fl, unit))
            cases.append(Case(cps(text), ops, unit, node))
    e.report(e.run(cases))
    e.take()
