"""Large patterns compile within the limits of the compilers and mean what small ones do."""
from checks.pat import *

LIMITS = {'g++': ['-ftemplate-depth=900'], 'clang++-18': ['-ftemplate-depth=1024']}


def word(r, lo=1, hi=6, letters='abc'):
    return ''.join(r.choice(letters) for _ in range(r.randint(lo, hi)))


def group(x):
    return N('ncap', (x,))


def seq(*xs):
    out = []
    for x in xs:
        out += list(x.kids) if x.k == 'seq' else [x]
    return N('seq', tuple(out))


def big_literal(r):
    n = r.randint(60, 240)
    s = word(r, n, n, r.choice(['ab', 'abcdefgh', 'aB 9_']))
    x = lits(s)
    k = r.randrange(4)
    if k == 0:
        return quant_node(group(x), r.choice(['', '?', '+', '*', '{1,2}', '*?', '++']))
    if k == 1:
        return seq(quant_node(lits(s[0]), r.choice(['*', '+', '??', '*+'])), x, quant_node(lits(s[-1]), r.choice(['*', '+', '?'])))
    if k == 2:
        return seq(quant_node(raw('any', '.'), r.choice(['*', '*?'])), x, raw('anchor', '$'))
    return x


def big_alternation(r):
    words = [word(r, 1, r.choice([2, 4, 7]), 'abc') for _ in range(r.randint(12, 44))]
    kids = tuple(lits(w) if r.random() < 0.85 else quant_node(lits(w[0]), r.choice(['*', '+', '?'])) if r.random() < 0.5 else N('cap', (lits(w),), ('',)) for w in words)
    x = N(r.choice(['cap', 'ncap', 'atomic']), (N('alt', kids),), ('',))
    k = r.randrange(4)
    if k == 0:
        return seq(x, lits(r.choice('abc')))
    if k == 1:
        return seq(quant_node(raw('set', '[ab]'), r.choice(['*', '*?', '?'])), x)
    if k == 2 and x.k != 'atomic':
        return seq(quant_node(x, r.choice(['+', '{2}', '*?', '{1,3}'])), raw('anchor', '$'))
    return x


def big_set(r):
    items, used = [], set()
    pool = [chr(c) for c in range(33, 127) if chr(c) not in '\\[]^-"']
    for _ in range(r.randint(12, 48)):
        k = r.randrange(5)
        a, b = sorted((r.choice(pool), r.choice(pool)))
        if k == 0:
            items.append(r.choice(['\\d', '\\w', '\\s', '[:alpha:]', '[:punct:]', '\\D']) if r.random() < 0.5 else a)
        elif k == 1 and a.isalnum() and b.isalnum() and ord(b) - ord(a) < 6:
            items.append(a + '-' + b)
        else:
            items.append(a)
    x = raw('set', '[%s%s]' % ('^' if r.random() < 0.35 else '', ''.join(items)))
    y = quant_node(x, r.choice(['', '*', '+', '{3}', '*?', '++', '{2,5}']))
    tail = r.choice([lits('a'), lits('~'), raw('anchor', '$'), raw('cls', '\\d'), quant_node(raw('set', '[0-9a-f]'), '+')])
    return seq(y, tail) if r.random() < 0.8 else y


def deep(r):
    x = r.choice([lits('a'), raw('set', '[ab]'), N('alt', (lits('a'), lits('b')))])
    caps = 0
    for i in range(r.randint(8, 26)):
        k = r.randrange(12)
        if x.k == 'alt':
            k = r.randrange(4)
        if k < 3:
            x = N('cap', (x,), ('',)) if caps < 14 else group(x)
            caps += 1
        elif k < 5:
            x = group(x)
        elif k == 5:
            x = N('atomic', (x,))
        elif k == 6:
            x = seq(N('look', (x,), (False, r.random() < 0.5)), raw('any', '.')) if i < 10 else group(x)
        elif k == 7:
            x = quant_node(group(x), r.choice(['?', '??', '{1,2}', '?+']))
        elif k == 8:
            x = seq(x, lits(r.choice('ab')))
        elif k == 9:
            x = seq(lits(r.choice('ab')), x)
        else:
            x = group(N('alt', (x, lits(word(r, 1, 2)))) if r.random() < 0.5 else N('alt', (lits(word(r, 1, 2)), x)))
    return x


def captures(r):
    n = r.randint(10, 22)
    names = r.random() < 0.6
    xs, used = [], []
    stem = 'n' + word(r, 0, 40, 'abcxyz_0')
    for i in range(n):
        a = r.choice([lits(r.choice('abc')), raw('set', '[ab]'), quant_node(lits(r.choice('ab')), r.choice(['?', '*', '+'])), N('alt', (lits('a'), lits('b')))])
        nm = ''
        if names and r.random() < 0.9:
            k = r.randrange(4)      # with the first or the last characters of another
            nm = 'n%d%s' % (i, word(r, 1, 40, 'abcxyz_0')) if k == 0 else stem + chr(97 + i) if k < 3 else chr(97 + i) + stem
            used.append(nm)
        c = N('cap', (a,), (nm,))
        xs.append(quant_node(c, '?') if r.random() < 0.2 else c)
        if r.random() < 0.15:
            xs.append(lits(r.choice(',;')))
    if r.random() < 0.5:
        xs.append(raw('bref', '\\g{%s}' % (r.choice(used) if used and r.random() < 0.6 else r.randint(1, n))))
    return N('seq', tuple(xs))


def counts(r):
    def q(small=False):
        n = r.choice([2, 3, 9, 17]) if small else r.choice([64, 99, 100, 127, 128, 129, 255, 256, 257, 300, 500, 999, 1000, 1024])
        x = r.choice(['{%d}' % n, '{%d,}' % n, '{%d,%d}' % (n - r.choice([0, 1, n // 2]), n), '{%d,%d}' % (n, n + r.choice([1, 5, 100])), '{0,%d}' % n])
        return x + (r.choice(['', '', '', '?', '+']) if ',' in x else '')
    a = r.choice([lits('a'), raw('set', '[ab]'), raw('any', '.'), raw('set', '[^b]'), group(N('alt', (lits('a'), lits('b')))), N('cap', (lits('a'),), ('',)), group(lits('ab'))])
    k = r.randrange(4)
    if k == 0:
        return quant_node(group(quant_node(a, q(True))), q(True))
    if k == 1:
        return seq(quant_node(a, q()), lits(r.choice('abc')))
    if k == 2:
        return seq(lits(r.choice('ab')), quant_node(a, q()), raw('anchor', '$'))
    return quant_node(a, q())


def mixture(r, gen):
    n = r.randint(10, 24)
    xs = []
    for _ in range(n):
        a = r.choice(small_atoms()[:7])
        xs.append(quant_node(a, r.choice(['', '', '', '?', '*', '+', '*?', '??', '{1,2}', '?+'])))
    return N('seq', tuple(xs))


KINDS = [(big_literal, 0.15), (big_alternation, 0.2), (big_set, 0.2), (deep, 0.15), (captures, 0.1), (counts, 0.2)]


def run(c):
    c.rule = RULE + '; the patterns are large: literals of up to 240 characters, alternations of up to 44 options, sets of up to 48 items, groups up to 26 deep, up to 22 captures with names of up to 43 characters, counts up to 1124, sequences of up to 24 quantified items'
    c.assumptions = ['template depths of 900 (g++) and 1024 (clang++), their defaults', 'a repetition of what may be empty is final for each iteration, as in the other checks']
    r = c.rng
    cases, seen = [], set()
    total = c.scale(104, 900)
    for fn, share in KINDS + [(mixture, 0.15)]:
        out, guard = [], 0
        while len(out) < int(total * share) and guard < total * 20:
            guard += 1
            n = fn(r, None) if fn is mixture else fn(r)
            t = render(n)
            if t not in seen and in_domain(n):
                seen.add(t)
                out.append((n, t, 0))
        for n, t, _ in valid(c, out):
            c.count(fn.__name__)
            ops = ops3(c) if len(t) < 150 else [c.rng.choice(ops3(c)), op('search', FL_CI if c.rng.random() < 0.5 else 0)]
            names, _ = name_table(n)
            unit = 1 if names else c.rng.choice([1, 1, 1, 4])
            if names:
                ops[0] = named_op('match', names, False)
                c.count('access by name')
            cases.append((len(t), Case(cps(t), ops, unit, n, decl=name_decl(names) if names else None)))
    r.shuffle(cases)
    split = len(cases) * 3 // 4
    for cxx, part in (('g++', cases[:split]), ('clang++-18', cases[split:])):
        part = [x for _, x in sorted(part, key=lambda x: -x[0])]      # the slow ones first
        e = Engine(c, Config(cxx, 'c++20' if cxx == 'g++' else 'c++17', extra=LIMITS[cxx]), run_args=['--big'], random_subjects=c.scale(110, 300), exhaustive=60, per_tu=1)
        e.report(e.run(part))
        e.take()
