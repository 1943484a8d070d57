"""Checks which compare generated patterns with the reference model; they differ in their profiles."""
from vlib.engine import Engine, Case, op, RULE, known_findings
from vlib.core import Config, DEFAULT, cps, FL_CI, FL_ML
from vlib.gen import Gen, Profile, render, features, N, lit, raw, rep, in_domain, walk
from vlib.engine import accepted
from vlib.core import Infra


def make(gen, check, maxlen=44, tries=60):
    for _ in range(tries):
        n = gen.pattern()
        t = render(n)
        if 0 < len(t) <= maxlen:
            return n, t
    return n, t


def patterns(check, prof, count, maxlen=44, forbid=None, must=None):
    gen = Gen(check.rng, prof)
    seen, out = set(), []
    guard = 0
    while len(out) < count and guard < count * 60:
        guard += 1
        n, t = make(gen, check, maxlen)
        if t in seen or len(t) > maxlen * 2 or (forbid and forbid(n)) or (must and not must(n)):
            continue
        seen.add(t)
        out.append((n, t, gen.groups))
    return valid(check, out)


def valid(check, out):
    """only what the reference grammar accepts and the model speaks for; a generator which misses that often is broken"""
    ok = accepted(check, [cps(t) for _, t, _ in out])
    good = [x for x, v in zip(out, ok) if v[0] and v[1] and in_domain(x[0])]
    check.coverage['generated_outside_domain'] = check.coverage.get('generated_outside_domain', 0) + len(out) - len(good)
    if len(good) < len(out) * 0.9:
        raise Infra('the generator leaves the domain too often')
    out = good
    for n, t, g in out:
        for f in features(n):
            check.count(f)
    return out


def ops3(check, flags=0):
    return [op(k, flags, check.rng.randrange(6)) for k in ('match', 'search', 'starts_with')]


QUANTS = ['', '*', '+', '?', '*?', '+?', '??', '*+', '++', '?+', '{2}', '{1,2}', '{2,}', '{0,2}', '{1,3}?', '{0,2}+', '{1,2}+', '{2,}+', '{0,}?']


def quant_node(atom, q):
    import re
    if not q:
        return atom
    m = re.match(r'\{(\d+)(,(\d*))?\}(.?)$', q)
    if m:
        lo = int(m.group(1))
        hi = lo if m.group(2) is None else (int(m.group(3)) if m.group(3) else None)
        mod = m.group(4)
    else:
        lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[q[0]]
        mod = q[1:]
    return rep(atom, lo, hi, {'': 'greedy', '?': 'lazy', '+': 'possessive'}[mod], q)


def lits(s):
    x = [lit(ord(c), c) for c in s]
    return x[0] if len(x) == 1 else N('seq', tuple(x))


def small_atoms():
    return [lits('a'), lits('b'), raw('set', '[ab]'), raw('any', '.'), N('ncap', (N('alt', (lits('a'), lits('b'))),)), N('ncap', (lits('ab'),)),
            N('cap', (lits('a'),), ('',)), raw('set', '[^a]'), N('ncap', (N('alt', (lits('a'), lits('ab'))),)), N('cap', (N('seq', (lits('a'), quant_node(lits('b'), '?'))),), ('',))]


def small_scope(check, count, length=2, atoms=None, quants=QUANTS):
    """sequences of quantified small atoms: all of them, or a sample when there are more than count"""
    import itertools
    items = [quant_node(a, q) for a in (atoms or small_atoms()) for q in quants]
    total = len(items) ** length
    out, seen = [], set()
    if total <= count:
        combos = itertools.product(items, repeat=length)
    else:
        combos = ([check.rng.choice(items) for _ in range(length)] for _ in range(count))
    for combo in combos:
        n = N('seq', tuple(combo))
        t = render(n)
        if t not in seen:
            seen.add(t)
            out.append((n, t, 0))
    check.coverage['small_scope'] = dict(total=total, explored=len(out))
    return valid(check, out)


def small_alternations(check, count):
    """(?:X|Y)Z and (?:X|Y|Z)W over few quantified atoms, including empty options"""
    quants = [''] * 9 + ['*', '*', '?', '?', '+', '*?', '??', '*+', '{2}']
    atoms = [lits('a')] * 4 + [lits('b')] * 3 + [lits('ab'), raw('set', '[ab]'), raw('set', '[^a]'), N('cap', (lits('a'),), ('',)), raw('any', '.')]

    def item():
        a, q = check.rng.choice(atoms), check.rng.choice(quants)
        return quant_node(a if not q or a.k != 'seq' else N('ncap', (a,)), q)

    def opt():
        x = check.rng.random()
        if x < 0.1:
            return N('empty')
        if x < 0.75:
            return item()
        return N('seq', (item(), item()))
    out, seen = [], set()
    for _ in range(count * 20):
        if len(out) >= count:
            break
        kids = tuple(opt() for _ in range(check.rng.choice([2, 2, 3])))
        if kids[0].k == 'empty' and kids[1].k == 'empty':
            continue
        group = N('cap' if check.rng.random() < 0.3 else 'ncap', (N('alt', kids),), ('',))
        q = check.rng.choice([''] * 6 + ['?', '*', '??', '{2}', '*+'])
        parts = [quant_node(group, q)] + [item() for _ in range(check.rng.choice([1, 1, 2]))]
        if check.rng.random() < 0.25:
            parts.insert(0, item())
        n = N('seq', tuple(parts))
        t = render(n)
        if t not in seen:
            seen.add(t)
            out.append((n, t, 0))
    return valid(check, out)


def headed(r, d, anchors=('^', '^', '\\A', '$', '\\b'), letters='ab', pa=60):
    """a pattern whose ways begin with an anchor, all of them or some"""
    def leaf():
        if r.randrange(100) < pa:
            return raw('anchor', r.choice(anchors))
        return r.choice([lits(r.choice(letters)), raw('set', '[ab]'), raw('any', '.'), N('look', (lits(r.choice(letters)),), (False, r.random() < 0.5))])

    def tail(x):
        k = r.randrange(7)
        if k < 2:
            return x
        t = [lits('a'), lits('b'), quant_node(lits('b'), '?'), quant_node(raw('set', '[ab]'), '*'), lits('ab')][k - 2]
        return N('seq', (x.kids if x.k == 'seq' else (x,)) + (t.kids if t.k == 'seq' else (t,)))
    if d == 0:
        return tail(leaf())
    k = r.choice(['leaf', 'cap', 'ncap', 'alt', 'alt', 'rep', 'rep', 'rep', 'seq', 'seq', 'atomic'])
    sub = lambda: headed(r, d - 1, anchors, letters, pa)
    if k == 'leaf':
        return tail(leaf())
    x = sub()
    if k == 'cap':
        return tail(N('cap', (x,), ('',)))
    if k == 'ncap':
        return tail(N('ncap', (x,)))
    if k == 'atomic':
        return tail(N('atomic', (x,)))
    if k == 'alt':
        return tail(N(r.choice(['cap', 'ncap']), (N('alt', tuple([x] + [sub() for _ in range(r.choice([1, 1, 2]))])),), ('',)))
    if k == 'rep':
        return tail(quant_node(N('ncap', (x,)), r.choice(['?', '?', '*', '*', '+', '??', '??', '??', '*?', '*?', '+?', '?+', '?+', '*+', '++', '{0,2}', '{2}', '{1,2}?', '{0,2}?', '{2,}', '{0,1}+'])))
    y = sub()
    return N('seq', (x.kids if x.k == 'seq' else (x,)) + (y.kids if y.k == 'seq' else (y,)))


def headed_patterns(check, count, maxlen=30, **kw):
    out, seen, guard = [], set(), 0
    while len(out) < count and guard < count * 40:
        guard += 1
        n = headed(check.rng, check.rng.choice([1, 1, 1, 2, 2, 3]), **kw)
        if check.rng.random() < 0.6:
            n = N('seq', (n.kids if n.k == 'seq' else (n,)) + (lits(check.rng.choice('ab')),))
        t = render(n)
        if t not in seen and len(t) <= maxlen and in_domain(n):
            seen.add(t)
            out.append((n, t, 0))
    return valid(check, out)


NAMED_FN = '''[](const void * q, size_t n, VOut * o) { const char * b = static_cast<const char *>(q); auto r = %s(b, b + n); vh::put_result(r, b, o); %s }'''


def named_op(kind, names, literal=True):
    """numbered and named access of the same result; names of other groups or numbers past the last group don't exist"""
    chk = []
    for i, name in names:
        if literal:
            chk.append('{ const auto & x = r.template get<%d>(); const auto & y = r.template get<"%s">(); if (static_cast<bool>(x) != static_cast<bool>(y) || (x && (x.begin() != y.begin() || x.end() != y.end()))) { o->note = 3; o->note_text = "named access differs from numbered access"; } }' % (i, name))
        chk.append('{ const auto & x = r.template get<%d>(); const auto & y = r.template get<n_%%p_%d>(); if (static_cast<bool>(x) != static_cast<bool>(y) || (x && (x.begin() != y.begin() || x.end() != y.end()))) { o->note = 3; o->note_text = "named access differs from numbered access"; } }' % (i, i))
    return op(kind, 0, 0, NAMED_FN % ('ctre::%s<%%p>' % kind, ' '.join(chk)), kind + '_named')


def name_table(node):
    """the named captures of a pattern in the order of the opening parentheses, and the number of captures"""
    names, i = [], 0
    for x in walk(node):
        if x.k == 'cap':
            i += 1
            if x.a[0]:
                names.append((i, x.a[0]))
    return names, i


def name_decl(names):
    return '\n'.join('static constexpr auto n_%%p_%d = ctll::fixed_string{"%s"};' % (j, nm) for j, nm in names)
