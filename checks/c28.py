"""Regexes combined with | and >> match what the pattern written as a whole matches."""
from checks.pat import *
from vlib.core import cxx_str

PRE = 'using namespace ctre::literals;\n'
METHODS = [('match', 'match', 'put_result'), ('search', 'search', 'put_result'), ('starts_with', 'starts_with', 'put_result'), ('search_all', 'range', 'put_range'), ('tokenize', 'tokenize', 'put_range'), ('split', 'split', 'put_range')]


def group(n):
    return N('ncap', (n,))


def join(r, parts, leaves):
    """a random way to combine the parts in their order: (pattern, C++ expression)"""
    if len(parts) == 1:
        return parts[0], leaves[0]
    k = r.randrange(1, len(parts))
    (a, x), (b, y) = join(r, parts[:k], leaves[:k]), join(r, parts[k:], leaves[k:])
    if r.random() < 0.5:
        return group(N('alt', (group(a), group(b)))), '(%s | %s)' % (x, y)
    return N('seq', (group(a), group(b))), '(%s >> %s)' % (x, y)


def plain(text):
    return all(32 <= ord(ch) < 127 for ch in text)


def quoted(text):
    return '"' + text.replace('\\', '\\\\').replace('"', '\\"').replace('?', '\\?') + '"'


def run(c):
    c.rule = RULE + '; here the regex is put together from two to five others'
    c.assumptions = ['at most one of the parts has captures (their numbers begin at one in each part); no mode switches']
    e = Engine(c, Config(), prelude=PRE, random_subjects=c.scale(150, 400), exhaustive=200)
    r = c.rng
    bare = [(n, t) for n, t, _ in patterns(c, Profile(depth=3, seqlen=(1, 3), w=dict(cap=0, look=5, atomic=4, anchor=5, wordb=4, alt=10)), c.scale(460, 4000), 22, forbid=lambda n: any(x.k == 'cap' for x in walk(n)))]
    capt = [(n, t) for n, t, _ in patterns(c, Profile(depth=3, seqlen=(1, 3), w=dict(cap=40, look=4, atomic=4, bref=8)), c.scale(180, 1600), 26, must=lambda n: any(x.k == 'cap' for x in walk(n)))]
    out = []
    for _ in range(c.scale(360, 3600)):
        parts = [r.choice(bare) for _ in range(r.choice([2, 2, 2, 3, 3, 4, 5]))]
        if r.random() < 0.5:
            parts[r.randrange(len(parts))] = r.choice(capt)
        leaves, decl = [], []
        for i, (n, t) in enumerate(parts):
            if plain(t) and r.random() < 0.35:
                leaves.append(quoted(t) + '_ctre')
            else:
                decl.append('static constexpr char32_t %%p_t%d[] = %s; static constexpr auto %%p_%d = ctll::fixed_string{%%p_t%d};' % (i, cxx_str(cps(t)), i, i))
                leaves.append('ctre::re<%%p_%d>()' % i)
        node, expr = join(r, [n for n, _ in parts], leaves)
        out.append((node, render(node), 0, expr, '\n'.join(decl), len(parts)))
    ok = accepted(c, [cps(x[1]) for x in out])
    out = [x for x, v in zip(out, ok) if v[0] and v[1] and in_domain(x[0])]
    if len(out) < c.scale(200, 2000):
        raise Infra('the generator leaves the domain too often')
    cases = []
    for node, text, _, expr, decl, n in out:
        ops = []
        for kind, method, put in r.sample(METHODS, 3):
            fl = FL_ML if r.random() < 0.25 else 0
            pre = 'multiline_' if fl else ''
            fn = '[](const void * q, size_t n, VOut * o) { const char * b = static_cast<const char *>(q); constexpr auto x = %s; vh::%s(x.%s%s(b, b + n), b, o); }' % (expr, put, pre, method)
            ops.append(op(kind, fl, 0, fn, '%s%s of %d regexes combined' % (pre, kind, n)))
        c.count('%d parts' % n)
        cases.append(Case(cps(text), ops, 1, None, decl=decl or None))
    e.report(e.run(cases), shrink=False)
    e.take()
