from checks.pat import *
from vlib.gen import CLASSES, NAMED

TYPES = {'unsigned char': 1, 'char': 1, 'wchar_t': 4, 'char16_t': 2, 'char32_t': 4}


def expressions(c, count):
    """every class, alone and in sets, and random sets; how many of them are classes"""
    gen = Gen(c.rng, Profile(alphabet='abzAZ09_', extra='@[`{/:-^ \n\x00\x7f\t!~', wide='\u0080\u00a0\u00e9\u00ff\u0100\u0416\u1680\u180e\u2000\u200a\u2028\u2029\u202f\u205f\u3000\uffff\U0001F600\U0010FFFF', escapes=30))
    narrow = Gen(c.rng, Profile(alphabet='abzAZ09_', extra='@[`{/:-^ \n\x00\x7f\t!~', escapes=30))
    items = [raw('any', '.')] + [raw('cls', x) for x in CLASSES] + [raw('set', '[' + neg + x + ']') for x in CLASSES for neg in ('', '^')]
    items += [raw('set', '[' + neg + '[:' + inv + n + ':]]') for n in NAMED for neg in ('', '^') for inv in ('', '^')]
    fixed = len(items)
    for i in range(count):
        g = narrow if i % 2 else gen
        g.reset()
        items.append(g.set() if c.rng.random() < 0.9 else g.literal())
    out, seen = [], set()
    for n in items:
        t = render(n)
        if t not in seen:
            seen.add(t)
            out.append((n, t, 0))
    return out, fixed


def run(c):
    c.rule = ('a case is (set expression, flags, character type, one character); every expression meets all 256 values of char types or the code points 0..0x3100, the neighbours of '
              'all bounds and random ones. Non-trivial: the character is accepted, or its refusal needs more than the length check')
    e = Engine(c, random_subjects=60, run_args=['--classes'], per_tu=20)
    known_findings(e)
    out, fixed = expressions(c, c.scale(900, 9000))
    cases = []
    for n, t, _ in valid(c, out):
        high = any(ord(ch) > 0x7f for ch in t)
        for ty in (['char', 'char32_t'] if len(cases) < 2 * fixed else [c.rng.choice(list(TYPES))]):
            unit = TYPES[ty]
            ops = []
            for fl in (0, FL_CI, FL_ML):
                mods = ''.join([', ctre::case_insensitive' if fl == FL_CI else '', ', ctre::multiline' if fl == FL_ML else ''])
                ops.append(op('match', fl, 0, 'V_CALL(put_result, %s, ctre::match<%%p%s>)' % (ty, mods), 'match(%s)%s' % (ty, mods)))
            cases.append(Case(cps(t), ops, unit, n))
            c.count('type ' + ty)
    e.report(e.run(cases))
    e.take()
