"""Generator of patterns: an AST, its rendering to the dialect, profiles, and the reductions used for shrinking."""
import random
from dataclasses import dataclass, field, replace

META = set('$()*+.?[\\^{|}')            # can't stand for themselves outside of a set
WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
MENTIONED = set('!$()*+,-./:<=>?[\\"]^{|}') | WORD
BACKSLASHABLE = set('.[]{}()\\*+?|^$-/"<>')
IN_CLASS_SPECIAL = set('/_+*().${}?!=<>|"')
NONSPECIAL = WORD | set('/,:!="')
CTRL = {10: '\\n', 9: '\\t', 13: '\\r', 0: '\\0', 7: '\\a', 27: '\\e', 12: '\\f'}


@dataclass(frozen=True)
class N:
    k: str
    kids: tuple = ()
    a: tuple = ()          # attributes, by kind

    def __str__(self):
        return render(self)


def lit(c, text):
    return N('lit', (), (c, text))


def raw(kind, text):
    """an item without children: any, class, set, anchor, bref"""
    return N(kind, (), (text,))


def rep(n, lo, hi, mode, text):
    return N('rep', (n,), (lo, hi, mode, text))


EMPTY = N('empty')


def atomish(n):
    return n.k in ('lit', 'any', 'cls', 'set', 'anchor', 'bref', 'cap', 'ncap', 'atomic', 'look')


def render(n):
    k = n.k
    if k in ('lit',):
        return n.a[1]
    if k in ('any', 'cls', 'set', 'anchor', 'bref', 'mode'):
        return n.a[0]
    if k == 'empty':
        return ''
    if k == 'seq':
        out = ''
        for c in n.kids:
            t = render(c)
            if c.k == 'alt':
                t = '(?:' + t + ')'
            elif c.k == 'empty':
                t = '(?:)'
            # an ambiguity of adjacency: hex/backreference digits are always delimited by the renderer of literals
            out += t
        return out
    if k == 'alt':
        return '|'.join(render(c) for c in n.kids)
    if k == 'rep':
        c = n.kids[0]
        t = render(c)
        if not atomish(c):
            t = '(?:' + t + ')'
        return t + n.a[3]
    if k == 'cap':
        name = n.a[0]
        return ('(?<%s>' % name if name else '(') + render(n.kids[0]) + ')'
    if k == 'ncap':
        return '(?:' + render(n.kids[0]) + ')'
    if k == 'atomic':
        return '(?>' + render(n.kids[0]) + ')'
    if k == 'look':
        behind, neg = n.a
        return '(?' + ('<' if behind else '') + ('!' if neg else '=') + render(n.kids[0]) + ')'
    raise ValueError(k)


def size(n):
    return 1 + sum(size(c) for c in n.kids) + (len(render(n)) // 8 if not n.kids else 0)


def walk(n):
    yield n
    for c in n.kids:
        yield from walk(c)


# ------------------------------------------------------------------ reductions
def reductions(n):
    """smaller trees which may be well formed (the caller checks with the reference parser by compiling)"""
    out = []
    k = n.k
    for i, c in enumerate(n.kids):
        if k in ('cap', 'ncap', 'atomic', 'look', 'rep'):
            out.append(c)
        if k in ('seq', 'alt') and len(n.kids) > 1:
            rest = n.kids[:i] + n.kids[i + 1:]
            out.append(rest[0] if len(rest) == 1 else N(k, rest, n.a))
        if k in ('seq', 'alt'):
            out.append(c)
    if k == 'rep':
        lo, hi, mode, text = n.a
        if text not in ('*', '+', '?'):
            for t, l, h in (('*', 0, None), ('+', 1, None), ('?', 0, 1)):
                out.append(N('rep', n.kids, (l, h, 'greedy', t)))
    if k == 'lit' and n.a[1] != 'a':
        out.append(lit(ord('a'), 'a'))
    if k in ('set', 'cls', 'any') and n.a[0] != 'a':
        out.append(lit(ord('a'), 'a'))
    if k == 'cap':
        if n.a[0]:
            out.append(N('cap', n.kids, ('',)))
        out.append(N('ncap', n.kids))
    for i, c in enumerate(n.kids):
        for r in reductions(c):
            out.append(N(k, n.kids[:i] + (r,) + n.kids[i + 1:], n.a))
    return out


# ------------------------------------------------------------------ generation
@dataclass
class Profile:
    alphabet: str = 'ab'             # characters used most
    extra: str = 'cAB019_ -\n'       # used sometimes
    wide: str = ''                   # characters above 0x7F (only for wide subjects)
    depth: int = 4
    w: dict = field(default_factory=dict)        # weights of kinds
    quant: int = 45                  # percent of atoms with a quantifier
    modes: tuple = (60, 25, 15)      # greedy, lazy, possessive
    escapes: int = 8                 # percent of literals written as an escape
    max_groups: int = 9
    names: int = 0                   # percent of named groups
    prefix_modes: tuple = ()         # candidates for a leading mode switch
    bigbounds: int = 3               # percent of counted repeats with two-digit bounds
    top_alt: int = 20
    seqlen: tuple = (1, 4)
    strings: int = 12                # percent of literals extended to a longer string
    nullable_quant: bool = True
    props: tuple = ()                # names of Unicode properties


BASE_W = dict(lit=40, any=6, cls=6, set=10, cap=10, ncap=8, alt=8, atomic=0, look=0, bref=0, anchor=0, wordb=0, empty=1)

CLASSES = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '\\N']
NAMED = ['alnum', 'alpha', 'ascii', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'word', 'xdigit']


class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = prof
        self.reset()

    def reset(self):
        self.groups = 0
        self.names = []       # (id, name)
        self.used = set()
        self.closed = []      # ids of groups which are closed
        self.lb = 0
        self.captures_ok = True

    def pct(self, n):
        return self.r.random() * 100 < n

    # -- characters
    def char(self):
        p = self.p
        if p.wide and self.pct(35):
            return self.r.choice(p.wide)
        if self.pct(82):
            return self.r.choice(p.alphabet)
        return self.r.choice(p.extra)

    def lit_text(self, c, in_set=False, first=False, force_escape=False):
        o = ord(c)
        plain_ok = (c not in MENTIONED) or c in NONSPECIAL or (c in IN_CLASS_SPECIAL if in_set else c in ':]-<>')
        if in_set and c == '^':
            plain_ok = not first
        if plain_ok and not force_escape and not self.pct(self.p.escapes):
            return c
        forms = []
        if c in BACKSLASHABLE:
            forms += ['\\' + c] * 3
        if o in CTRL:
            forms += [CTRL[o]] * 3
        h = '%x' % o
        if self.pct(50):
            h = h.upper()
        if o <= 0xFF:
            forms.append('\\x' + h.rjust(2, '0'))
        if o <= 0xFFFF:
            forms.append('\\u' + h.rjust(4, '0'))
        forms.append('\\x{' + h.rjust(self.r.choice([1, 2, 4, 6]), '0') + '}')
        forms.append('\\u{' + h.rjust(self.r.choice([1, 3, 5]), '0') + '}')
        return self.r.choice(forms)

    def literal(self):
        c = self.char()
        return lit(ord(c), self.lit_text(c))

    def prop(self):
        return '\\%s{%s}' % (self.r.choice('ppP'), self.r.choice(self.p.props))

    def set_item(self, first):
        r = self.r
        x = r.random() * 100
        if self.p.props and self.pct(40):
            return self.prop()
        if x < 50:
            return self.lit_text(self.char(), True, first)
        if x < 72:
            a, b = self.char(), self.char()
            if r.random() < 0.5:
                b = chr(min(ord(a) + r.randrange(0, 6), 0x10FFFF))
            if ord(a) > ord(b):
                a, b = b, a
            if 0xD800 <= ord(b) < 0xE000:
                b = a
            return self.lit_text(a, True, first) + '-' + self.lit_text(b, True, False)
        if x < 86:
            return r.choice(CLASSES)
        n = r.choice(NAMED)
        return '[:' + ('^' if r.random() < 0.3 else '') + n + ':]'

    def set(self):
        neg = self.pct(30)
        n = self.r.choice([1, 1, 2, 2, 3, 4])
        if neg and self.pct(4):
            return raw('set', '[^]')
        items = [self.set_item(i == 0 and not neg) for i in range(n)]
        return raw('set', '[' + ('^' if neg else '') + ''.join(items) + ']')

    # -- structure
    def weights(self):
        w = dict(BASE_W)
        w.update(self.p.w)
        return w

    def atom(self, depth, fixed=False):
        w = self.weights()
        if depth <= 0:
            for k in ('cap', 'ncap', 'alt', 'atomic', 'look'):
                w[k] = 0
        if self.lb:
            for k in ('cap', 'bref', 'atomic'):
                w[k] = 0
            w['look'] = w.get('look', 0) // 4
        if fixed:
            for k in ('look', 'anchor', 'wordb', 'alt', 'empty', 'cap', 'ncap'):
                w[k] = 0
        if self.groups >= self.p.max_groups:
            w['cap'] = 0
        if not self.closed:
            w['bref'] = 0
        kinds = list(w)
        k = self.r.choices(kinds, [max(0, w[x]) for x in kinds])[0]
        if k == 'lit':
            if self.pct(self.p.strings):
                return N('seq', tuple(self.literal() for _ in range(self.r.randrange(2, 5))))
            return self.literal()
        if k == 'any':
            return raw('any', '.')
        if k == 'cls':
            if self.p.props and self.pct(75):
                return raw('cls', self.prop())
            return raw('cls', self.r.choice(CLASSES))
        if k == 'set':
            return self.set()
        if k == 'cap':
            return self.capture(depth)
        if k == 'ncap':
            return N('ncap', (self.group_content(depth - 1),))
        if k == 'alt':
            return N('ncap', (self.alt(depth - 1),))
        if k == 'atomic':
            return N('atomic', (self.group_content(depth - 1),))
        if k == 'look':
            return self.look(depth)
        if k == 'bref':
            return self.bref()
        if k == 'anchor':
            return raw('anchor', self.r.choice(['^', '$', '^', '$', '\\A', '\\z', '\\Z']))
        if k == 'wordb':
            return raw('anchor', self.r.choice(['\\b', '\\b', '\\B']))
        if k == 'empty':
            return self.r.choice([N('ncap', (EMPTY,)), N('ncap', (EMPTY,))])
        raise ValueError(k)

    def capture(self, depth):
        self.groups += 1
        i = self.groups
        name = ''
        if self.pct(self.p.names):
            name = self.r.choice(['n', 'name', 'x1', '_k', 'Abc', 'zed_9', 'g', 'longer_name', 'a_name_as_long_as_a_sentence_0123456789'[:self.r.choice([15, 16, 17, 31, 32, 33, 39])]]) + (str(i) if self.r.random() < 0.7 else '_' + 'abcdefghij'[i % 10] * (1 + i // 10))
            if self.names and self.r.random() < (0.8 if self.p.names == 100 else 0.4):      # a relative of an earlier name
                other = self.r.choice(self.names)[1]
                name = self.r.choice([other + 'x', other + '2', other[:-1], other[:-1] + ('y' if other[-1] != 'y' else 'z'), other.swapcase(), 'q' + other])
            if not name or name[0].isdigit() or name in self.used:
                name = 'u%d' % i
                while name in self.used:
                    name += '_'
            self.used.add(name)       # names are unique, also among the groups which are still open
        body = self.group_content(depth - 1)
        self.closed.append(i)
        if name:
            self.names.append((i, name))
        return N('cap', (body,), (name,))

    def bref(self):
        i = self.r.choice(self.closed)
        forms = ['\\g{%d}' % i, '\\g{-%d}' % (self.groups + 1 - i)]
        if i <= 9:
            forms += ['\\%d' % i] * 2
        for j, n in self.names:
            if j == i:
                forms += ['\\g{%s}' % n] * 2
        return raw('bref', self.r.choice(forms))

    def look(self, depth):
        behind = self.pct(45)
        neg = self.pct(40)
        if behind:
            self.lb += 1
            body = self.lb_content(min(depth - 1, 2))
            self.lb -= 1
        else:
            before = list(self.closed)
            nb = list(self.names)
            body = self.group_content(depth - 1)
            if neg:   # captures of a negative lookaround are never set
                self.closed, self.names = before, nb
        return N('look', (body,), (behind, neg))

    def lb_content(self, depth):
        """content of a lookbehind: repeated parts have a fixed non-zero length"""
        if depth > 0 and self.pct(25):
            return N('alt', tuple(self.lb_seq(depth - 1) for _ in range(self.r.choice([2, 2, 3]))))
        return self.lb_seq(depth)

    def lb_seq(self, depth):
        items = []
        for _ in range(self.r.randrange(1, 4)):
            if self.pct(9):
                items.append(self.plain_atomic())
            elif self.pct(35):
                items.append(self.quantify(self.fixed_body(), possessive=False))
            elif depth > 0 and self.pct(20):
                items.append(N('ncap', (self.lb_content(depth - 1),)))
            else:
                a = self.atom(0)
                items.append(a)
        return items[0] if len(items) == 1 else N('seq', tuple(items))

    def plain_atomic(self):
        """an atomic group or possessive repetition which can match in one way only"""
        kids = []
        for _ in range(self.r.choice([1, 2, 2, 3])):
            a = self.atom(0, fixed=True)
            if self.pct(25):
                k = self.r.choice([2, 2, 3])
                q = self.r.choice(['', '', '+', '?'])
                a = rep(a, k, k, {'': 'greedy', '+': 'possessive', '?': 'lazy'}[q], '{%d}%s' % (k, q))
            kids.append(a)
        if len(kids) == 1 and self.pct(50):
            return kids[0]
        return N('atomic', (kids[0] if len(kids) == 1 else N('seq', tuple(kids)),))

    def fixed_body(self):
        x = self.r.random()
        if x < 0.6:
            return self.atom(0, fixed=True) if self.r.random() < 0.5 else self.literal()
        if x < 0.8:
            return N('ncap', (N('seq', (self.literal(), self.literal())),))
        n = self.r.choice([1, 1, 2])
        return N('ncap', (N('alt', tuple(N('seq', tuple(self.literal() for _ in range(n))) if n > 1 else self.literal() for _ in range(2))),))

    def group_content(self, depth):
        if depth > 0 and self.pct(30):
            return self.alt(depth)
        return self.seq(depth)

    def alt(self, depth):
        n = self.r.choice([2, 2, 2, 3, 3, 4])
        # an empty option is possible at the front or at the back
        x = self.r.random()
        empty = n - 1 if x < 0.06 else 0 if x < 0.12 else -1
        opts = [EMPTY if i == empty else self.seq(depth) for i in range(n)]
        return N('alt', tuple(opts))

    def seq(self, depth):
        lo, hi = self.p.seqlen
        items = []
        for _ in range(self.r.randint(lo, hi)):
            a = self.atom(depth)
            if self.pct(self.p.quant):
                a = self.quantify(a)
            items.append(a)
        return items[0] if len(items) == 1 else N('seq', tuple(items))

    def quantify(self, a, possessive=True):
        r = self.r
        x = r.random()
        stripped = a
        while stripped.k == 'ncap' or (stripped.k == 'seq' and len(stripped.kids) == 1):
            stripped = stripped.kids[0]
        if x < 0.28:
            lo, hi, t = 0, None, '*'
        elif x < 0.50:
            lo, hi, t = 1, None, '+'
        elif x < 0.68:
            lo, hi, t = 0, 1, '?'
        else:
            big = self.pct(self.p.bigbounds)
            lo = r.choice([0, 1, 1, 2, 2, 3, 4]) if not big else r.choice([9, 10, 11, 12])
            y = r.random()
            if y < 0.3 and lo > 0:
                hi, t = lo, '{%d}' % lo
            elif y < 0.55:
                hi, t = None, '{%d,}' % lo
            else:
                hi = max(1, lo + r.choice([0, 1, 1, 2, 3] if not big else [0, 1, 2, 90]))
                t = '{%d,%d}' % (lo, hi)
        if t == '?' and stripped.k == 'rep' and stripped.a[0] == 0 and stripped.a[1] == 1:
            lo, hi, t = 1, 2, '{1,2}'
        mode = r.choices(['greedy', 'lazy', 'possessive'], self.p.modes)[0]
        if mode == 'possessive' and (not possessive or self.lb):
            mode = 'greedy'
        if t.startswith('{') and ',' not in t:
            mode = 'greedy'
        t += {'greedy': '', 'lazy': '?', 'possessive': '+'}[mode]
        if a.k == 'rep' or a.k == 'seq':
            a = N('ncap', (a,))
        return rep(a, lo, hi, mode, t)

    def pattern(self):
        self.reset()
        d = self.r.randint(1, self.p.depth)
        if self.p.prefix_modes and self.pct(50):
            m = raw('mode', self.r.choice(self.p.prefix_modes))
            body = self.seq(d)
            kids = body.kids if body.k == 'seq' else (body,)
            return N('seq', (m,) + kids)
        if self.pct(self.p.top_alt):
            return self.alt(d)
        return self.seq(d)


def features(n):
    """classes of a pattern, for the distribution in the evidence"""
    f = set()
    for x in walk(n):
        if x.k == 'rep':
            f.add('rep_' + x.a[2])
            if '{' in x.a[3]:
                f.add('rep_counted')
            if any(y.k == 'rep' for y in walk(x.kids[0])):
                f.add('rep_nested')
        elif x.k == 'look':
            f.add(('neg_' if x.a[1] else 'pos_') + ('lookbehind' if x.a[0] else 'lookahead'))
        elif x.k == 'anchor':
            f.add('anchor ' + x.a[0])
        elif x.k == 'cap':
            f.add('named_capture' if x.a[0] else 'capture')
        elif x.k in ('bref', 'atomic', 'alt', 'set', 'cls', 'any', 'mode'):
            f.add(x.k)
    return f


# ------------------------------------------------------------------ the domain in which the model speaks for the library
def width(n):
    """(min, max or None) number of characters of a match"""
    k = n.k
    if k in ('lit', 'any', 'cls', 'set'):
        return 1, 1
    if k in ('anchor', 'look', 'mode', 'empty'):
        return 0, 0
    if k == 'bref':
        return 0, None
    if k in ('cap', 'ncap', 'atomic'):
        return width(n.kids[0])
    ws = [width(c) for c in n.kids]
    if k == 'seq':
        return sum(a for a, _ in ws), None if any(b is None for _, b in ws) else sum(b for _, b in ws)
    if k == 'alt':
        return min(a for a, _ in ws), None if any(b is None for _, b in ws) else max(b for _, b in ws)
    if k == 'rep':
        a, b = ws[0]
        return a * n.a[0], None if n.a[1] is None or b is None else b * n.a[1]
    raise ValueError(k)


def strip(n):
    while n.k == 'ncap' or (n.k == 'seq' and len(n.kids) == 1):
        n = n.kids[0]
    return n


def one_way(n):
    """at most one way to match, of a fixed length"""
    return all(x.k in ('lit', 'any', 'cls', 'set', 'seq', 'atomic', 'ncap') or (x.k == 'rep' and x.a[0] == x.a[1]) for x in walk(n))


def in_domain(n, behind=False):
    if n.k == 'rep':
        s = strip(n.kids[0])
        if s.k == 'rep' and s.a[:2] == (0, 1) and n.a[:2] == (0, 1):
            return False
        if behind:
            a, b = width(n.kids[0])
            if a != b or a == 0 or (n.a[2] == 'possessive' and not one_way(n)):
                return False
    if behind and (n.k in ('cap', 'bref') or (n.k == 'atomic' and not one_way(n))):
        return False
    inner = behind or (n.k == 'look' and n.a[0])
    return all(in_domain(c, inner) for c in n.kids)
