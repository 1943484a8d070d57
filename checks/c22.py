"""The LL(1) parser of ctll: generated grammars and inputs against a stack machine."""
from checks.pat import *
from vlib.core import sh, show_cps

HEAD = '''#include <cstdio>
#include <ctll.hpp>
template <int Id, long Prev> struct v_ev { };
template <typename... Ts> struct v_log { };
template <int Id, long Prev> void v_one(v_ev<Id, Prev>) { std::printf(" %d:%ld", Id, Prev); }
template <typename... Ts> void v_show(v_log<Ts...>) { (v_one(Ts{}), ...); }
inline void v_show(ctll::empty_subject) { std::printf(" empty"); }
template <typename R> void v_row(int g, int i, int form, bool again) {
	std::printf("%d %d %d %d %lu", g, i, form, R::is_correct == again && bool(R{}) == again ? int(again) : 9, static_cast<unsigned long>(R::position));
	v_show(typename R::output_type{});
	std::printf("\\n");
}
'''
LETTERS = 'abcdefg'
WIDE = [0xe9, 0x416, 0x1F600]


def ch(x):
    return "'%s'" % chr(x) if 32 <= x < 127 else "U'\\U%08x'" % x


class Grammar:
    """nonterminals with disjoint classes of symbols -> right sides"""

    def __init__(self, r):
        self.long = r.random() < 0.35  # rules which go on
        self.alpha = [ord(x) for x in LETTERS[:r.choice([2, 3, 4, 7])]] + (r.sample(WIDE, r.choice([1, 2])) if r.random() < 0.35 else [])
        self.nts = r.choice([1, 2, 3, 3, 4, 5, 6])
        self.acts = r.choice([0, 1, 2, 3])
        self.known = [r.random() < 0.8 for _ in range(self.acts)]
        # an action which refuses: (action, when) with the length of the log or the symbol before
        self.refuse = [r.choice([None, None, ('len', r.choice([9, 14, 17, 20, 26] if self.long and r.random() < 0.8 else [1, 2, 3, 4, 7, 12])), ('prev', r.choice(self.alpha))]) for _ in range(self.acts)]
        self.rules = []
        for n in range(self.nts):
            left = list(self.alpha)
            r.shuffle(left)
            rules = []
            while left and len(rules) < 5:
                k = r.choice([1, 1, 1, 2, 3])
                part = sorted(left[:k])
                if r.random() < 0.15:
                    break
                left = left[k:]
                if len(part) == 1 and r.random() < 0.7:
                    cls = ('term', part[0])
                elif part == list(range(part[0], part[-1] + 1)) and r.random() < 0.6:
                    cls = ('range', part[0], part[-1])
                else:
                    cls = ('set', tuple(part))
                rules.append((cls, self.right(r, n, part)))
            if left and r.random() < 0.4:
                used = sorted(set(self.alpha) - set(left))
                rules.append((('neg_set', tuple(used)), self.right(r, n, left)) if used else (('anything',), self.right(r, n, left)))
            if r.random() < 0.65:
                rules.append((('epsilon',), r.choice([('epsilon',), ('epsilon',), ('push', tuple(('act', r.randrange(self.acts)) for _ in range(r.choice([1, 2]))) if self.acts else (('nt', r.randrange(self.nts)),)), ('accept',), ('reject',)])))
            r.shuffle(rules)
            self.rules.append(rules)

    def symbol(self, r):
        x = r.random()
        if x < 0.3:
            return ('nt', r.randrange(self.nts))
        if x < 0.55 and self.acts:
            return ('act', r.randrange(self.acts))
        return self.terminal(r)

    def terminal(self, r):
        x = r.random()
        a = sorted(r.sample(self.alpha, min(len(self.alpha), r.choice([1, 2, 3]))))
        if x < 0.55:
            return ('term', a[0])
        if x < 0.65:
            return ('range', a[0], a[-1])
        if x < 0.8:
            return ('set', tuple(a))
        if x < 0.9:
            return ('neg_set', tuple(a))
        return ('anything',)

    def right(self, r, n, part):
        x = r.random()
        if x < 0.06:
            return ('epsilon',)
        if x < 0.09:
            return ('reject',)
        if x < 0.11:
            return ('accept',)
        if x < 0.17:
            return ('pop',)
        out = []
        lead = r.random()
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            if self.acts:
                out.append(('act', r.randrange(self.acts)))
        if lead < 0.4:
            out.append(('term', r.choice(part)))
        elif lead < 0.6:
            out.append(('anything',))
        elif lead < 0.75:
            out.append(('set', tuple(part)))
        elif lead < 0.85 and n + 1 < self.nts:
            out.append(('nt', r.randrange(n + 1, self.nts)))
        else:
            out.append(self.terminal(r))
        out += [self.symbol(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if self.long and out[-1][0] != 'nt' and r.random() < 0.85:
            out.append(('nt', r.randrange(self.nts)))
        return ('push', tuple(out))

    # C++
    def cls(self, c):
        k = c[0]
        if k == 'term':
            return 'ctll::term<%s>' % ch(c[1])
        if k == 'range':
            a, b = ch(c[1]), ch(c[2])
            if (c[1] < 127) != (c[2] < 127):
                a = "U'\\U%08x'" % c[1]
            return 'ctll::range<%s, %s>' % (a, b)
        if k in ('set', 'neg_set'):
            return 'ctll::%s<%s>' % (k, ', '.join(ch(x) for x in c[1]))
        if k == 'anything':
            return 'ctll::anything'
        if k == 'epsilon':
            return 'ctll::epsilon'
        if k == 'nt':
            return 'n%d' % c[1]
        if k == 'act':
            return 'a%d' % c[1]

    def text(self, g, unknown=False):
        out = ['namespace g%d {' % g, 'struct gram {']
        out += ['\tstruct n%d { };' % n for n in range(self.nts)]
        out += ['\tstruct a%d: ctll::action { };' % n for n in range(self.acts)]
        out.append('\tusing _start = n0;')
        for n, rules in enumerate(self.rules):
            for c, rhs in rules:
                k = rhs[0]
                t = {'epsilon': 'ctll::epsilon', 'reject': 'ctll::reject', 'accept': 'ctll::accept', 'pop': 'ctll::pop_input'}.get(k) or 'ctll::push<%s>' % ', '.join(self.cls(x) for x in rhs[1])
                out.append('\tstatic constexpr auto rule(n%d, %s) -> %s;' % (n, self.cls(c), t))
        out += ['\tstatic constexpr auto rule(ctll::epsilon, ctll::set<\'~\'>) -> ctll::reject;' if not any(self.rules) else '', '};']
        for name, which in (('some', [k for k in range(self.acts) if self.known[k]]), ('all', range(self.acts))):
            out.append('struct %s {' % name)
            if not which:
                out.append('\tstruct v_no { }; static constexpr auto apply(v_no, v_no, v_no) -> v_no;')
            for k in which:
                for sym, prev in (('ctll::term<V>', 'static_cast<long>(V)'), ('ctll::epsilon', '-1')):
                    body = 'return v_log<Ts..., v_ev<%d, %s>>{};' % (k, prev)
                    w = self.refuse[k]
                    if w and w[0] == 'len':
                        body = 'if constexpr (sizeof...(Ts) >= %d) return ctll::reject{}; else %s' % (w[1], body)
                    elif w:
                        body = 'if constexpr (%s == %dl) return ctll::reject{}; else %s' % (prev, w[1], body)
                    out.append('\ttemplate <%stypename... Ts> static constexpr auto apply(gram::a%d, %s, v_log<Ts...>) { %s }' % ('auto V, ' if 'V' in sym else '', k, sym, body))
            out.append('};')
        out.append('}')
        return '\n'.join(out)

    # the machine
    def has(self, c, x):
        k = c[0]
        if k == 'epsilon':
            return x is None
        if x is None:
            return False
        if k == 'term':
            return x == c[1]
        if k == 'range':
            return c[1] <= x <= c[2]
        if k == 'set':
            return x in c[1]
        if k == 'neg_set':
            return x not in c[1]
        return True

    def run(self, s, form):
        """form 0: known actions are applied, others ignored; 1: all are known; 2: no actions. (accepted, position, log), None: too long"""
        stack, pos, log, steps = [('nt', 0)], 0, [], 0
        ways = set()
        while True:
            steps += 1
            if steps > 400 or len(stack) > 60:
                return None
            x = s[pos] if pos < len(s) else None
            if not stack:
                return (x is None, pos, log, ways)
            top = stack.pop(0)
            if top[0] == 'act':
                if form != 2 and (form == 1 or self.known[top[1]]):
                    w = self.refuse[top[1]]
                    prev = s[pos - 1] if pos else -1
                    if w and (w[0] == 'len' and len(log) >= w[1] or w[0] == 'prev' and prev == w[1]):
                        return (False, pos, log, ways | {'refused by an action'})
                    log = log + [(top[1], prev)]
                continue
            if top[0] != 'nt':
                if not self.has(top, x):
                    return (False, pos, log, ways | {'terminal differs'})
                pos += 1
                ways.add('terminal ' + top[0])
                continue
            for c, rhs in self.rules[top[1]]:
                if self.has(c, x):
                    break
            else:
                return (False, pos, log, ways | {'no rule'})
            ways.add('rule on ' + c[0])
            ways.add(rhs[0] if rhs[0] != 'push' else 'push of ' + (rhs[1][0][0] if rhs[1] else 'nothing'))
            if rhs[0] == 'accept':
                return (True, pos, log, ways)
            if rhs[0] == 'reject':
                return (False, pos, log, ways)
            if rhs[0] == 'pop':
                if x is None:
                    return None
                pos += 1
            if rhs[0] == 'push':
                stack = list(rhs[1]) + stack


def inputs(r, g, form, count):
    """derived by following the machine with symbols it has rules for, and mutations"""
    out = {()}
    for _ in range(count * 6):
        s = []
        for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14, 22, 34])):
            go, stop = [], []
            for x in g.alpha:
                v = g.run(s + [x], form)
                if v and v[1] > len(s):
                    (stop if 'refused by an action' in v[3] else go).append(x)
            best = stop if stop and (not go or r.random() < 0.1) else go
            if not best or r.random() < 0.03:
                best = g.alpha + [ord('~')]
            s.append(r.choice(best))
        if r.random() < 0.3:  # what an action refuses behind it
            for x in g.alpha:
                v = g.run(s + [x], form)
                if v and v[1] > len(s) and 'refused by an action' in v[3]:
                    s = s + [x]
                    break
        v = g.run(s, form)
        if v and v[0] and r.random() < 0.7:
            out.add(tuple(s))
        elif v and r.random() < 0.4:
            out.add(tuple(s))
        if len(out) >= count:
            break
    return sorted(out)


def unit(c, cfg, jobs, tag):
    """jobs: (index, grammar, [(input index, form, input)]) -> {(g, i, form): line}"""
    t = [HEAD]
    main = []
    for gi, g, ins in jobs:
        t.append(g.text(gi))
        for ii, form, s in ins:
            n = '%d_%d' % (gi, ii)
            wide = any(x > 126 for x in s)
            t.append('static constexpr %s s%s[] = {%s0}; static constexpr auto f%s = ctll::fixed_string{s%s};' % ('char32_t' if wide or ii % 2 else 'char', n, ''.join('%d,' % x for x in s), n, n))
            p = 'ctll::parser<g%d::gram, f%s, %s>' % (gi, n, {0: 'g%d::some, true' % gi, 1: 'g%d::all' % gi, 2: 'ctll::empty_actions'}[form]) if form != 2 or ii % 3 else 'ctll::parser<g%d::gram, f%s>' % (gi, n)
            sub = 'ctll::empty_subject' if form == 2 and ii % 2 else 'v_log<>'
            main.append('\tv_row<%s::output<%s>>(%d, %d, %d, %s::correct_with<%s>);' % (p, sub, gi, ii, form, p, sub))
    text = '\n'.join(t) + '\nint main() {\n' + '\n'.join(main) + '\n}\n'
    src, exe = c.path(tag + '.cpp'), c.path(tag)
    open(src, 'w').write(text)
    r, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe], timeout=400)
    if r:
        if b'error:' not in e:
            raise Infra('compiler: ' + e.decode(errors='replace')[:300])
        if len(jobs) > 1:
            h = len(jobs) // 2
            res = unit(c, cfg, jobs[:h], tag + 'a')
            res.update(unit(c, cfg, jobs[h:], tag + 'b'))
            return res
        if len(jobs[0][2]) > 1:
            res = {}
            for k, x in enumerate(jobs[0][2]):
                res.update(unit(c, cfg, [(jobs[0][0], jobs[0][1], [x])], '%s_%d' % (tag, k)))
            return res
        return {(jobs[0][0], jobs[0][2][0][0]): ('compile', '; '.join(l for l in e.decode(errors='replace').splitlines() if 'error' in l)[:300], text)}
    r, o, e = sh([exe], timeout=60)
    if r:
        raise Infra('parser unit: status %d' % r)
    out = {}
    for l in o.decode().splitlines():
        a = l.split(' ')
        out[int(a[0]), int(a[1])] = (int(a[3]), int(a[4]), a[5:])
    return out


def expected(g, s, form, ii):
    v = g.run(s, form)
    ok, pos, log, ways = v
    if form == 2:
        return (int(ok), pos, ['empty'] if ii % 2 else [])
    return (int(ok), pos, ['%d:%d' % x for x in log])


def smaller(r, g):
    """grammars with one rule or symbol less"""
    import copy
    for n, rules in enumerate(g.rules):
        for i, (cls, rhs) in enumerate(rules):
            h = copy.deepcopy(g)
            del h.rules[n][i]
            yield h
            if rhs[0] == 'push':
                for j in range(len(rhs[1])):
                    h = copy.deepcopy(g)
                    q = rhs[1][:j] + rhs[1][j + 1:]
                    h.rules[n][i] = (cls, ('push', q) if q else ('epsilon',))
                    yield h


def shrink(c, cfg, g, s, form, ii):
    def fails(h, x):
        v = h.run(x, form)
        if v is None or not any(h.rules):
            return False
        got = unit(c, cfg, [(0, h, [(ii, form, x)])], 'z')[0, ii]
        return got[0] == 'compile' or got != expected(h, x, form, ii)
    left = 120
    again = True
    while again and left > 0:
        again = False
        for x in [s[:j] + s[j + 1:] for j in range(len(s))]:
            left -= 1
            if left > 0 and fails(g, x):
                s, again = x, True
                break
        if again:
            continue
        for h in smaller(c.rng, g):
            left -= 1
            if left <= 0:
                break
            if fails(h, s):
                g, again = h, True
                break
    return g, s


def run(c):
    c.rule = ('a case is (grammar, input, actions): up to six nonterminals with rules on terminals, ranges, sets, negated sets and the end; inputs follow the rules of the grammar, with mutations; actions are all known, some unknown and ignored, or none, and some refuse. '
              'Non-trivial: the machine takes at least three symbols of the input or applies an action')
    c.assumptions = ['grammars are deterministic (the classes of a nonterminal are disjoint) and do not loop on the same position', 'pop_input as a rule at the end of the input is not claimed']
    r = c.rng
    grams = []
    total = c.scale(330, 4000)
    while len(grams) < total:
        g = Grammar(r)
        if not any(g.rules):
            continue
        ins = []
        for form in ((0, 1, 2) if g.acts else (2,)):
            cand = inputs(r, g, form, 9)
            cand = [s for s in cand if g.run(s, form)]
            for s in cand:
                ins.append((len(ins), form, s))
        if len({i[2] for i in ins}) < 3 and r.random() < 0.8:
            continue
        grams.append((len(grams), g, ins))
    cfgs = [Config('g++', 'c++20', '-O0'), Config('clang++-18', 'c++17', '-O0')] + ([Config('clang++-18', 'c++20', '-O0'), Config('g++', 'c++17', '-O0')] if c.thorough() else [])
    bad = []
    for n, cfg in enumerate(cfgs):
        part = grams if n == 0 or c.thorough() else grams[::4]
        futs = [(part[i:i + 8], c.pool.submit(unit, c, cfg, part[i:i + 8], 'u%d_%d' % (n, i))) for i in range(0, len(part), 8)]
        for jobs, f in futs:
            res = f.result()
            for gi, g, ins in jobs:
                for ii, form, s in ins:
                    got = res[gi, ii]
                    want = expected(g, s, form, ii)
                    c.evals += 1
                    v = g.run(s, form)
                    if v[1] >= 3 or v[2]:
                        c.nontrivial += 1
                    if n == 0:
                        c.count('accepted' if v[0] else 'refused')
                        for w in v[3]:
                            c.count(w)
                    if got[0] == 'compile' or got != want:
                        bad.append((cfg, gi, g, ii, form, s, got, want))
                    elif len(c.samples) < 8 and v[1] >= 3 and len(v[2]) >= 2 and r.random() < 0.05:
                        c.samples.append('"%s" with %d nonterminals: %s at %d, actions %s' % (show_cps(s), g.nts, 'accepted' if v[0] else 'refused', v[1], ' '.join(want[2])))
    c.coverage['grammars'] = len(grams)
    bad.sort(key=lambda b: (sum(map(len, b[2].rules)), len(b[5])))
    for cfg, gi, g, ii, form, s, got, want in bad[:2]:
        g, s = shrink(c, cfg, g, s, form, ii)
        got, want = unit(c, cfg, [(0, g, [(ii, form, s)])], 'z')[0, ii], expected(g, s, form, ii)
        text = open(c.path('z.cpp')).read()
        v = g.run(s, form)
        text = text.replace('std::printf("%d %d %d %d %lu"', 'v_bad |= R::position != %d || R::is_correct != %s || again != %s; std::printf("%%d %%d %%d %%d %%lu"' % (v[1], 'true' if v[0] else 'false', 'true' if v[0] else 'false'))
        text = text.replace('template <int Id, long Prev> struct v_ev', 'static bool v_bad = false;\ntemplate <int Id, long Prev> struct v_ev', 1).replace('void v_row(', 'void v_row_(', 1).replace('int main() {', '''template <typename R> void v_row(int g, int i, int form, bool again) { v_row_<R>(g, i, form, again); if (!std::is_same_v<typename R::output_type, %s>) v_bad = true; }
int main() {''' % ('ctll::empty_subject' if want[2] == ['empty'] else 'v_log<%s>' % ', '.join('v_ev<%s>' % x.replace(':', ', ') for x in want[2])), 1)
        text = text.rstrip()[:-1] + '\treturn v_bad;\n}\n'
        c.violation('parser', 'input "%s": expected (accepted, position, actions) %s, got %s (%s)' % (show_cps(s), want, got[:2] if got[0] == 'compile' else got, cfg), dict(source=text, config=cfg.as_dict()))
