"""Which patterns are accepted: the parser of the library against the reference grammar."""
import itertools
import re
from checks.pat import *
from vlib.core import sh, cxx_str, show_cps

TOKENS = ['a', 'b', '0', '9', 'g', 'x', '\\', '(', ')', '[', ']', '{', '}', '^', '$', '*', '+', '?', '|', '.', '-', ',', ':', '<', '>', '=', '!', '/', '"', ' ', '\u00e9', '(?', '(?:', '[:', ':]', '\\x', '\\u', '\\g{', '\\p{', '(?<', '{1', '#']
NOPOS = 1000000   # the model doesn't say where
TAIL = 'int main() { for (auto & x: v_r) std::printf("%d %d %lu\\n", x.id, x.ok, static_cast<unsigned long>(x.pos)); }\n'
HEAD = '''#include <cstdio>
template <ctll::fixed_string P> struct v_parse {
	using R = typename ctll::parser<ctre::pcre, P, ctre::pcre_actions>::template output<ctre::pcre_context<>>;
};
struct v_row { int id; int ok; size_t pos; };
'''


# every character, plain and behind a backslash, in every place of the syntax
PLACES = ['%s', 'a%s', '%s*', '(%s)', '[%s]', '[a%s]', '[^%s]', '[%sa]', '[%s-~]', '[!-%s]', '[a-b%s]', '[%s-]', '[-%s]', '[\\d%s]', '[^%s-~]', '%s?+', 'a|%s', '(?:%s|b)', '(?<=%s)', '[[:word:]%s]', '[a[:^digit:]-%s]', '[\\w-%s]']
PLAIN = ['(?%s)', '(?%sa)', '\\x%s1', '\\x1%s', '\\u00%s1', '\\x{%s}', '\\x{1%s}', 'a{%s}', 'a{1%s', 'a{1%s}', 'a{1,%s}', 'a{1,2%s', '(?<%s>a)', '(?<n%s>a)', '(?<n>a)\\g{n%s}', '(a)\\g{%s}', '(a)\\g%s', '(a)\\%s', '[[:%s:]]', '[[:alnum%s]]', '[[:alnum:%s', '(?%s:a)', '(?<%sa)', 'a*%s', 'a{2}%s', '\\p%s', '(?im%s)']


def places():
    out = []
    for x in range(32, 127):
        ch = chr(x)
        out += [p.replace('%s', ch) for p in PLACES + PLAIN] + [p.replace('%s', '\\' + ch) for p in PLACES]
    return out


def source(pats):
    out = [HEAD]
    for i, p in pats:
        out.append('static constexpr char32_t r%d[] = %s; static constexpr auto p%d = ctll::fixed_string{r%d};' % (i, cxx_str(p), i, i))
    out.append('static const v_row v_r[] = {')
    for i, p in pats:
        out.append('\t{%d, v_parse<p%d>::R::is_correct, v_parse<p%d>::R::position},' % (i, i, i))
    out.append('};')
    out.append(TAIL)
    return '\n'.join(out)


def run_unit(c, cfg, pats, tag):
    """{id: (ok, pos)} with None for patterns which don't compile at all"""
    src, obj, exe = c.path(tag + '.cpp'), c.path(tag + '.o'), c.path(tag)
    open(src, 'w').write(source(pats))
    ok, err = c.compile(src, obj, cfg)
    if ok:
        r, o, e = sh([cfg.cxx, obj, '-o', exe])
        if r == 0:
            r, o, e = sh([exe], timeout=60)
        if r:
            raise Infra('parse unit: ' + e.decode()[:300])
        res = {}
        for l in o.decode().splitlines():
            i, a, b = map(int, l.split())
            res[i] = (a, b)
        return res
    if len(pats) == 1:
        if ok is None:
            raise Infra(err)
        return {pats[0][0]: (None, err)}
    h = len(pats) // 2
    res = run_unit(c, cfg, pats[:h], tag + 'a')
    res.update(run_unit(c, cfg, pats[h:], tag + 'b'))
    return res


def mutate(r, t):
    s = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.randrange(5)
        i = r.randrange(len(s) + 1)
        if x == 0 and s:
            del s[min(i, len(s) - 1)]
        elif x == 1:
            s[i:i] = list(r.choice(TOKENS))
        elif x == 2 and s:
            s[min(i, len(s) - 1)] = r.choice(TOKENS)
        elif x == 3 and len(s) > 1:
            j = r.randrange(len(s))
            s[j:j + 3] = []
        elif s:
            j = r.randrange(len(s))
            s[i:i] = s[j:j + r.choice([1, 2, 3])]
    return ''.join(s)


def verdict(c, props, pat):
    return accepted(c, [pat], props)[0]


def run(c):
    c.rule = ('a case is one pattern string, parsed once; strings are all short sequences of syntax tokens (exhaustive up to 2 tokens, sampled above), each printable character (plain, and behind a backslash) in each place of the syntax, valid generated patterns, mutations of them, and truncations. '
              'Non-trivial: the string has at least one character with a meaning in the syntax and at least 2 characters')
    c.assumptions = ['names of backreferences are resolved after parsing and property names outside of the list below are unknown: \\p{} is used with L, Lu, Nd, Script=Latin, sc=grek, Foo only']
    props = ['L', 'Lu', 'Nd', 'Script=Latin', 'sc=grek', 'Any', 'ASCII', 'Alphabetic']
    r = c.rng
    strs = {''}
    for k in (1, 2):
        for t in itertools.product(TOKENS, repeat=k):
            strs.add(''.join(t))
    strs |= set(places())
    base = len(strs)
    for _ in range(c.scale(2200, 25000)):
        strs.add(''.join(r.choice(TOKENS) for _ in range(r.choice([3, 3, 4, 4, 5, 6]))))
    gen = Gen(r, Profile(w=dict(look=4, bref=5, atomic=4, anchor=6, wordb=3, cap=12, set=14), names=40, escapes=25, prefix_modes=('(?i)', '(?m)', '(?ims)', '(?c)'), wide='\u00e9\u6f22'))
    for _ in range(c.scale(2600, 30000)):
        n, t = make(gen, c, 30)
        if len(t) > 60:
            continue
        if r.random() < 0.08:
            t += '\\%s{%s}' % (r.choice('pP'), r.choice(['L', 'Lu', 'Script=Latin', 'sc=grek', 'Foo', 'Script=Foo', 'Foo=Latin', 'Age=Foo', 'L=', '', 'Script=', 'Any', 'L L', 'Nd']))
        x = r.random()
        if x < 0.2:
            strs.add(t)
        elif x < 0.4:
            strs.add(t[:r.randrange(len(t) + 1)])
        else:
            strs.add(mutate(r, t))
    known = set(props) | {'Foo', 'Script=Foo', 'Foo=Latin', 'Age=Foo'}
    strs = {t for t in strs if all(n in known for n in re.findall(r'[pP]\{([A-Za-z0-9_.=]+)\}', t))}
    strs = {t for t in strs if not re.search(r'\(\?<[=!].*\(\?[icsm]', t)}     # a switch inside of a lookbehind: known finding of C05
    pats = sorted(strs)
    r.shuffle(pats)
    # a mode switch behind something isn't observed here, duplicate names neither: both are accepted by the grammar
    ref = accepted(c, [cps(t) for t in pats], props)
    cfg = Config(header='ctre-unicode.hpp', opt='-O0')
    c.pch(cfg)
    idx = list(enumerate([cps(t) for t in pats]))
    units = [idx[i:i + 60] for i in range(0, len(idx), 60)]
    futs = [c.pool.submit(run_unit, c, cfg, u, 'u%d' % k) for k, u in enumerate(units)]
    res = {}
    for f in futs:
        res.update(f.result())
    bad = []
    for i, p in idx:
        want = bool(ref[i][0])
        got, pos = res[i]
        c.evals += 1
        if len(p) > 1 and any(chr(x) in '\\()[]{}^$*+?|.-' for x in p):
            c.nontrivial += 1
        c.count('accepted' if want else 'rejected')
        if got is None or bool(got) != want:
            bad.append((i, got, pos))
        elif want and pos != len(p):
            bad.append((i, got, pos))
        elif not want and pos != ref[i][3] and ref[i][3] != NOPOS:
            bad.append((i, got, pos))
    for i in r.sample(range(len(pats)), min(10, len(pats))):
        c.samples.append('/%s/ is %s' % (show_cps(cps(pats[i])), 'accepted' if ref[i][0] else 'rejected'))
    c.coverage['exhaustive_strings'] = base
    bad.sort(key=lambda b: len(pats[b[0]]))
    for i, got, pos in bad[:3]:
        p = cps(pats[i])
        want = bool(ref[i][0])

        def differs(q):
            w = verdict(c, props, q)
            g, ps = run_unit(c, cfg, [(0, q)], 's')[0]
            return g is None or bool(g) != bool(w[0]) or (ps != w[3] and w[3] != NOPOS)
        if not all(differs(p) for _ in range(3)):
            c.notes.append('not confirmed: ' + show_cps(p))
            continue
        again = True
        while again:
            again = False
            for j in range(len(p)):
                q = p[:j] + p[j + 1:]
                if differs(q):
                    p, again = q, True
                    break
        want = bool(verdict(c, props, p)[0])
        got, pos = run_unit(c, cfg, [(0, p)], 's')[0]
        what = 'pattern /%s/ should be %s, it %s' % (show_cps(p), 'accepted' if want else 'rejected', 'does not even parse without a hard error: ' + str(pos)[:300] if got is None else 'is %s (position %d)' % ('accepted' if got else 'rejected', pos) + ' instead of %d' % verdict(c, props, p)[3])
        text = '#include <ctre-unicode.hpp>\n' + source([(0, p)]).split('int main')[0] + 'int main() { return v_r[0].ok == %d && (v_r[0].pos == %d || %d) ? 0 : 1; }\n' % (want, verdict(c, props, p)[3], verdict(c, props, p)[3] == NOPOS)
        c.violation('syntax', what, dict(pattern=show_cps(p), expected=want, source=text, config=cfg.as_dict()))
