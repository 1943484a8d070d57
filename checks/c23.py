"""The type lists of ctll: generated histories of operations against Python lists."""
import re
from checks.pat import *
from vlib.core import sh

HEAD = '''#include <ctll.hpp>
#include <type_traits>
namespace v {
template <int N> struct e { };
struct base { }; struct heir: base { };
struct from { }; struct made { constexpr made() = default; constexpr made(from) { } };
struct shut { explicit constexpr shut(int) { } constexpr shut() = default; };
template <typename A, typename B> constexpr bool is = std::is_same_v<A, B>;
template <auto V> using value = std::integral_constant<decltype(V), V>;
}
using namespace v;
'''
NAMED = ['base', 'heir', 'from', 'made', 'shut']


def lst(x):
    return 'ctll::list<%s>' % ', '.join(x)


def item(r, deep=0):
    x = r.random()
    if x < 0.7 or deep > 1:
        return 'e<%d>' % r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
    if x < 0.9:
        return r.choice(NAMED)
    if x < 0.94:
        return "ctll::term<'a'>"
    if x < 0.97:
        return 'ctll::anything'
    return "ctll::set<'a', 'b'>"


def step(r, l, other):
    """(kind, C++ expressions which are true, the list after)"""
    L = lst(l)
    t = item(r) if r.random() < 0.5 or not l else r.choice(l)
    k = r.choice(['size', 'empty', 'concat', 'push', 'push', 'push', 'push list', 'push epsilon', 'push pop_input', 'pop', 'pop', 'pop and push', 'pop pair', 'pop pair or', 'front', 'front or', 'rotate', 'exists', 'exists', 'add', 'add', 'remove', 'remove'])
    T = lambda e, x: 'is<decltype(%s), %s>' % (e, x)
    both = lambda e, x: [T(e, x)] + ['[]{ constexpr auto v = %s; (void)v; return true; }()' % e]
    if k == 'size':
        return k, ['ctll::size(%s{}) == %d' % (L, len(l)), 'v::value<ctll::size(%s{})>::value == %d' % (L, len(l))], l
    if k == 'empty':
        return k, ['ctll::empty(%s{}) == %s' % (L, 'false' if l else 'true')], l
    if k == 'concat':
        if r.random() < 0.5:
            return k, both('ctll::concat(%s{}, %s{})' % (L, lst(other)), lst(l + other)), (l + other if len(l + other) < 14 else l)
        return k, both('ctll::concat(%s{}, %s{})' % (lst(other), L), lst(other + l)), (other + l if len(l + other) < 14 else l)
    if k == 'push':
        return k, both('ctll::push_front(%s{}, %s{})' % (t, L), lst([t] + l)), [t] + l
    if k == 'push list':
        return k, both('ctll::push_front(%s{}, %s{})' % (lst(other), L), lst(other + l)), (other + l if len(l + other) < 14 else l)
    if k in ('push epsilon', 'push pop_input'):
        return k, both('ctll::push_front(ctll::%s{}, %s{})' % (k[5:], L), L), l
    if k == 'pop':
        return k, [T('ctll::pop_front(%s{})' % L, lst(l[1:]))] + (both('ctll::pop_front(%s{})' % L, lst(l[1:])) if l else []), l[1:]
    if k == 'pop and push':
        if not l:
            return k, [], l
        if r.random() < 0.5:
            return k, both('ctll::pop_front_and_push_front(%s{}, %s{})' % (lst(other), L), lst(other + l[1:])), (other + l[1:] if len(l + other) < 14 else l)
        return k, both('ctll::pop_front_and_push_front(v::e<8>{}, %s{})' % L, lst(['v::e<8>'] + l[1:])), ['v::e<8>'] + l[1:]
    if k in ('pop pair', 'pop pair or'):
        d = '' if k == 'pop pair' else ', v::e<7>{}'
        f = l[0] if l else ('v::e<7>' if d else 'ctll::_nothing')
        e = 'ctll::pop_and_get_front(%s{}%s)' % (L, d)
        return k, [T(e, 'ctll::list_pop_pair<%s, %s>' % (f, lst(l[1:]))), T('%s.front' % e, f), T('%s.list' % e, lst(l[1:])), '[]{ constexpr auto v = %s; (void)v; return true; }()' % e], l[1:]
    if k in ('front', 'front or'):
        d = '' if k == 'front' else ', v::e<7>{}'
        return k, [T('ctll::front(%s{}%s)' % (L, d), l[0] if l else ('v::e<7>' if d else 'ctll::_nothing')), '[]{ constexpr auto v = ctll::front(%s{}%s); (void)v; return true; }()' % (L, d)], l
    if k == 'rotate':
        return k, both('ctll::rotate(%s{})' % L, lst(l[::-1])), l[::-1]
    if k == 'exists':
        return k, ['ctll::exists_in(%s{}, %s{}) == %s' % (t, L, 'true' if t in l else 'false')], l
    if k == 'add':
        m = l if t in l else l + [t]
        return k, both('ctll::add_item(%s{}, %s{})' % (t, L), lst(m)), m
    m = [x for x in l if x != t]
    return k, both('ctll::remove_item(%s{}, %s{})' % (t, L), lst(m)), m


def history(r):
    l, out = [item(r) for _ in range(r.choice([0, 0, 1, 2, 3, 5]))], []
    for _ in range(r.choice([3, 6, 10, 14])):
        other = [item(r) for _ in range(r.choice([0, 1, 2, 3]))]
        k, exprs, m = step(r, l, other)
        out.append((k, exprs, l))
        l = m[:14]
    return out


def unit(c, cfg, rows, tag):
    """rows of expressions which have to be true -> {index: message}"""
    src = c.path(tag + '.cpp')
    start = HEAD.count('\n') + 1
    open(src, 'w').write(HEAD + ''.join('static_assert(%s);\n' % e for e in rows))
    lim = ['-fmax-errors=0'] if 'g++' == cfg.cxx.split('-')[0] else ['-ferror-limit=0']
    r, o, e = sh([cfg.cxx] + cfg.flags() + lim + ['-fsyntax-only', '-Wno-unused', src], timeout=400)
    bad = {}
    if r:
        for l in e.decode(errors='replace').splitlines():
            m = re.search(re.escape(src) + r':(\d+):', l)
            if m and start <= int(m.group(1)) < start + len(rows) and 'note' not in l:
                bad.setdefault(int(m.group(1)) - start, l[-200:])
            elif m and start <= int(m.group(1)) < start + len(rows):
                bad.setdefault(int(m.group(1)) - start, 'does not compile: ' + l[-200:])
        if not bad:
            raise Infra('compiler: ' + e.decode(errors='replace')[:400])
    return bad


def run(c):
    c.rule = ('a case is one operation in a generated history on a list of up to 14 types, among them types which are equal, derived from or convertible to one another, compared with the same operation on a Python list, as a type and in a constant expression. '
              'Non-trivial: the list has at least two elements')
    r = c.rng
    hist = [history(r) for _ in range(c.scale(3000, 40000))]
    cfgs = [Config('g++', 'c++20', '-O0'), Config('clang++-18', 'c++17', '-O0')] + ([Config('clang++-18', 'c++20', '-O0'), Config('g++', 'c++17', '-O0')] if c.thorough() else [])
    bad = []
    for n, cfg in enumerate(cfgs):
        futs = []
        for i in range(0, len(hist), 40):
            rows = []
            for h in hist[i:i + 40]:
                for k, exprs, l in h:
                    for e in exprs:
                        rows.append((k, e, l))
            futs.append((rows, c.pool.submit(unit, c, cfg, [e for k, e, l in rows], 'u%d_%d' % (n, i))))
        for rows, f in futs:
            got = f.result()
            for j, (k, e, l) in enumerate(rows):
                c.evals += 1
                c.nontrivial += len(l) >= 2
                if n == 0:
                    c.count(k)
                if j in got:
                    bad.append((cfg, k, e, l, got[j]))
                elif len(c.samples) < 8 and len(l) >= 3 and r.random() < 0.002:
                    c.samples.append('%s: %s' % (k, e))
    bad.sort(key=lambda b: (len(b[2]), b[2]))
    seen = set()
    for cfg, k, e, l, msg in bad:
        if k in seen or len(seen) > 3:
            continue
        seen.add(k)
        c.violation('lists', '%s: not true: %s (%s; %s)' % (k, e, cfg, msg), dict(source=HEAD + 'static_assert(%s);\nint main() { }\n' % e, config=cfg.as_dict()))
