"""The character database: its functions for all code points, alone and beside the expressions."""
import os
from fractions import Fraction
from checks.pat import *
from vlib import ucd
from vlib.core import REPO, LIB, sh

SH, IN = os.path.join(REPO, 'single-header'), os.path.join(REPO, 'include')
NV = r'''use Unicode::UCD qw(prop_values prop_invlist); for my $v (prop_values("nv")) { print "$v\t".join(",",prop_invlist("nv=$v"))."\n" if $v ne "NaN"; }'''
INCLUDES = [('<ctre.hpp>', '<unicode-db.hpp>'), ('<unicode-db.hpp>', '<ctre.hpp>'), ('<unicode-db.hpp>',), ('<ctre-unicode.hpp>',), ('<unicode-db.hpp>', '<ctre-unicode.hpp>'), ('<ctre-unicode.hpp>', '<unicode-db.hpp>'),
            ('<ctre-unicode.hpp>', '<ctre.hpp>'), ('<ctre.hpp>', '<ctre-unicode.hpp>'), ('<ctre.hpp>',)]
CLS = {'gc': 'category', 'sc': 'script', 'blk': 'block', 'bin': 'property', 'scx': 'script'}


def rationals():
    r, o, e = sh(['perl', '-e', NV])
    if r:
        raise Infra('perl: ' + e.decode(errors='replace')[:200])
    out = {}
    for l in o.decode().splitlines():
        v, inv = l.split('\t')
        out[v if '/' in v else v + '/1'] = ucd.mask([int(x) for x in inv.split(',')] if inv else [])
    return out


def low(name):
    return name.split('=')[-1].lower()


def program(c, u, includes, fns):
    """the printing program and the masks it should print: name -> mask or {value: mask}"""
    r = c.rng
    t = ['#include %s\n' % i for i in includes] + ['#include "unidb.hpp"\nusing namespace uni;\n', '''#define V_ENUM(cls, ...) std::printf("enum:" #cls "\\t"); { auto v_e = {__VA_ARGS__}; for (auto x: v_e) std::printf("%lld ", static_cast<long long>(x)); } std::printf("\\n");
''', 'int main() {\n']
    exp = {}
    enums = {}
    for k, ps, m in u.props:
        if k == 'age' or k == 'bin' and low(ps[0]) in ('any', 'ascii', 'assigned'):
            continue
        cls = CLS[k]
        alias = r.choice(ps)
        if k in ('sc', 'blk', 'gc'):
            enums.setdefault(cls, []).append((low(alias), m, ps))
        if k in ('gc', 'bin'):
            name = '%s:%s' % (k, low(alias))
            t.append('\tvu::bits("%s", [](char32_t c) { return cp_%s_is<%s::%s>(c); });\n' % (name, cls, cls, low(alias)))
            exp[name] = m
    for cls, names in enums.items():
        t.append('\tV_ENUM(%s, %s)\n' % (cls, ', '.join('%s::%s' % (cls, n) for n, _, _ in names)))
    ages = [(low(ps[0]), m) for k, ps, m in u.props if k == 'age']
    t.append('\tV_ENUM(version, %s)\n' % ', '.join('version::v' + n.replace('.', '_') for n, _ in ages))
    t.append('\tstd::printf("none\\t%lld %lld %lld %lld\\n", (long long) category::cn, (long long) script::zzzz, (long long) version::unassigned, (long long) block::no_block);\n')
    for name, fn in (('category', 'cp_category'), ('script', 'cp_script'), ('version', 'cp_age'), ('block', 'cp_block')):
        t.append('\tvu::runs("%s", [](char32_t c) { return vu::num(static_cast<long long>(%s(c))); });\n' % (name, fn))
    for s in range(3):
        t.append('\tvu::runs("scx%d", [](char32_t c) { return vu::scx<int>(c, %d); });\n' % (s, s))
    t.append('\tvu::runs("numeric", vu::numeric);\n')
    for fn in ('cp_is_valid', 'cp_is_assigned', 'cp_is_ascii'):
        t.append('\tvu::bits("%s", [](char32_t c) { return %s(c); });\n' % (fn, fn))
    t.append('''	unsigned n = 0;
	for (unsigned k = 0; k < 40000; ++k) {
		const char32_t c = k < 20000 ? 0x110000u + k : 0x120000u + (k - 20000) * 214000u;
		n += cp_category(c) != category::cn || cp_script(c) != script::zzzz || cp_age(c) != version::unassigned || cp_block(c) != block::no_block || cp_numeric_value(c).is_valid() || cp_script_extensions(c).begin() != cp_script_extensions(c).end();
	}
	std::printf("beyond\\t%u\\n", n);
}
''')
    return ''.join(t), exp, enums, ages


def first(d):
    return (d & -d).bit_length() - 1


def judge(c, u, out, exp, enums, ages, nv):
    """list of (what, function, code point)"""
    bad = []
    rows = dict(l.split('\t', 1) for l in out.splitlines())
    none = [int(x) for x in rows['none'].split()]

    def cmp(name, got, want, what):
        d = (got ^ want) & ~u.unusable
        c.evals += ucd.TOP
        c.nontrivial += 2 * len(ucd.invlist(want)) + 100
        c.count(name.split(':')[0])
        if d:
            bad.append(('%s of U+%04X is %s (%d code points differ)' % (name, first(d), what(first(d)), bin(d).count('1')), name, first(d)))
    for name, m in exp.items():
        inv, n = rows[name].split('\t')
        cmp(name, ucd.mask([int(x) for x in inv.split(',') if x]), m, lambda x: 'wrong, it should be %s' % bool(m >> x & 1))
        if int(n) and name.split(':')[1] not in ('c', 'cn', 'other', 'unassigned'):
            bad.append(('%s is true for %s values which are no code points' % (name, n), name, ucd.TOP))
    for fn, m in (('cp_is_valid', u.all), ('cp_is_ascii', (1 << 128) - 1), ('cp_is_assigned', u.all & ~[m for k, p, m in u.props if k == 'gc' and 'Cn' in p][0])):
        inv, n = rows[fn].split('\t')
        cmp(fn, ucd.mask([int(x) for x in inv.split(',') if x]), m, lambda x: 'wrong')
        if int(n):
            bad.append(('%s is true for %s values which are no code points' % (fn, n), fn, ucd.TOP))

    def by_value(name):
        got = {}
        r = [p.split('=') for p in rows[name].split(';') if p]
        for i, (a, v) in enumerate(r):
            a, b = int(a), int(r[i + 1][0]) if i + 1 < len(r) else ucd.TOP
            got[v] = got.get(v, 0) | ((1 << (b - a)) - 1) << a
        return got
    for cls, alt in (('category', none[0]), ('script', none[1]), ('block', none[3])):
        got = by_value(cls)
        vals = [int(x) for x in rows['enum:' + cls].split()]
        named = {}
        for v, (n, m, ps) in zip(vals, enums[cls]):
            if cls == 'category' and len(ps[0]) != 2 or any(low(p) in ('lc', 'cased_letter') for p in ps):
                continue            # groups
            named[v] = n
            cmp(cls, got.pop(str(v), 0), m, lambda x: 'wrong, about ' + n)
        for v, g in got.items():
            if int(v) != alt and g & ~u.unusable:
                bad.append(('%s of U+%04X is an unexpected value %s' % (cls, first(g & ~u.unusable), v), cls, first(g & ~u.unusable)))
        enums[cls + ':named'] = dict(zip(vals, [n for n, _, _ in enums[cls]]))
    got = by_value('version')
    before = 0
    vals = [int(x) for x in rows['enum:version'].split()]
    for v, (n, m) in sorted(zip(vals, ages), key=lambda x: float(x[1][0])):
        cmp('version', got.pop(str(v), 0), m & ~before, lambda x: 'wrong, about ' + n)
        before |= m
    # script extensions: the sets
    names = enums['script:named']
    scx = {}
    for k, ps, m in u.props:
        if k == 'scx':
            for p in ps:
                scx[low(p)] = m
    for s in range(3):
        total = {}
        for v, g in by_value('scx%d' % s).items():
            ids = v.split()
            if len(set(ids)) != len(ids):
                bad.append(('the script extensions of U+%04X have one twice' % first(g), 'scx', first(g)))
            for i in ids:
                total[int(i)] = total.get(int(i), 0) | g
        for i, n in names.items():
            if n not in scx or n in ('zzzz', 'unknown'):
                continue
            cmp('scx', total.pop(i, 0), scx[n], lambda x: 'wrong, about ' + n)
        for i, g in total.items():
            if g & ~u.unusable and i != none[1]:
                bad.append(('the script extensions of U+%04X have an unexpected value %d' % (first(g & ~u.unusable), i), 'scx', first(g & ~u.unusable)))
    got = {}
    for v, g in by_value('numeric').items():
        if v != '-':
            v = v if v == 'value' or v.endswith('/0') else str(Fraction(v)) if '/' in str(Fraction(v)) else str(Fraction(v)) + '/1'
            got[v] = got.get(v, 0) | g
    for v, m in nv.items():
        cmp('numeric', got.pop(v, 0), m, lambda x: 'wrong, about ' + v)
    for v, g in got.items():
        if g & ~u.unusable:
            bad.append(('the numeric value of U+%04X is %s' % (first(g & ~u.unusable), v), 'numeric', first(g & ~u.unusable)))
    if int(rows['beyond']):
        bad.append(('%s values which are no code points have a category, script, age, block or number' % rows['beyond'], 'beyond', ucd.TOP))
    return bad


def constants(c, u, nv, count):
    """the same functions in constant expressions: text of checks which are evaluated by the compiler"""
    r = c.rng
    rows, what = [], []
    usable = u.all & ~u.unusable
    while len(rows) < count:
        k, ps, m = r.choice(u.props)
        p = low(r.choice(ps))
        inv = ucd.invlist(m)
        x = r.choice(inv) - r.choice([0, 0, 1, -1, 2]) if inv and r.random() < 0.8 else r.randrange(ucd.TOP)
        if not 0 <= x < ucd.TOP or not usable >> x & 1:
            continue
        want = bool(m >> x & 1)
        if k == 'bin' and p in ('any', 'ascii', 'assigned'):
            continue
        if k in ('gc', 'bin'):
            e = 'uni::cp_%s_is<uni::%s::%s>(%d)' % (CLS[k], CLS[k], p, x)
        elif k == 'sc' and p not in ('zzzz', 'unknown'):
            e = 'uni::cp_script(%d) == uni::script::%s' % (x, p)
        elif k == 'blk' and p not in ('nb', 'no_block'):
            e = 'uni::cp_block(%d) == uni::block::%s' % (x, p)
        elif k == 'scx' and p not in ('zzzz', 'unknown'):
            e = 'v_has(%d, uni::script::%s)' % (x, p)
        elif k == 'age':
            e = 'uni::cp_age(%d) <= uni::version::v%s && uni::cp_age(%d) != uni::version::unassigned' % (x, p.replace('.', '_'), x)
        else:
            continue
        rows.append('\t{(%s) == %s},' % (e, 'true' if want else 'false'))
        what.append('%s is %s' % (e, want))
    for v, m in r.sample(sorted(nv.items()), min(len(nv), count // 8)):
        m &= usable
        if not m:
            continue
        x = first(m)
        a, b = v.split('/')
        e = 'uni::cp_numeric_value(%d).numerator() * %s == %sll * uni::cp_numeric_value(%d).denominator()' % (x, b, a, x)
        rows.append('\t{%s},' % e)
        what.append(e)
    text = '''#include <cstdio>
constexpr bool v_has(char32_t c, uni::script s) { bool r = false; for (auto x: uni::cp_script_extensions(c)) r = r || x == s; return r; }
struct v_c { bool ok; };
constexpr v_c v_cs[] = {
%s
};
int main() { int i = 0; for (auto & x: v_cs) { if (!x.ok) std::printf("%%d\\n", i); ++i; } }
''' % '\n'.join(rows)
    return text, what


def build(c, cfg, text, tag):
    src, exe = c.path(tag + '.cpp'), c.path(tag)
    open(src, 'w').write(text)
    r, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe], timeout=600)
    if r:
        if b'error:' in e:
            return None, '; '.join(l for l in e.decode(errors='replace').splitlines() if 'error' in l)[:400]
        raise Infra('compiler: ' + e.decode(errors='replace')[:300])
    r, o, e = sh([exe], timeout=600)
    if r:
        raise Infra('database program: status %d' % r)
    return o.decode(), ''



def run(c):
    c.rule = ('a case is (function or enumerator, code point), for all 1114112 code points and a sample of values beyond them, with one of the spellings of each enumerator; (function, code point) evaluated by the compiler; and a sequence of includes. '
              'Non-trivial: code points beside a bound of what the function distinguishes, and 100 for each function')
    c.assumptions = ['the oracle is the Unicode 15.0 data of the installed perl; code points which 15.0 added or changed are left out', 'the order of the script extensions is not claimed, and none are expected where the script is unknown']
    u, nv = ucd.Ucd(), rationals()
    jobs = []
    confs = [(Config('g++', 'c++20', '-O2', inc=IN), ('<unicode-db.hpp>',)), (Config('clang++-18', 'c++17', '-O2', inc=SH), ('<unicode-db.hpp>',)), (Config('g++', 'c++20', '-O2', inc=IN), ('<ctre-unicode.hpp>',)), (Config('g++', 'c++17', '-O2', inc=SH), ('<ctre-unicode.hpp>',))]
    if c.thorough():
        confs += [(Config(x, s, o, inc=i), h) for x in ('g++', 'clang++-18') for s in ('c++17', 'c++20') for o in ('-O0', '-O3') for i in (IN, SH) for h in INCLUDES[:6]]
    for n, (cfg, inc) in enumerate(confs):
        text, exp, enums, ages = program(c, u, inc, None)
        jobs.append((cfg, inc, exp, enums, ages, text, c.pool.submit(build, c, cfg, text, 'p%d' % n)))
    small = []
    for n, (cfg, inc) in enumerate([(Config(x, s, '-O0', inc=i), h) for x, s in (('g++', 'c++20'), ('clang++-18', 'c++17')) for i in (IN, SH) for h in INCLUDES]):
        if '<ctre.hpp>' == inc[0] and len(inc) == 1:
            text, what = '#include <ctre.hpp>\nint main() { return 0; }\n', []
        else:
            text, what = constants(c, u, nv, c.scale(120, 1200))
            text = ''.join('#include %s\n' % i for i in inc) + text
        small.append((cfg, inc, text, what, c.pool.submit(build, c, cfg, text, 's%d' % n)))
    for cfg, inc, exp, enums, ages, text, f in jobs:
        out, err = f.result()
        if out is None:
            c.violation('compile', '%s with %s: %s' % (' '.join(inc), cfg, err), dict(source=text, config=cfg.as_dict()))
            continue
        bad = judge(c, u, out, exp, enums, ages, nv)
        for what, fn, cp in bad[:2]:
            c.violation('database', '%s (%s, %s)' % (what, ' '.join(inc), cfg), dict(check_replay=True, includes=list(inc), config=cfg.as_dict(), program=text, function=fn, code_point=cp))
        if len(c.samples) < 4:
            c.samples.append('%s, %s: %d functions for all code points agree' % (' '.join(inc), cfg, len(exp) + 11))
    for cfg, inc, text, what, f in small:
        out, err = f.result()
        c.evals += len(what) + 1
        c.nontrivial += len(what)
        c.count('constant expressions', len(what))
        if out is None:
            c.violation('compile', '%s with %s: %s' % (' '.join(inc), cfg, err), dict(source=text, config=cfg.as_dict()))
            continue
        for i in out.split()[:1]:
            e = what[int(i)]
            c.violation('constant', 'not true in a constant expression: %s (%s, %s)' % (e, ' '.join(inc), cfg), dict(source=text.replace('std::printf("%d\\n", i);', 'return 1;'), config=cfg.as_dict()))
        if what and len(c.samples) < 10:
            c.samples.append('constant expression with %s: %s' % (' '.join(inc), c.rng.choice(what)))


def replay(c, d):
    """the whole program again: does it still say something wrong about that function?"""
    from vlib.replay import config
    u, nv = ucd.Ucd(), rationals()
    c.seed = d['seed']
    out, err = build(c, config(d['config']), d['program'], 'r')
    if out is None:
        print(err)
        return True
    text, exp, enums, ages = None, {}, {}, None
    # the enumerators are those of the program
    import re
    for name in re.findall(r'vu::bits\("((?:gc|bin):[a-z_0-9]+)"', d['program']):
        exp[name] = [m for k, ps, m in u.props if k == name.split(':')[0] and name.split(':')[1] in [low(p) for p in ps]][0]
    for cls, names in re.findall(r'V_ENUM\((category|script|block), (.*)\)', d['program']):
        k = {'category': 'gc', 'script': 'sc', 'block': 'blk'}[cls]
        enums[cls] = []
        for n in names.split(', '):
            n = n.split('::')[1]
            for kk, ps, m in u.props:
                if kk == k and n in [low(p) for p in ps]:
                    enums[cls].append((n, m, ps))
                    break
    ages = [(low(ps[0]), m) for k, ps, m in u.props if k == 'age']
    bad = judge(c, u, out, exp, enums, ages, nv)
    for what, fn, cp in bad[:5]:
        print(what)
    return bool(bad)
