"""Every evaluation ends, does no more work than plain backtracking, and simple repetitions take any length."""
from checks.pat import *
from checks.c13 import checked_op, PRE
from vlib.core import sh, cxx_str, show_cps

FACTOR = 40
LONG = 1500000

MAIN = '''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
struct v_row { int id; const char * unit; const char * tail; bool (*fn)(std::string_view, size_t); };
extern const v_row v_rows[]; extern const int v_n;
template <typename R> bool v_is(const R & r, std::string_view s, size_t end) { return end == ~size_t(0) ? !r : (r && r.begin() == s.begin() && static_cast<size_t>(r.end() - s.begin()) == end); }
int main(int argc, char ** argv) {
	int bad = 0;
	for (int i = 0; i < v_n; ++i) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
			rlimit t{60, 60}; setrlimit(RLIMIT_CPU, &t);
			std::string s, u = v_rows[i].unit;
			size_t n = static_cast<size_t>(atol(argv[1])) / u.size() * u.size();
			s.reserve(n + 100);
			while (s.size() < n) s += u;
			size_t run = s.size();
			std::string with = s + v_rows[i].tail;
			bool a = v_rows[i].fn(with + "!", run + std::string(v_rows[i].tail).size());
			bool b = v_rows[i].fn(s, ~size_t(0));
			_exit(a && b ? 0 : a ? 2 : 1);
		}
		int st; waitpid(pid, &st, 0);
		printf("%d %d %d\\n", v_rows[i].id, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
		if (st) bad = 1;
	}
	return bad;
}
'''


def long_source(rows):
    out = ['#include <string_view>\n#include <ctre.hpp>', MAIN]
    for i, p, unit, tail in rows:
        out.append('static constexpr char32_t r%d[] = %s; static constexpr auto p%d = ctll::fixed_string{r%d};' % (i, cxx_str(cps(p)), i, i))
    out.append('const v_row v_rows[] = {')
    for i, p, unit, tail in rows:
        out.append('\t{%d, "%s", "%s", [](std::string_view s, size_t e) { return v_is(ctre::starts_with<p%d>(s), s, e); }},' % (i, unit, tail, i))
    out.append('};\nconst int v_n = %d;' % len(rows))
    return '\n'.join(out)


ATOMS = [('a', 'a'), ('[a-c]', 'abc'), ('[^ ,0-9;A-Z]', 'abcdef'), ('[^,;]', 'abc'), ('\\\\w', 'abz0'), ('\\\\d', '0123'), ('[ab]', 'ab'), ('(?:a|b)', 'ab'), ('(?:ab)', ['ab']), ('(?:abc|b)', ['abc', 'b']), ('[a-z]', 'kabz'), ('(?:[ab]c)', ['ac', 'bc'])]
TAILS = [(';', ';'), (',', ','), ('[,;]', ',;'), ('(,)', ','), (';+', ';'), (' X', ' '), ('(?:,|;)', ',;'), ('X', 'X'), ('(?<n>;)[,]', ';'), ('[A-Z]', 'Q'), (' ?;', ' ;'), (',*;', ',;')]
TAIL_TEXT = {';': [';'], ',': [','], '[,;]': [',', ';'], '(,)': [','], ';+': [';', ';;'], ' X': [' X'], '(?:,|;)': [',', ';'], 'X': ['X'], '(?<n>;)[,]': [';,'], '[A-Z]': ['Q'], ' ?;': [' ;', ';'], ',*;': [',,;', ';']}
QUANT = ['*', '+', '{2,}', '*+', '++', '{3,}+', '*?', '+?', '{1,}?']


def long_case(r):
    a, members = r.choice(ATOMS)
    a = a.replace('\\\\', '\\')
    while True:
        t, first = r.choice(TAILS)
        if not (('w' in a or a == '[^,;]') and t in ('X', '[A-Z]', ' X', ' ?;')):
            break
    q = r.choice(QUANT)
    tail = r.choice(TAIL_TEXT[t])
    unit = ''.join(r.choice(members) for _ in range(r.choice([1, 2, 3, 5])))
    if r.random() < 0.3 and q[0] in '*+{':
        return '(' + a + q + ')' + t, unit, tail
    return a + q + t, unit, tail


def long_runs(c):
    r = c.rng
    seen = {}
    while len(seen) < c.scale(170, 1500):
        p, unit, tail = disjoint_case(r) if r.random() < 0.5 else long_case(r)
        seen.setdefault(p, (p, unit, tail))
        if len(seen) >= len(ATOMS) * len(TAILS) * len(QUANT) * 1.1:
            break
    rows = [(i,) + v for i, v in enumerate(seen.values())]
    units = [rows[i:i + 10] for i in range(0, len(rows), 10)]
    cfg = Config('g++', 'c++20', '-O1')

    def one(k, part):
        src, exe = c.path('long%s.cpp' % k), c.path('long%s' % k)
        open(src, 'w').write(long_source(part))
        x, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe], timeout=400)
        if x:
            if len(part) == 1:
                return [(part[0], 'compile', e.decode(errors='replace')[:400])]
            h = len(part) // 2
            return one(str(k) + 'a', part[:h]) + one(str(k) + 'b', part[h:])
        x, o, e = sh([exe, str(LONG)], timeout=700)
        byid = {p[0]: p for p in part}
        res = []
        for l in o.decode().splitlines():
            i, st, sig = map(int, l.split())
            res.append((byid[i], 'ok' if st == 0 else 'crash %d' % sig if sig else 'differs', 'status %d' % st))
        if len(res) != len(part):
            raise Infra('long runs: ' + e.decode()[:200])
        return res
    bad = []
    futs = [c.pool.submit(one, k, u) for k, u in enumerate(units)]
    for f in futs:
        for row, v, info in f.result():
            c.evals += 2
            c.nontrivial += 2
            c.count('long subjects')
            if v != 'ok':
                bad.append((row, v, info))
    bad.sort(key=lambda b: len(b[0][1]))
    for row, v, info in bad[:2]:
        again = [one('x', [row])[0] for _ in range(3)]
        if all(a[1] == 'ok' for a in again) or any(a[1] == 'ok' for a in again):
            c.notes.append('not confirmed: ' + row[1])
            continue
        c.violation('long subject', 'starts_with<"%s"> of %d characters "%s..." with the tail "%s" or without: %s %s' % (row[1], LONG, row[2], row[3], v, info),
                    dict(pattern=row[1], unit_text=row[2], tail=row[3], source=long_source([row]), config=cfg.as_dict(), args=[LONG]))
    for row in r.sample(rows, 3):
        c.samples.append('starts_with /%s/ on %d characters of "%s..." and "%s"' % (row[1], LONG, row[2], row[3]))


ANCH_MAIN = '''
#include "chk.hpp"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
struct a_row { int id; void (*fn)(const char *, size_t, long &, long &, bool &); };
extern const a_row a_rows[]; extern const int a_n;
template <typename S, typename W> void a_run(S search, W starts, const char * b, size_t n, long & s, long & w, bool & same) {
	using I = vh::cit<char, std::random_access_iterator_tag>;
	const I f{b, b, b + n}, l{b + n, b, b + n};
	vh::chk = {}; auto y = starts(f, l); w = vh::chk.work;
	vh::chk = {}; auto x = search(f, l); s = vh::chk.work;
	same = bool(x) == bool(y) && (!x || (x.begin() == y.begin() && x.end() == y.end()));
}
int main(int argc, char ** argv) {
	std::mt19937_64 rng(std::strtoull(argv[1], nullptr, 10));
	int subjects = std::atoi(argv[2]); size_t len = static_cast<size_t>(std::atol(argv[3]));
	int bad = 0;
	for (int i = 0; i < a_n; ++i) {
		for (int k = 0; k < subjects; ++k) {
			static const char letters[] = "abcabcabcxy01 \\n";
			std::string t;
			size_t m = 2 + rng() % (sizeof letters - 2);
			char lead = letters[rng() % (sizeof letters - 1)];
			for (size_t j = rng() % 6; j; --j) t += lead;
			while (t.size() < len) t += letters[rng() % m];
			long s, w; bool same;
			a_rows[i].fn(t.data(), t.size(), s, w, same);
			bool wrong = !same || s > 4 * w + 200;
			if (wrong) bad = 1;
			std::printf("%d %ld %ld %d %d\\n", a_rows[i].id, s, w, same, wrong);
		}
	}
	return bad;
}
'''


def anchored_source(rows):
    out = ['#include <ctre.hpp>', ANCH_MAIN]
    for i, p in rows:
        out.append('static constexpr char32_t r%d[] = %s; static constexpr auto p%d = ctll::fixed_string{r%d};' % (i, cxx_str(cps(p)), i, i))
    out.append('const a_row a_rows[] = {')
    for i, p in rows:
        out.append('\t{%d, [](const char * b, size_t n, long & s, long & w, bool & same) { a_run(ctre::search<p%d>, ctre::starts_with<p%d>, b, n, s, w, same); }},' % (i, i, i))
    out.append('};\nconst int a_n = %d;' % len(rows))
    return '\n'.join(out)


ZERO = ['\\b', '\\B', '(?:\\b)', '(\\B)']


def anchored(r, d, names):
    """a pattern of which each way begins with an anchor"""
    k = r.choice(['^', '^', '\\A'] if d == 0 else ['^', '\\A', '\\b', 'cap', 'ncap', 'alt', 'name', 'rep', 'opt', 'cap', 'alt', 'seq', 'zero', 'zero'])
    tail = r.choice(['', 'a', 'b?', '[ab]', 'a*', '(c)?', 'ab', '\\d', '(?=a)'])
    if k in ('^', '\\A'):
        return k + tail
    if k == '\\b':
        return r.choice(['\\b', '\\B']) + anchored(r, d - 1, names)
    x = anchored(r, d - 1, names)
    if k == 'zero':  # options without an anchor read nothing, the anchor is behind them
        opts = [r.choice(ZERO)] + [anchored(r, d - 1, names) if r.random() < 0.6 else r.choice(ZERO) for _ in range(r.choice([0, 1, 1, 2]))]
        r.shuffle(opts)
        return '(%s%s)' % (r.choice(['', '?:', '?:']), '|'.join(opts)) + x
    if k == 'cap':
        return '(' + x + ')' + tail
    if k == 'ncap':
        return '(?:' + x + ')' + tail
    if k == 'name':
        names.append(0)
        return '(?<n%d>%s)%s' % (len(names), x, tail)
    if k == 'alt':
        return '(%s%s)%s' % (r.choice(['', '?:']), '|'.join([x] + [anchored(r, d - 1, names) for _ in range(r.choice([1, 1, 2]))]), tail)
    if k == 'rep':
        return '(?:%s)%s%s' % (x, r.choice(['+', '{1,2}', '{2}', '+?', '{1,}', '++', '{2,3}?']), tail)
    if k == 'opt':
        return '(?:%s)%s%s' % (x, r.choice(['?', '*', '??', '*?', '{0,2}']), anchored(r, d - 1, names))
    return x + anchored(r, d - 1, names)


def anchored_runs(c):
    r = c.rng
    seen = []
    while len(seen) < c.scale(120, 1500):
        p = anchored(r, r.choice([1, 2, 2, 3]), []) + r.choice(['', '', 'x', '[bc]+y', 'c', '(?:a|b)c'])
        if p not in seen and len(p) < 60:
            seen.append(p)
    seen = [p for p, v in zip(seen, accepted(c, [cps(p) for p in seen])) if v[0]]
    rows = list(enumerate(seen))
    units = [rows[i:i + 12] for i in range(0, len(rows), 12)]
    cfg = Config('g++', 'c++20', '-O1')
    args = [c.seed, c.scale(40, 120), 3000]

    def one(k, part):
        src, exe = c.path('anch%s.cpp' % k), c.path('anch%s' % k)
        open(src, 'w').write(anchored_source(part))
        x, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe], timeout=400)
        if x:
            if len(part) == 1:
                return [(part[0], 'compile', e.decode(errors='replace')[:400], 0, 0)]
            h = len(part) // 2
            return one(str(k) + 'a', part[:h]) + one(str(k) + 'b', part[h:])
        x, o, e = sh([exe] + [str(a) for a in args], timeout=400)
        byid = dict(part)
        res = {p[0]: [p, 'ok', '', 0, 0] for p in part}
        for l in o.decode().splitlines():
            i, s, w, same, wrong = map(int, l.split())
            res[i][3] += 1
            res[i][4] += w * 8 < args[2]
            if wrong and res[i][1] == 'ok':
                res[i][1], res[i][2] = 'wrong', 'search needs %d operations on a subject of %d characters, starts_with %d%s' % (s, args[2], w, '' if same else '; their results differ')
        if x not in (0, 1):
            raise Infra('anchored runs: ' + e.decode()[:200])
        return list(res.values())
    bad = []
    for f in [c.pool.submit(one, k, u) for k, u in enumerate(units)]:
        for row, v, info, n, nt in f.result():
            c.evals += n
            c.nontrivial += nt
            c.count('anchored searches', n)
            if v != 'ok':
                bad.append((row, v, info))
    bad.sort(key=lambda b: len(b[0][1]))
    for row, v, info in bad[:2]:
        if one('x', [row])[0][1] == 'ok':
            c.notes.append('not confirmed: ' + row[1])
            continue
        c.violation('anchored search', 'search<"%s">: %s' % (row[1], info), dict(pattern=row[1], source=anchored_source([row]), config=cfg.as_dict(), args=args))
    for row in r.sample(rows, 3):
        c.samples.append('search /%s/ needs no more than starts_with' % row[1])


SETCH = [ord(x) for x in 'abcdefghijABCXYZ0123456789 ,;_!']


def esc(x):
    return chr(x)


def random_set(r):
    """(text, members of 0..127), at most one range touches another: sorted"""
    k = r.choice([1, 1, 2, 2, 3])
    pts = sorted(r.sample([x for x in range(48, 123) if chr(x).isalnum()], 2 * k))
    items, mem = [], set()
    for i in range(k):
        a, b = pts[2 * i], pts[2 * i + 1]
        t = r.randrange(4)
        if t == 0:
            items.append(esc(a)); mem.add(a)
        elif t == 1 and b - a == 1:
            items.append(esc(a) + esc(b)); mem |= {a, b}
        else:
            items.append('%s-%s' % (esc(a), esc(b))); mem |= set(range(a, b + 1))
    if r.random() < 0.5:
        return '[^%s]' % ''.join(items), set(range(128)) - mem
    if k == 1 and len(mem) == 1:
        return items[0], mem
    return '[%s]' % ''.join(items), mem


def disjoint_case(r):
    """a repetition of a set followed by a set disjoint from it, often just beside it"""
    while True:
        a, mem = random_set(r)
        rest = [x for x in range(128) if x not in mem and chr(x).isalnum()]
        have = sorted(x for x in mem if chr(x).isalnum())
        if not rest or not have:
            continue
        edge = [x for x in rest if x - 1 in mem or x + 1 in mem]
        lo = hi = r.choice(edge if edge and r.random() < 0.7 else rest)
        while lo - 1 in rest and r.random() < 0.7:
            lo -= 1
        while hi + 1 in rest and r.random() < 0.7:
            hi += 1
        t = chr(lo) if lo == hi else '[%c-%c]' % (lo, hi)
        edge = [x for x in have if x - 1 not in mem or x + 1 not in mem]
        unit = ''.join(chr(r.choice(edge if edge and r.random() < 0.5 else have)) for _ in range(r.choice([1, 2, 3, 5])))
        q = r.choice(['*', '+', '*', '+', '{2,}'])
        p = a + q + t
        if r.random() < 0.2:
            p = '(' + a + q + ')' + t
        return p, unit, chr(r.randint(lo, hi))


def run(c):
    c.rule = RULE + '; here the iterators of the subject count reads, steps and comparisons; another part evaluates repetitions over subjects of %d characters' % LONG
    c.assumptions = ['the limit is %d operations on the subject for a step of the model, which backtracks plainly' % FACTOR, 'subjects for which the model needs more than 300000 steps are not decided',
                     'search_all and split with an empty match are a known finding of C10']
    long_runs(c)
    anchored_runs(c)
    worst = [0.0, '']

    def collect(cases, r):
        if r['t'] == 'case' and r.get('ratio', 0) > worst[0]:
            worst[0], worst[1] = r['ratio'], cases[r['case']].text()
    e = Engine(c, random_subjects=c.scale(160, 400), exhaustive=180, prelude=PRE, per_tu=18, run_args=['--work', FACTOR, '--cpu', 20])
    profs = [(Profile(w=dict(empty=6, cap=14, ncap=20, alt=14, atomic=3, look=4, anchor=4, wordb=3), quant=80, depth=5, seqlen=(1, 3)), 0.45),
             (Profile(w=dict(look=8, bref=5, atomic=4, anchor=6, wordb=4, cap=12)), 0.3),
             (Profile(w=dict(lit=50, set=20, cls=10), quant=85, modes=(80, 10, 10), depth=2, seqlen=(2, 5)), 0.25)]
    profs = [x + (None,) for x in profs]
    # repetitions of backreferences to what may be empty and of atomic groups
    turns = lambda n: any(x.k == 'rep' and any(y.k in ('bref', 'atomic') for y in walk(x)) for x in walk(n))
    profs.append((Profile(w=dict(empty=6, cap=26, bref=30, atomic=14, ncap=14, alt=8, lit=30), quant=75, depth=3, seqlen=(2, 4)), 0.2, turns))
    cases = []
    n = c.scale(700, 9000)
    for prof, share, must in profs:
        for node, text, _ in patterns(c, prof, int(n * share), 34, must=must):
            cases.append(Case(cps(text), [checked_op(c, k, node, 'char', FL_ML if c.rng.random() < 0.15 else 0) for k in ('match', 'search', 'starts_with')], 1, node))
    e.report(e.run(cases, collect=collect))
    c.coverage['most_operations_per_step'] = worst
    e.take()
