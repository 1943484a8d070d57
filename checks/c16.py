"""The way a pattern is written in the program (encoding, literal, array, class) doesn't matter."""
from checks.pat import *
from vlib.engine import UNIT_T

PRE = '''#include <array>
namespace vp {
template <typename A, typename B> inline void same(const A & a, const B & b, VOut * o) {
	if (!a.correct()) vh::note(o, 80, "a well formed pattern isn't correct()");
	if (a.size() != b.size()) { vh::note(o, 81, "size of the pattern"); return; }
	for (size_t i = 0; i != a.size(); ++i) if (a[i] != b[i] || a.begin()[i] != b[i]) vh::note(o, 82, "content of the pattern");
	if (a.end() - a.begin() != static_cast<std::ptrdiff_t>(b.size())) vh::note(o, 83, "begin/end of the pattern");
	std::u32string_view v = a;
	if (v != std::u32string_view(b.begin(), b.size())) vh::note(o, 84, "view of the pattern");
}
template <typename A, typename B> inline void equal(const A & a, const B & b, VOut * o) {
	same(a, b, o);
	if (!a.is_same_as(b) || !b.is_same_as(a)) vh::note(o, 85, "is_same_as of equal patterns");
}
}
'''


def units(p, enc):
    s = ''.join(map(chr, p))
    if enc == 'char':
        return [x - 256 if x > 127 else x for x in s.encode('latin-1')]
    if enc == 'utf8char':
        return [x - 256 if x > 127 else x for x in s.encode('utf-8')]
    if enc == 'char8_t':
        return list(s.encode('utf-8'))
    if enc == 'char16_t':
        b = s.encode('utf-16-le')
        return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
    return p


def literal(p, prefix):
    out = []
    for x in p:
        ch = chr(x)
        if ch in '"\\':
            out.append('\\' + ch)
        elif ch == '?':
            out.append('\\?')
        elif 32 <= x < 127:
            out.append(ch)
        elif x < 0xA0:
            out.append('\\%03o' % x)
        elif x < 0x10000:
            out.append('\\u%04X' % x)
        else:
            out.append('\\U%08X' % x)
    return prefix + '"' + ''.join(out) + '"'


def encodings(p, utf8):
    """(name, declaration, template argument)"""
    out = []
    small = all(x < 256 for x in p)
    ascii_ = all(x < 128 for x in p)
    lit_ok = all(not 0x80 <= x < 0xA0 and x for x in p)
    arrays = ['char8_t', 'char16_t', 'char32_t', 'wchar_t'] + (['utf8char'] if utf8 else ['char'] if small else [])
    for e in arrays:
        t = 'char' if e == 'utf8char' else e
        u = units(p, e)
        out.append((e + ' array', 'static constexpr %s a_%%p[] = %s; static constexpr auto b_%%p = ctll::fixed_string{a_%%p};' % (t, '{' + ''.join('%s,' % ("char(%d)" % x if t == 'char' else x) for x in u) + '0}'), 'b_%p'))
        if u:
            out.append((e + ' std::array', 'static constexpr std::array<%s, %d> a_%%p = {%s}; static constexpr auto b_%%p = ctll::fixed_string{a_%%p};' % (t, len(u), ','.join('%s' % ("char(%d)" % x if t == 'char' else x) for x in u)), 'b_%p'))
    if lit_ok:
        for prefix in ['u8', 'u', 'U', 'L'] + ([''] if ascii_ or utf8 else []):
            out.append(('literal ' + prefix, 'static constexpr auto b_%%p = ctll::fixed_string{%s};' % literal(p, prefix), literal(p, prefix)))
            out.append(('copy ' + prefix, 'static constexpr ctll::fixed_string c_%%p{%s}; static constexpr auto b_%%p = c_%%p;' % literal(p, prefix), 'b_%p'))
    return out


def decoding(c):
    """every code point in every encoding, at run time"""
    from vlib.core import sh, LIB
    import os

    def one(k, defs):
        cfg = Config(defs=defs, header='ctll.hpp')
        exe = c.path('fixed%d' % k)
        x, o, e = sh([cfg.cxx] + cfg.flags() + [os.path.join(LIB, 'fixedstr.cpp'), '-o', exe], timeout=300)
        if x:
            return cfg, defs, 'does not compile: ' + e.decode(errors='replace')[:400], 0
        x, o, e = sh([exe, str(c.seed), str(c.scale(200000, 3000000))], timeout=600)
        o = o.decode()
        if x == 0 and o.startswith('OK'):
            return cfg, defs, None, int(o.split()[1])
        return cfg, defs, 'status %d: %s' % (x, o.strip()), 0
    for f in [c.pool.submit(one, k, d) for k, d in enumerate(((), ('CTRE_STRING_IS_UTF8',)))]:
        cfg, defs, err, n = f.result()
        c.evals += n
        c.nontrivial += n
        c.count('decoded strings', n)
        if err and all(one(9, defs)[2] for _ in range(2)):
            c.violation('decoding', 'fixed_string %s: %s' % (' '.join(defs), err), dict(source=open(os.path.join(LIB, 'fixedstr.cpp')).read(), config=cfg.as_dict(), args=[c.seed, 200000]))


def run(c):
    decoding(c)
    c.rule = RULE + '; here each operation uses the pattern in a randomly chosen encoding and notation, whose decoded content is compared as well'
    c.assumptions = ['patterns are well formed in their encoding; a pattern of char units is read as Latin-1, or as UTF-8 with CTRE_STRING_IS_UTF8']
    w = '\u00e9\u00a0\u00ff\u07ff\u0800\u0416\u6f22\ud7ff\ue000\uffff\U00010000\U0001F600\U0010FFFF\U000FFFFF'
    confs = [(Config(), False, 0.45), (Config(defs=('CTRE_STRING_IS_UTF8',)), True, 0.35), (Config('clang++-18', 'c++17', '-O1'), False, 0.2)]
    n = c.scale(560, 6000)
    for cfg, utf8, share in confs:
        e = Engine(c, cfg, random_subjects=c.scale(60, 120), exhaustive=60, prelude=PRE, per_tu=12)
        if cfg.std == 'c++20':
            known_findings(e)
        profs = [(Profile(alphabet='ab\u00e9', wide=w, w=dict(look=3, anchor=5, cap=12, set=14), depth=3, names=15, escapes=4), 0.7), (Profile(alphabet='ab', extra='cAB01_ -\n', wide='\u00e9\u00ff\u0080\u009f', depth=3), 0.3)]
        cases = []
        for prof, sh_ in profs:
            for node, text, _ in patterns(c, prof, int(n * share * sh_), 30):
                p = cps(text)
                enc = encodings(p, utf8)
                if cfg.std == 'c++17':
                    enc = [x for x in enc if 'char8_t' not in x[0] and 'u8' not in x[0]]
                name, decl, arg = c.rng.choice(enc)
                if cfg.std == 'c++17':
                    arg = 'b_%p'
                c.count(name)
                if arg != 'b_%p':
                    decl = decl + ' ' if decl else ''
                unit = c.rng.choice([4, 4, 14, 2])
                t = UNIT_T[unit]
                ops = []
                for k in ('match', 'search', 'starts_with'):
                    how = c.rng.randrange(3)
                    if how == 0 or cfg.std == 'c++17':
                        call = 'ctre::%s<%s>' % (k, arg)
                    elif how == 1:
                        call = 'ctre::re<%s>().%s' % (arg, k)
                    else:
                        call = 'ctre::%s<%s>' % (k, 'b_%p') if not name.startswith('literal') else '%s_ctre.%s' % (arg, k)
                    fn = '[](const void * q, size_t n, VOut * o) { using namespace ctre::literals; const %s * b = static_cast<const %s *>(q); vh::put_result(%s(b, b + n), b, o); vp::%s(b_%%p, %%p, o); }' % (t, t, call, 'equal' if text else 'same')
                    ops.append(op(k, 0, 0, fn, k + ' with the pattern as ' + name))
                cases.append(Case(p, ops, unit, node, decl=decl))
        e.report(e.run(cases))
        e.take()
