"""UTF-8 subjects: the results are those of the code points."""
from checks.pat import *

PRE = '#include "u8.hpp"\n'
LAM = '[](const void * q, size_t n, VOut * o) { const char8_t * b = static_cast<const char8_t *>(q); %s }'


def forms(obj, put):
    sv = 'std::u8string_view(b, n)'
    out = [('u8string_view', LAM % ('vh::%s(%s(%s), b, o);' % (put, obj, sv))),
           ('u8string_view lvalue', LAM % ('auto s = %s; auto r = %s(s); vh::%s(r, b, o); vh::u8_walk(b, n, o);' % (sv, obj, put))),
           ('utf8_range', LAM % ('vh::%s(%s(ctre::utf8_range(%s)), b, o);' % (put, obj, sv))),
           ('utf8 iterators', LAM % ('ctre::utf8_range u(%s); vh::%s(%s(u.begin(), u.end()), b, o);' % (sv, put, obj)))]
    if put == 'u8_range':
        out.append(('u8 pipe', LAM % ('vh::%s(%s | %s, b, o);' % (put, sv, obj))))
    return out


def run(c):
    c.rule = RULE + '; here subjects are encoded as UTF-8 and the offsets of the result are converted back to code points'
    c.assumptions = ['subjects are well formed (surrogates are not encoded); malformed ones are part of C13', 'a std::u8string which is not a view is matched by its code units and not part of this']
    e = Engine(c, random_subjects=c.scale(160, 400), exhaustive=250, prelude=PRE, per_tu=12)
    known_findings(e)
    w = '\u00e9\u0080\u07ff\u0800\u0416\u6f22\ud7ff\ue000\ufffd\uffff\U00010000\U0001F600\U0010FFFF'
    profs = [(Profile(alphabet='ab\u00e9', wide=w, w=dict(look=6, anchor=7, wordb=4, cap=14, atomic=4, bref=4, set=14), depth=3, names=10), 0.6, 30),
             (Profile(alphabet='a\u6f22', wide=w, extra='bA0 \n', w=dict(set=30, cap=14, any=12, cls=12), quant=55), 0.25, 24),
             (Profile(alphabet='ab', extra='cAB01_ -\n', w=dict(look=14, bref=10, cap=14, anchor=8)), 0.15, 34)]
    n = c.scale(520, 6000)
    cases = []
    for prof, share, ml in profs:
        for node, text, _ in patterns(c, prof, int(n * share), ml):
            ops = []
            for k in ('match', 'search', 'starts_with', c.rng.choice(['search_all', 'tokenize', 'split'])):
                fl = FL_ML if c.rng.random() < 0.2 else 0
                fl |= FL_CI if c.rng.random() < 0.15 else 0
                obj = 'ctre::%s%s<%%p%s>' % ('multiline_' if fl & FL_ML else '', k, ', ctre::case_insensitive' if fl & FL_CI else '')
                put = 'u8_range' if k in ('search_all', 'tokenize', 'split') else 'u8_single'
                name, fn = c.rng.choice(forms(obj, put))
                c.count(name)
                ops.append(op(k, fl, 0, fn, k + ' of ' + name))
            cases.append(Case(cps(text), ops, 8, node))
    e.report(e.run(cases))
    e.take()
    # char8_t is there in C++17 as well
    for cxx in ('g++', 'clang++-18'):
        e2 = Engine(c, cfg=Config(cxx, 'c++17', '-O1', extra=['-fchar8_t']), random_subjects=c.scale(80, 200), exhaustive=120, prelude=PRE, per_tu=12)
        known_findings(e2)
        part = c.rng.sample(cases, len(cases) // 6)
        e2.report(e2.run(part))
        e2.take()
