"""A program which imports the module gets what a program which includes the headers gets."""
from checks.pat import *
from checks.c10 import variants
from checks.c11 import forms, back
from checks import c17
from vlib.core import ModuleBroken
from vlib import module, ucd

HEAD = '#include <string>\n#include <string_view>\n#include <vector>\n#include <optional>\n#include <type_traits>\n#include <sstream>\n#include "forms.hpp"\n%simport ctre;\n'
PRE = HEAD % ''
FN = '''[](const void * q, size_t n, VOut * o) { const char * b = static_cast<const char *>(q); auto r = %s; vh::put_result(r, b, o);
	if (r) { if (r.size() != r.to_view().size() || r.to_string() != r.str() || r.to_view() != std::string_view(r) || !(r == r.to_view())) vh::note(o, 5, "conversions of a result differ");
	static std::ostringstream os; os.str(""); os << r << '|' << r.template get<0>(); if (os.str() != r.to_string() + "|" + r.to_string()) vh::note(o, 8, "what is written to a stream differs"); } }'''
MULTI = '''[](const void * q, size_t n, VOut * o) { const char * b = static_cast<const char *>(q); std::vector<std::string_view> v{std::string_view(b, n), std::string_view(b, n)};
	int k = 0; auto m = ctre::%s<%%p>(std::string_view(b, n)); vh::put_result(m, b, o); for (auto & r: v | ctre::%s<%%p>) { ++k; if (!r || r.begin() != m.begin() || r.end() != m.end()) vh::note(o, 6, "a subject of a range has another result"); }
	if (k != (m ? 2 : 0)) vh::note(o, 7, "a range of subjects has another number of results"); }'''


def calls(c, kind, fl):
    """the ways a program asks for one result"""
    ml, ci = fl & FL_ML, fl & FL_CI
    mods = (['ctre::multiline'] if ml else []) + (['ctre::case_insensitive' if c.rng.random() < 0.5 else 'ctre::ci'] if ci else [])
    obj = 'ctre::%s<%s>' % (kind, ', '.join(['%p'] + mods))
    sv = 'std::string_view(b, n)'
    out = [('call', FN % (obj + '(b, b + n)')), ('view', FN % (obj + '(%s)' % sv))]
    if ml and not ci:
        out.append(('multiline function', FN % ('ctre::multiline_%s<%%p>(%s)' % (kind, sv))))
    if not fl:
        out += [('ctre::re', FN % ('ctre::re<%%p>().%s(%s)' % (kind, sv))), ('method', FN % ('ctre::%s<%%p>.%s(%s)' % (c.rng.choice(['match', 'search']), kind, sv))),
                ('range of subjects', MULTI % (kind, kind))]
    return out


def run(c):
    c.rule = RULE + '; here each operation is called by a program which imports the module ctre'
    c.assumptions = ['clang++ 18; the module std is a stand-in which exports the names of namespace std the library uses, as the installed libraries have none',
                     'the module exports the flags, ctre::re and the pipes since a repair (see known_findings.jsonl)']
    cfg = Config('clang++-18', 'c++20', header='import')
    try:
        e = Engine(c, cfg, prelude=PRE, random_subjects=c.scale(120, 300), exhaustive=150, per_tu=12)
    except ModuleBroken as x:
        errs = [l for l in str(x).splitlines() if 'error' in l]
        c.coverage['compile_error'] = errs[:3]
        c.violation('module', 'the module ctre does not compile: ' + '; '.join(errs[:2])[:500], dict(check_replay=True))
        return
    r = c.rng
    cases = []
    profs = [(Profile(w=dict(look=6, bref=4, atomic=3, anchor=8, wordb=5, cap=14), depth=3, names=25), 0.6, [1]),
             (Profile(w=dict(look=4, anchor=6, cap=10, set=14), depth=3, alphabet='ab\u00e9', wide='\u00e9\u0416\u6f22'), 0.4, [4, 4, 2, 14])]
    n = c.scale(300, 3000)
    for prof, share, units in profs:
        for node, text, _ in patterns(c, prof, int(n * share), 34):
            unit = r.choice(units)
            names, _ = name_table(node)
            ops = []
            for kind in r.sample(['match', 'search', 'starts_with'], 2):
                fl = r.choice([0, 0, FL_ML, FL_CI, FL_ML | FL_CI])
                if unit == 1:
                    name, fn = r.choice(calls(c, kind, fl))
                    c.count(name)
                    ops.append(op(kind, fl, 0, fn, '%s: %s' % (kind, name)))
                else:
                    ops.append(op(kind, fl, r.randrange(6)))
            if names and unit == 1:
                ops.append(named_op('search', names))
            kind = r.choice(['search_all', 'tokenize', 'split'])
            fl = r.choice([0, 0, FL_ML])
            name, fn = r.choice(variants(kind, unit, fl))
            c.count('%s: %s' % (kind, name))
            ops.append(op(kind, fl, 0, fn, '%s %s' % (kind, name)))
            t = {1: 'char', 4: 'char32_t', 2: 'char16_t', 14: 'wchar_t'}[unit]
            name, fn = r.choice(forms(t, 'vh::single', not back(node), any(x.k == 'look' and x.a[0] for x in walk(node))))
            c.count(name)
            ops.append(op('search', 0, 0, '[](const void * q, size_t n, VOut * o) { %s(ctre::search<%%p>, static_cast<const %s *>(q), n, o); }' % (fn, t), 'search of ' + name))
            cases.append(Case(cps(text), ops, unit, node, decl=name_decl(names) if names else None))
    r.shuffle(cases)
    e.report(e.run(cases))
    e.take()
    c17.inside(c, ucd.Ucd(), cfg, c.scale(60, 600), PRE, False)      # the module has the properties of Unicode


def replay(c, d):
    m = module.build(c, Config('clang++-18', 'c++20', header='import'))
    if isinstance(m, str):
        print(m[:1500])
        return True
    return False
