import json, glob, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = r'''# Design

Family: property-based testing and fuzzing. Nothing here is a proof: every check is a seeded, deterministic
search over generated inputs against an explicit oracle. No property is decided in another way and none is listed
as not applicable.

The library is header-only C++ template code: a *pattern* is a program (it is parsed and turned into types while
compiling) and a *subject* is an input of that program. So each check generates **programs** (translation units with
some dozens of patterns, compiled against /repo's headers as they are in the working tree at that moment) and runs
these on **generated subjects**. There are no hooks in /repo: everything is observed at the public interface.

## Machinery

* `lib/refre.hpp`: reference model of the dialect. A recursive descent parser written from the documented syntax (with
  the position of the first character which cannot continue a pattern) and a backtracking matcher over continuations.
  It shares no code and no algorithm with the library (no first sets, no possessive optimisation, no types). `full`
  switches to the plain backtracking of PCRE, which allows to recognise where the dialects differ.
* `lib/driver_pcre.cpp`: a second, unrelated oracle: PCRE2 10.42 (C24). The model itself was compared with PCRE2 on
  about 8 million evaluations of generated patterns and on 115 000 mutated pattern texts (scratch work, not a check);
  every difference found is one of the documented ones.
* `vlib/ucd.py`: Unicode data from the Perl installed here (15.0) reduced to Unicode 14 by age and checked against Python.
* `vlib/gen.py`: seeded generator of pattern syntax trees with profiles (weights of constructs, alphabet, depth,
  quantifiers, names, escapes, mode prefixes), rendering, and reductions for shrinking. `in_domain` and the reference
  grammar bound what is generated (see the exclusions below); a generator which leaves the domain in more than 10 % of
  its patterns ends the check without a verdict.
* Generators which enumerate shapes the random trees hit too rarely: `small_scope` (all sequences of two or three small
  quantified atoms), `small_alternations`, `headed` (patterns whose ways begin with an anchor, or some of them),
  `disjoint_case` (repetitions followed by what cannot begin with their characters).
* Subjects (in `lib/driver.hpp`, generated at run time in C++): all short strings over the relevant characters of the
  pattern, strings derived from the syntax tree (so that they match or nearly match), mutations of them, and long ones
  (120 to 700 characters); for characters classes all single units.
* `lib/driver.hpp`: runs each operation in a forked worker, with the subject between inaccessible pages and a CPU limit,
  so that a crash or a hang is attributed to its input; compares spans of all captures of all results with the oracle.
* `vlib/engine.py`: builds units with precompiled headers on 8 cores; a unit which does not compile is bisected to the
  pattern; every failure is confirmed three times in fresh programs, then the subject and the pattern are shrunk. The
  smallest failing case becomes the replay file below `evidence/replay`, replayed by `vlib/replay.py`.
* Evidence: number of evaluations, number of non-trivial ones (the subject is not empty and the oracle matches a
  non-empty text or needs more than three steps per position to refuse), classes of constructs, samples.

A quick run takes 20 to 250 s (all 8 cores), a thorough run 10 to 15 times the patterns and two to three times the
subjects. The seed is `VERIF_SEED` (1 if absent).

## Why this reaches what the tests do not

The tests are about 4500 constants, nearly all single `static_assert`s of a fixed pattern with a fixed short string view.
The library is a set of overloads selected by neighbouring atoms: whether the greedy optimisation, the anchored
search, the merging of neighbouring repetitions, the rotation of a lookbehind or a run-time path applies depends on the
*combination*. The repairs below (all found by these checks on the original tree) show what this means.

## The properties

'''
props = {
'C01': ('900 patterns (12 000 thorough) of three generators, all four unit types, 300 subjects each, three operations', 'reference model', 'Random trees over every construct; alternatives of which some can be empty; wide characters.'),
'C02': ('880 patterns with up to 40 groups', 'reference model (spans of every capture); for named groups numbered, named (literal and fixed_string) access of the same result', 'Nested, repeated and alternative captures; ways which are given up.'),
'C03': ('950 patterns in three builds (default, CTRE_DISABLE_GREEDY_OPT, CTRE_MSVC_GREEDY_WORKAROUND)', 'reference model', 'Sequences of two or three quantified small atoms (sampled at quick, enumerated in large part at thorough), counted repetitions, nullable content.'),
'C04': ('about 900 patterns rich in anchors', 'reference model', '`headed` patterns, multiline by prefix and by flag, subjects rich in newlines.'),
'C05': ('about 700 patterns rich in lookarounds', 'reference model', 'Nested and repeated lookarounds; lookbehinds whose content has repetitions, sequences, anchors, atomic groups.'),
'C06': ('about 700 patterns, each with a backreference', 'reference model', 'All five notations, up to 16 groups, unset groups, case insensitive mode.'),
'C07': ('about 600 patterns with flags and switches', 'reference model', 'Letters at the ends of ranges, @[`{, wide letters which no mode may fold, switches combined with flags.'),
'C08': ('about 900 set expressions in five unit types', 'definition in the model', 'Exhaustive over the single characters: all 256 values of char types, 0..0x3100 and the neighbourhood of every bound for wide types.'),
'C09': ('about 12 800 strings', 'recursive descent grammar of the model, including the position of the refusal', 'All strings of up to two of 40 tokens, every printable character (plain and escaped) in each of 50 places of the syntax, longer random strings, mutated and truncated patterns; a failure inside of the parser (hard error) is a violation.'),
'C10': ('900 patterns, whole iterations in ten notations', 'reference model of the iteration; laws of forward iterators (copies, post increment, equality with the end, second pass)', 'Separators which look around, empty pieces, pieces at both ends.'),
'C11': ('about 500 patterns, 25 representations (lib/forms.hpp)', 'reference model', 'Deques, lists, forward lists, sentinels of other types, zero terminated pointers, user defined strings, all unit types.'),
'C12': ('440 patterns at run time in four configurations; 1500 constant evaluations with two compilers, about 90 of them of subjects of 120 to 520 characters', 'reference model', 'g++ and clang++, C++17 and 20, -O0 to -O3; static constants, which also show undefined behaviour.'),
'C13': ('about 900 patterns under AddressSanitizer, UBSan, checked iterators and guard pages', 'checked iterators (lib/chk.hpp): any read outside of [begin, end) or step outside of it', 'Any bytes as UTF-8, zero terminated subjects with nothing behind, all operations.'),
'C14': ('about 800 counted patterns, 170 with subjects of 1.5 million characters, 4800 anchored searches', 'step count of the model (at most 40 operations per step), 8 MiB of stack, CPU limit; an anchored search looks at a bounded number of positions', 'Nested and empty repetitions, repeated references to what may be empty and atomic groups; repetitions and what follows them from disjoint characters; anchors nested in captures, alternatives, repetitions.'),
'C15': ('520 patterns over UTF-8', 'reference model on the code points, offsets mapped', 'All lengths of encodings; u8string_view, utf8_range, utf8_iterator pairs; the decoding iterator is walked in both directions; C++17 with char8_t as well.'),
'C16': ('12 million decodings, 250 patterns in every notation', 'the code points which were encoded', 'All code points one by one, pairs, random sequences in UTF-8, UTF-16, UTF-32 and wide literals, arrays, std::array.'),
'C17': ('750 property expressions, each on all 1 114 112 code points and 70 000 values beyond; 500 names; 340 patterns with properties', 'Unicode 14 data of Perl', 'Eleven notations (negated, in sets, in groups); near misses of names.'),
'C18': ('about 500 patterns with every conversion and comparison, numbers of eight types in four bases', 'a plain copy of the matched elements; an own reading of std::from_chars', 'Unmatched, empty and wide captures, limits of numbers, containers which are not contiguous.'),
'C19': ('about 600 pipelines and compositions', 'the operation applied to each subject; the model for compositions', 'Ten containers and views of subjects, empty subjects, splits as subjects.'),
'C20': ('all of the above, smaller, on the single headers', 'reference model, Unicode data', 'ctre.hpp with g++, with clang++ C++17, ctre-unicode.hpp; every class on every character; syntax and positions; 150 properties.'),
'C21': ('all functions and enumerators of unicode-db.hpp on all code points, nine orders of includes', 'Unicode 14 data of Perl', 'Run time and constant expressions beside every boundary; values beyond the code points.'),
'C22': ('330 generated LL(1) grammars, 9000 inputs', 'stack machine in Python', 'Rules on terminals, ranges, sets, negated sets, anything, the end; quick rules (pop_input and pushes), actions which refuse, ignored actions; long inputs.'),
'C23': ('2800 histories, 100 000 operations', 'Python list', 'Equal, derived and convertible types; both compilers, C++17 and C++20, static assertions.'),
'C24': ('900 patterns, 150 000 subjects', 'PCRE2 10.42', 'Everything both dialects share; no opinion where a documented difference could matter.'),
'C25': ('about 90 large patterns', 'reference model', 'Long literals, alternations, sets, deep groups, many captures, large counts, long names.'),
'C26': ('2.5 million steps in histories of 400, 260 patterns, six pools per program; a fifth of the programs with four threads under ThreadSanitizer', 'lists of spans by the reference model', 'Ranges, iterators, results: made, copied, moved, assigned, swapped, incremented (also at the end), compared, read long after, dropped; strings, vectors and lists as subjects.'),
'C27': ('about 300 patterns and 60 with Unicode properties in programs which import the module', 'reference model', 'All operations, flags and documented ways to call them; strings, views, containers and iterators as subjects; named captures; conversions and streams.'),
'C28': ('about 350 combinations of two to five regexes', 'reference model on the pattern written as a whole', 'ctre::re and literals joined by | and >> in random trees; six operations, two modes.'),
}
extra_props = {}
P = [json.loads(l) for l in open(V+'/properties.jsonl')]
out = [text]
for p in P:
    g = props[p['id']]
    out.append('### %s %s\n\n%s\n\n* Cases (quick): %s.\n* Oracle: %s.\n* Generator: %s\n* Why tests cannot settle it: %s\n' % (p['id'], p['title'], p['statement'], g[0], g[1], g[2], p['why_tests_cant']))
out.append(r'''
## What is not claimed

Patterns and uses outside of the domain of every property (the library gives no usable promise there, or the reading is
ambiguous): mode switches anywhere but at the front of a pattern; duplicate group names; a repetition of a lookaround
or anchor without any consuming item combined with possessive neighbours of the same content; ill-formed encodings of
*patterns*; std::u8string matched by code units; properties together with `(?i)`; `\p{C}`, `\p{Cn}`, `Zzzz`, unknown
scripts beyond U+10FFFF (no code points); the order of script extensions; `cp_script_is`, declared and never defined; raw arrays as
ranges of subjects; negated sets which are unsorted are not optimised, neither is an alternation with an *empty*
alternative in front of an anchor (`(|^a)^b`; only the work differs); Unicode names the library does not know.

## Genuine defects

Found on the original tree by these checks. Repaired in /repo by a `fix:` commit each ('fixed' lines of known_findings.jsonl):

''')
fixed=[]; known=[]
for l in open(V+'/known_findings.jsonl'):
    l=l.strip()
    if l.startswith('fixed:'):
        pr,h,w = l[len('fixed: property='):].split(' ',2); fixed.append((pr,h,w))
    elif l: known.append(json.loads(l))
for f in sorted(fixed): out.append('* %s %s: %s\n' % f)
out.append('\nRecorded, not repaired (a repair is not small: it would change the shape of the engine, or the documented choice of semantics). The check replays the listed input, prints KNOWN-FINDING, and excludes exactly the construct from its generator:\n\n')
for k in known: out.append('* %s `%s`: %s\n' % (k['property'], k.get('pattern') or k.get('code','')[:60], k['what']))
out.append(r'''
* C01, iteration-final: the engine evaluates the content of a repetition on its own and then continues (`repeat`), so
  `(?:a|ab)*c` does not go back into a finished iteration. All other checks use this semantics (documented in the
  statement of C01); C24 recognises these cases by running the model with plain backtracking beside it.
* C03 `{0}`: the bound zero means "no bound" in the type encoding of repetitions (`repeat<0, 0, ...>`).
* C10: an empty match makes no progress; the results up to it are compared.

## False alarms corrected while building

* The model first let an empty iteration count as progress; the dialect requires that an iteration beyond the minimum
  consumes something. The library is consistent here, the model was changed.
* Script extensions are compared as sets (their order is not specified).
* The greedy and lazy forms of the same nullable content next to each other are merged by the library; only the captures
  inside could tell. Excluded by `in_domain` for exotic contents.
* PCRE2 10.42 makes the repetition of `/\h?\S/` possessive although both match U+00A0: its optimisations are switched off (C24).
* Iterations with more spans than a record has room for were compared as if the record was complete: their begin is compared.
* Clang's limits (`-fbracket-depth`, `-fconstexpr-steps`, template depth) looked like differences between compilers: raised.
* Steps: the bound of C14 was first measured in time, which depends on the load; now in operations of checked iterators.
* Workers ended by the memory guard or the CPU limit of a loaded machine are no findings: a crash has to be confirmed
  three times in fresh programs, and SIGKILL is never one.
* `\0` followed by digits is octal in PCRE and not in this dialect (documented as unsupported): C24 does not ask there.

## Planted bugs

`seeded/<id>`: each compiles, passes the stable tests and breaks the property named; written from the property and the
code. All are caught by the quick check of their property with seed 1.

''')
late = dict(l.split(':',1) for l in '''c11-wide-zero: characters whose low byte is zero were added to the subjects
c14-negative: negated sets with ranges and what follows them (`disjoint_case`)
c14-capture-anchor: anchored searches with anchors in captures
c14-anchor-named: alternatives of zero width in front of anchors
c01-search-last: zero terminated subjects and zero characters at the end
c04-anchor-optional: `headed` patterns with lazy optional heads
c05-rotate-atomic: atomic groups inside of lookbehinds
c09-set-range-escape: every escaped character in every place of a set
c12-runtime-length: subjects of 120 to 700 characters in every driver
c20-vertical: every class of characters through the single headers
c24-bref-named: patterns which must have a named or numbered backreference
c24-lookahead-capture: patterns with captures in lookaheads
c25-long-name: long names with common stems, access by name
c26-range-temp: what a post-increment gave is kept and used further
c12-const-length: long subjects in constant expressions
c14-empty-reference: patterns which repeat backreferences and atomic groups
c27-stream: results written to streams by the importing program
c22-reject-position: longer inputs and refusals late in them'''.splitlines())
for d in sorted(glob.glob(V+'/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    out.append('* `%s` (%s): %s: %s. Caught%s.\n' % (i, m['property'], m['needs'], m['what_it_breaks'], ' after strengthening:'+late[i] if i in late else ''))
out.append('''
Written and given up, because the existing tests notice them or they only touch lines of the fix commits: an age off by one
(c21-age), a negated set of grammar symbols (c22-neg), the end of a lookbehind (c05-lookbehind-end), the sign of char
comparisons, the count of captures.

## Tools

`tools/meta.py` writes properties.jsonl and MANIFEST.json, `tools/design.py` this file, `tools/plant.py` builds and
tries planted bugs in scratch copies, `tools/setup.py` (setup_cmd) looks whether the tools are there.
''')
open(V+'/DESIGN.md','w').write(''.join(out))
