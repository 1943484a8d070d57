#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EV = dict(name='evaluation of atoms by recursion with a continuation list', where='include/ctre/evaluation.hpp: evaluate')
PARSE = dict(name='LL(1) parsing of the pattern into types', where='include/ctre/pcre_actions.hpp and include/ctre/actions/*.inc.hpp')
INP = ['inputs', 'programs']
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique, state=state, observe=observe))


REFTECH = 'property-based testing: seeded generator of pattern syntax trees, subjects exhaustive up to a small length plus derived from the tree and mutated, compared with an independent reference matcher; failing subject and pattern are shrunk'
REFNOTE = 'Exploration: nothing is proved. '
E_HPP = 'include/ctre/evaluation.hpp'
W_HPP = 'include/ctre/wrapper.hpp'

prop('C01', 'match, search and starts_with agree with the leftmost backtracking semantics',
     'For every accepted pattern and every subject, match succeeds exactly when the whole subject is in the language of the pattern, search finds the leftmost position from which the pattern matches, and starts_with matches only at the beginning. The reported range is the one which the ordered choice of alternatives and the greediness of repetitions give (each finished iteration of a repetition is final). A pattern of the documented syntax always compiles.',
     INP, 'Every pattern of the documented dialect, every subject of char, wchar_t, char16_t and char32_t units.',
     'The tests evaluate a fixed list of (pattern, subject) pairs; the engine is a set of template overloads whose interactions depend on the neighbouring atoms of a pattern and on the subject.',
     [E_HPP, W_HPP, 'include/ctre/pcre_actions.hpp', 'include/ctre/atoms.hpp'], [EV, dict(name='search loop over start positions', where='include/ctre/wrapper.hpp: search_method'), PARSE],
     REFNOTE + 'About 900 patterns with 300 subjects each at quick tier, 12000 at thorough.', REFTECH)
prop('C02', 'Captures report exactly what their group matched last',
     'After a successful match every capture, numbered by its opening parenthesis and reachable by its number or by its name, holds the range which its group matched last on the way taken through the pattern. Captures set on ways which were given up are restored, and captures of groups which took no part and of failed results are unmatched.',
     INP, 'Every pattern with numbered or named captures inside of sequences, alternatives, repetitions, atomic groups and lookaheads, every subject.',
     'Stale or lost captures appear only for particular combinations of nesting, backtracking and subject.',
     ['include/ctre/return_type.hpp', 'include/ctre/find_captures.hpp', 'include/ctre/actions/capture.inc.hpp', E_HPP], [dict(name='capture storage and its selection by number or name', where='include/ctre/return_type.hpp: captures, regex_results::get'), dict(name='collection of the captures of a pattern', where='include/ctre/find_captures.hpp'), EV],
     REFNOTE + 'Up to 30 groups; captures inside of lookbehind are excluded.', REFTECH)
prop('C03', 'Repetitions and their optimisations keep the semantics of the written pattern',
     'For every pattern with greedy, lazy or possessive repetitions (*, +, ?, {n}, {n,}, {n,m}) the result is that of trying the iterations one by one within the bounds: greedy prefers more, lazy fewer, possessive never gives back. Turning greedy repetitions possessive by looking at what follows, and merging of neighbouring repetitions, never change a result; disabling the optimisation gives the same results.',
     ['inputs', 'programs', 'configurations'], 'Every pattern with repetitions, every subject, with the optimisation and with it disabled.',
     'Whether the optimisation applies depends on the first characters of everything behind the repetition, which tests only sample.',
     [E_HPP, 'include/ctre/first.hpp', 'include/ctre/actions/fusion.inc.hpp', 'include/ctre/actions/repeat.inc.hpp'], [dict(name='calculation of first characters and of collisions', where='include/ctre/first.hpp: calculate_first, collides'), dict(name='merging of repetitions', where='include/ctre/actions/fusion.inc.hpp'), dict(name='repeat, lazy_repeat, possessive_repeat', where=E_HPP)],
     REFNOTE + 'All sequences of two quantified small atoms are sampled at quick and enumerated in part at thorough tier; three builds (default, CTRE_DISABLE_GREEDY_OPT, CTRE_MSVC_GREEDY_WORKAROUND).', REFTECH + '; sequences of quantified small atoms are enumerated')
prop('C04', 'Anchors, boundaries and multiline mode hold exactly at their positions',
     'For every pattern and subject ^ and $ hold at the beginning and the end of the subject and, in multiline mode only, also behind and in front of a newline; \\A, \\z and \\Z are not affected by line starts. \\b holds exactly between a word and a non-word character (the outside counts as non-word), \\B exactly where \\b does not, and the dot refuses a newline only in multiline mode. The anchors keep their meaning inside of alternatives, repetitions and lookarounds and never stop a search too early.',
     INP, 'Every pattern with anchors, word boundaries or dots, every subject, with and without multiline.',
     'Anchors interact with the search loop (which stops early for anchored patterns), with first character sets and with lookarounds.',
     [E_HPP, 'include/ctre/starts_with_anchor.hpp', 'include/ctre/actions/asserts.inc.hpp', 'include/ctre/actions/boundaries.inc.hpp'], [dict(name='assertions', where=E_HPP), dict(name='detection of anchored patterns', where='include/ctre/starts_with_anchor.hpp'), dict(name='multiline flag', where='include/ctre/flags_and_modes.hpp')],
     REFNOTE + 'Patterns with a high share of anchors over subjects with many newlines.', REFTECH)
prop('C05', 'Lookaheads and lookbehinds test without consuming',
     'For every pattern, a positive or negative lookahead holds exactly when its content matches, or does not match, from the current position, and a lookbehind exactly when some text which ends at the current position matches its content, looking back no further than the beginning of the subject. Neither of them consumes anything, and only captures of positive lookaheads are kept.',
     INP, 'Every pattern with lookarounds, nested, repeated and combined with anchors, every subject.',
     'A lookbehind runs a rotated pattern over reversed iterators; whether the rotation is right depends on the shape of the content.',
     [E_HPP, 'include/ctre/rotate.hpp', 'include/ctre/actions/look.inc.hpp'], [dict(name='rotation of the content of a lookbehind', where='include/ctre/rotate.hpp'), dict(name='lookaround evaluation', where=E_HPP)],
     REFNOTE + 'Content of a lookbehind is without captures, backreferences, atomic groups; repeated parts have a fixed length.', REFTECH)
prop('C06', 'Backreferences match exactly the text of the referenced capture',
     'A backreference by number, by relative number or by name matches exactly the characters which the referenced capture holds at that moment (in case insensitive mode regardless of ASCII case), and fails when that capture is unmatched.',
     INP, 'Every pattern with backreferences to closed groups, every subject.',
     'The referenced text depends on the way taken; tests contain a few fixed cases.',
     ['include/ctre/actions/backreference.inc.hpp', E_HPP], [dict(name='number resolution', where='include/ctre/actions/backreference.inc.hpp'), dict(name='back_reference evaluation', where=E_HPP + ': match_against_range')],
     REFNOTE + 'Up to 16 groups, all five notations.', REFTECH)
prop('C07', 'Case insensitive mode ignores exactly the case of ASCII letters',
     'In case insensitive mode every literal, range, class and backreference accepts a character exactly when it accepts that character or the same ASCII letter in the other case; negated sets refuse exactly the others, and non-letters are not affected. A mode switch at the front of a pattern has the same effect as the matching flag of the call and takes precedence over it.',
     INP, 'Every pattern, every subject, flags given with the call or as a switch.',
     'The case folding is written several times, for characters, ranges, sets and strings; each has to agree for all characters.',
     ['include/ctre/atoms_characters.hpp', 'include/ctre/flags_and_modes.hpp', 'include/ctre/actions/mode.inc.hpp'], [dict(name='case insensitive comparison', where='include/ctre/atoms_characters.hpp'), dict(name='flags and mode switches', where='include/ctre/flags_and_modes.hpp')],
     REFNOTE + 'Switches only at the front of a pattern without top level alternatives.', REFTECH)
prop('C08', 'Character classes and sets contain exactly their characters',
     'Every class escape, named class, range, set, negated set and the dot accepts exactly the characters of its definition, for each code unit or code point of the subject, including the bounds, characters outside of ASCII and code units of a signed character type.',
     INP, 'Every set expression, every single character of the subject type.',
     'Off by one bounds and characters outside of the tested handful are invisible to the examples of the tests.',
     ['include/ctre/atoms_characters.hpp', 'include/ctre/actions/set.inc.hpp', 'include/ctre/actions/class.inc.hpp', 'include/ctre/actions/named_class.inc.hpp', 'include/ctre/actions/characters.inc.hpp'], [dict(name='match_char of the character-like atoms', where='include/ctre/atoms_characters.hpp'), dict(name='set construction', where='include/ctre/actions/set.inc.hpp')],
     REFNOTE + 'All 256 values of char, all code points below 0x3100 plus the neighbours of every bound for char32_t.', 'property-based testing: generated set expressions, exhaustive over the single character subjects, against the definition in the reference model')
prop('C09', 'The parser accepts exactly the documented syntax',
     'Every string of the documented regular expression dialect is accepted as a pattern, every other string is rejected, and neither makes the parser fail in another way. For a rejected pattern the reported position is that of the first character which cannot continue the pattern.',
     ['inputs', 'programs'], 'Every string of Unicode characters as a pattern.',
     'The grammar is a table of thousands of entries with one lookahead character; a missing or surplus entry affects only a particular pair of neighbouring characters.',
     ['include/ctre/pcre.hpp', 'include/ctll/parser.hpp', 'include/ctre/pcre_actions.hpp', 'include/ctre/actions/hexdec.inc.hpp', 'include/ctre/actions/properties.inc.hpp'], [dict(name='LL(1) table', where='include/ctre/pcre.hpp'), dict(name='parser with lookahead and position', where='include/ctll/parser.hpp'), PARSE],
     REFNOTE + 'All strings of up to two of 40 syntax tokens, thousands of longer ones and mutations of valid patterns.', 'property-based testing: exhaustive short token strings, random token strings, mutated and truncated generated patterns, against a handwritten recursive descent parser as the reference')
prop('C10', 'Iterations partition the subject exactly as repeated searches',
     'search_all gives the matches found one after another, each search starting where the previous match ended; tokenize gives the consecutive matches from the beginning until the first position where the pattern does not match; split gives the pieces between the matches, including empty ones. The results are the same for each way to write the iteration (range, pipe, iterator with sentinel, method), iterators obey the laws of forward iterators, and a second pass gives the same results.',
     INP, 'Every pattern and subject for which the matches make progress.',
     'The state of an iterator after a match, at the end and after an empty piece depends on the whole history of the iteration.',
     ['include/ctre/iterators.hpp', 'include/ctre/range.hpp', W_HPP], [dict(name='regex_iterator, regex_split_iterator', where='include/ctre/iterators.hpp'), dict(name='ranges', where='include/ctre/range.hpp'), dict(name='method objects', where=W_HPP)],
     REFNOTE + 'Patterns which find an empty match never end (known finding); results up to it are compared.', REFTECH + '; operations are whole iterations checked step by step against the laws of forward iterators')
prop('C11', 'The result does not depend on how the subject is represented',
     'The same characters give the same result whether they are passed as a string, a view, a zero terminated pointer, a container, a pair of iterators, an iterator with a sentinel of another type or a user defined string, for random access, bidirectional and forward iterators alike, and for every character type.',
     INP, 'Every pattern, every subject, every supported representation of it.',
     'Each representation selects other overloads and iterator operations; tests use string views nearly exclusively.',
     [W_HPP, 'include/ctre/utility.hpp', 'include/ctre/return_type.hpp', E_HPP, 'include/ctre/range.hpp'], [dict(name='overloads for ranges, iterators, zero terminated strings', where=W_HPP), dict(name='begin/end and sentinels', where='include/ctre/iterators.hpp')],
     REFNOTE + 'About 25 representations; forward iterators only with patterns which never look back.', REFTECH + '; each operation gets the subject in a randomly chosen representation')
prop('C12', 'Constant evaluation, compilers, standards and optimisation agree',
     'For every pattern and subject the result of an evaluation at compile time equals the result at run time, and is the same for each supported compiler, language standard and optimisation level. Whatever can be evaluated at run time is a constant expression for a constant subject.',
     ['inputs', 'programs', 'configurations'], 'Every pattern and subject, constant evaluation and run time, g++ and clang++, C++17 and C++20, several optimisation levels.',
     'Constant evaluation and run time take different overloads and undefined behaviour is only visible in one of them; the tests check constants nearly exclusively.',
     [W_HPP, E_HPP, 'include/ctre/return_type.hpp', 'include/ctll/fixed_string.hpp'], [EV, dict(name='constexpr wrappers', where=W_HPP)],
     REFNOTE + 'g++ 13 and clang++ 18.', 'property-based testing: generated patterns with model-chosen subjects as static constants compared with the model, differential over compilers, standards and optimisation levels at run time')

prop('C13', 'Evaluation never reads or steps outside of the subject',
     'For every pattern, operation and subject the library reads only characters inside of the subject and moves iterators only between its begin and its end. This holds as well for UTF-8 subjects with truncated or otherwise ill-formed sequences, and for zero terminated subjects, where nothing behind the terminator is read.',
     INP, 'Every pattern, every operation, every subject, including arbitrary bytes as UTF-8.',
     'A read past the end usually finds mapped memory and an unchanged result; the tests evaluate with plain pointers and mostly in constant expressions.',
     [E_HPP, 'include/ctre/iterators.hpp', 'include/ctre/utf8.hpp', 'include/ctre/starts_with_anchor.hpp', W_HPP], [EV, dict(name='UTF-8 decoding iterator', where='include/ctre/utf8.hpp: utf8_iterator'), dict(name='stepping back for lookbehind and boundaries', where=E_HPP)],
     REFNOTE + 'Checked iterators (forward, bidirectional, random access) for code units, guard pages for pointers and UTF-8.', 'property-based testing: generated patterns and subjects, damaged UTF-8 included, on iterators which check each access and on memory beside guard pages; the results are compared with the reference model where the text is well-formed')
prop('C14', 'Evaluation ends, without wasted work and without exhausting the stack',
     'Every evaluation ends, and its number of iterator operations is bounded by a constant multiple of the steps of ordered backtracking. A search for a pattern each way of which begins with ^ or \\A tries the begin of the subject only. A repetition which cannot collide with what follows it, a possessive one or a lazy one of single characters needs a stack which does not grow with the subject.',
     INP, 'Every pattern and subject; for the stack all repetitions of single characters followed by something disjoint.',
     'A repetition which is no longer recognised as possessive, or work repeated for each position, gives the same result on the short subjects of the tests.',
     [E_HPP, 'include/ctre/first.hpp', W_HPP], [dict(name='possessive optimisation', where='include/ctre/first.hpp: collides'), dict(name='repeat loops', where=E_HPP), dict(name='early end of anchored searches', where='include/ctre/starts_with_anchor.hpp')],
     REFNOTE + 'At most 40 operations per model step; subjects of 1.5 million characters within 8 MiB of stack.', 'property-based testing: counting iterators compared with the step count of the reference model; generated repetitions on very long generated subjects in a process with a bounded stack and CPU time')
prop('C15', 'UTF-8 subjects are matched by code points',
     'A well-formed UTF-8 subject gives the same result as the sequence of its code points, with positions which lie on the boundaries of the encoded characters, for each operation and for each way to pass it. The decoding iterator obeys the laws of bidirectional iterators.',
     INP, 'Every pattern, every well-formed UTF-8 subject.',
     'Encoded lengths, boundaries and steps backwards depend on the surrounding bytes; the tests contain a few fixed texts.',
     ['include/ctre/utf8.hpp', W_HPP, 'include/ctre/return_type.hpp', 'include/ctre/iterators.hpp'], [dict(name='UTF-8 decoding iterator and range', where='include/ctre/utf8.hpp'), dict(name='overloads for u8string_view', where=W_HPP)],
     REFNOTE + 'u8string_view, utf8_range and pairs of utf8_iterator; std::u8string itself is matched by code units and is not claimed.', REFTECH + '; each subject is encoded as UTF-8 and the positions are mapped')
prop('C16', 'A pattern means the same in every encoding and notation',
     'The same pattern text gives the same regular expression whether it is written as a char, char8_t, char16_t, char32_t or wchar_t literal, as an array or as a fixed_string, and with each notation of the public interface. A well-formed UTF-8 or UTF-16 pattern is decoded to exactly its code points.',
     ['inputs', 'programs', 'configurations'], 'Every pattern text, every code point, every notation.',
     'The decoding has cases by length and range of the code point, of which the tests contain only a few.',
     ['include/ctll/fixed_string.hpp', 'include/ctre/literals.hpp', W_HPP], [dict(name='decoding of literals', where='include/ctll/fixed_string.hpp: basic_fixed_string'), dict(name='literal operators', where='include/ctre/literals.hpp')],
     REFNOTE + 'All code points one by one, pairs and random sequences; ill-formed encodings are not claimed.', 'property-based testing: exhaustive and random code point sequences decoded by the real constructors and compared with the input; generated patterns in every notation compared with the reference model')

prop('C17', 'Unicode properties contain exactly the code points of the Unicode database',
     'With the Unicode tables each \\p{name} and \\p{name=value} the library knows accepts exactly the code points which have this property in Unicode 14, \\P and negated sets exactly the others, anywhere a character may stand in a pattern. The case of the letters in names does not matter; a name or value which is unknown makes the pattern invalid.',
     INP, 'Every property name and value, every code point, every place in a pattern.',
     'The tables have tens of thousands of boundaries in several encodings of which the tests touch a few dozen.',
     ['include/unicode-db/unicode-db.hpp', 'include/ctre/atoms_unicode.hpp', 'include/ctre/actions/properties.inc.hpp', 'include/ctre/atoms_characters.hpp'], [dict(name='tables and their lookup', where='include/unicode-db/unicode-db.hpp'), dict(name='names of properties', where='include/ctre/actions/properties.inc.hpp'), dict(name='binary_property, property', where='include/ctre/atoms_unicode.hpp')],
     'The oracle is the Unicode database of the Perl and Python installed here, reduced to code points unchanged since Unicode 14. Properties combined with (?i) are not claimed.', 'property-based testing: generated property expressions evaluated for all code points and compared with an independent Unicode database; generated names near the known ones; generated patterns and subjects with properties against the reference model')

prop('C18', 'Results convert, compare and count as what they matched',
     'Whatever a result or capture converts to (view, string, optional, number, stream output), its size, data, named, numbered and structured access and its comparison with any text agree with the elements between its begin and its end. What is not matched is false, empty, unequal to every text, an empty optional and the number zero.',
     INP, 'Every pattern, every subject and its representation, every operation, each capture; every text for the numbers.',
     'The tests use a few of these on a few captures; how they behave on unmatched, empty or wide captures and at the limits of numbers is left open.',
     ['include/ctre/return_type.hpp', W_HPP], [dict(name='captured_content::storage', where='include/ctre/return_type.hpp'), dict(name='regex_results', where='include/ctre/return_type.hpp'), dict(name='result of a failed search', where='include/ctre/wrapper.hpp: search_method')],
     REFNOTE + 'Numbers against an independent reading of the specification of std::from_chars in four bases and eight types.', REFTECH + '; each conversion and comparison is recomputed from a plain copy of the matched elements; random texts for the numeric conversions')

prop('C19', 'Pipelines and compositions do what their parts do',
     'A range of subjects piped into match, search or starts_with gives, in the order of the subjects, the results of exactly those which match, whatever holds the subjects; the parts given by split, search_all or tokenize are subjects as well. Expressions composed with | and >> are the alternative and the sequence of what they are composed of.',
     INP, 'Every pattern and composition, every list of subjects and its container, each way to iterate.',
     'The tests do not pipe ranges of subjects and compose two expressions once; skipping, order and the end depend on which of the subjects match.',
     ['include/ctre/range.hpp', 'include/ctre/operators.hpp', W_HPP], [dict(name='multi_subject_range', where='include/ctre/range.hpp'), dict(name='operator| and operator>> of expressions', where='include/ctre/operators.hpp'), dict(name='methods of regular_expression', where='include/ctre/wrapper.hpp')],
     'The results of a pipeline are compared with those of the operation applied to each subject; compositions with the reference model. Composed expressions have no captures.', 'property-based testing: metamorphic relation between a pipeline over generated subjects in ten containers and the operation on each of them; generated compositions of expressions against the reference model of the composed pattern')

prop('C20', 'The single-header files do everything the headers do',
     'A program which includes single-header/ctre.hpp or single-header/ctre-unicode.hpp, and nothing else of the library, compiles and gets for each pattern, subject and operation the result the language of the patterns prescribes; the same patterns are accepted, refused ones are refused at the same place, and Unicode properties contain the same code points.',
     ['inputs', 'programs', 'configurations'], 'Every pattern, subject, operation and property, with each of the two files and with C++17 and C++20.',
     'The tests compile against include only: nothing notices a file which is stale or was merged wrongly.',
     ['single-header/ctre.hpp', 'single-header/ctre-unicode.hpp'], [dict(name='the library in one file', where='single-header/ctre.hpp'), dict(name='the library and the Unicode tables in one file', where='single-header/ctre-unicode.hpp')],
     REFNOTE + 'The domains of the other checks apply; single-header/unicode-db.hpp alone belongs to C21.', REFTECH + '; everything is compiled from the single-header files')

prop('C21', 'The character database answers for every code point as Unicode 14 does',
     'For every code point cp_category, cp_script, cp_script_extensions, cp_age, cp_block, cp_numeric_value, cp_is_assigned and each cp_category_is and cp_property_is give what Unicode 14 says, at run time and in constant expressions; a value which is no code point has no property. The documented headers compile alone and together in every order and give the same.',
     ['inputs', 'configurations'], 'Every code point and value of char32_t, every function and enumerator, every order of the documented includes.',
     'There are no tests of these functions, and the tables have tens of thousands of boundaries.',
     ['include/unicode-db/unicode-db.hpp', 'include/unicode-db/unicode_interface.hpp', 'include/unicode-db.hpp', 'single-header/unicode-db.hpp', 'single-header/ctre-unicode.hpp'], [dict(name='tables and their lookup', where='include/unicode-db/unicode-db.hpp'), dict(name='iteration over script extensions', where='include/unicode-db/unicode-db.hpp: script_extensions_view'), dict(name='the declarations the expressions need', where='include/unicode-db/unicode_interface.hpp')],
     'The oracle is the Unicode database of the Perl installed here, reduced to code points unchanged since Unicode 14. The order of the script extensions is not claimed.', 'property-based testing: each function evaluated for all code points and compared with an independent Unicode database; generated constant expressions at and beside the boundaries of the tables, and generated sequences of includes')


prop('C22', 'The parser accepts exactly what its grammar generates, with the actions in order',
     'For a deterministic grammar ctll::parser accepts an input if and only if a stack machine with the same rules does, stops at the same position, and applies the semantic actions in the same order, each with the symbol before it. A refusing action refuses the input; unknown actions are ignored when they may be. correct_with, output and the conversion to bool agree.',
     ['inputs', 'configurations'], 'Every LL(1) grammar with rules on terminals, ranges, sets, negated sets, anything and the end of the input, every input and set of actions.',
     'The tests know a handful of grammars with inputs of a few symbols; the combinations of kinds of rules, quick rules and actions are not sampled.',
     ['include/ctll/parser.hpp', 'include/ctll/grammars.hpp', 'include/ctll/actions.hpp', 'include/ctll/list.hpp'], [dict(name='one step: rules and terminals', where='include/ctll/parser.hpp: parser::move, parser::decide'), dict(name='matching of symbols', where='include/ctll/grammars.hpp'), dict(name='dispatch of actions', where='include/ctll/actions.hpp')],
     'Grammars whose derivation takes no symbol for ever are not generated.', 'property-based testing: generated grammars, inputs and actions compiled with both compilers and compared with a reference stack machine; shrinking of grammar and input')


prop('C23', 'The type lists behave as lists',
     'Every history of size, empty, concat, push_front, pop_front, pop_and_get_front, front, rotate, exists_in, add_item and remove_item on ctll::list gives the types, in the order, that the same history gives on a sequence; types are compared by identity, and defaults are given for an empty list. The same holds in constant expressions.',
     ['inputs', 'histories', 'configurations'], 'Every history of operations on lists of empty types, also equal, derived from or convertible to one another, in C++17 and C++20.',
     'The parser and every regular expression are built on these lists; no test touches most of them.',
     ['include/ctll/list.hpp', 'include/ctll/grammars.hpp'], [dict(name='list operations', where='include/ctll/list.hpp'), dict(name='pushes of lists, epsilon and pop_input', where='include/ctll/grammars.hpp: push_front, pop_front_and_push_front')],
     'Elements are default constructible and empty, as all in the library are.', 'property-based testing: generated histories of operations compared with a Python list, compiled as static assertions with both compilers')

prop('C24', 'The dialect means what PCRE means by it',
     'For every pattern which both the library and PCRE2 read and every subject, match, search, starts_with, search_all, tokenize and split give the range and the captures which PCRE2 gives (with the dot taking every character, $ only at the end, or the corresponding multiline options). Only the documented differences remain: a finished iteration of a repetition is final, an iteration consumes something, and \\Z without multiline is the very end.',
     INP, 'Every pattern of the shared syntax: captures, alternatives, repetitions of each mode, lookarounds, backreferences, atomic groups, classes, sets, anchors, case insensitive and multiline.',
     'The documentation promises the syntax of PCRE; the tests hold only what the authors expected of single patterns.',
     [E_HPP, W_HPP, 'include/ctre/pcre_actions.hpp', 'include/ctre/atoms_characters.hpp'], [EV, PARSE],
     'PCRE2 is an oracle which shares nothing with the library or with the model of the other properties; its opinion is not asked where the documented differences matter.', 'property-based testing: differential against the installed PCRE2 (10.42), with generated patterns and subjects; failures are shrunk')

prop('C25', 'Large patterns compile within the usual limits and mean the same',
     'A pattern of the documented syntax with a literal of hundreds of characters, dozens of alternatives, items of a set, groups inside of groups, captures or quantified items, or with repetition counts of a thousand, compiles within the default template depth of the compilers. Its results follow the same rules as those of a small pattern, and each capture keeps its number and name.',
     ['inputs', 'programs'], 'Every pattern of up to 240 literal characters, 44 alternatives, 48 set items, 26 levels of groups, 22 captures, counts up to 1124, names up to 43 characters; every subject of up to 3000 characters.',
     'The patterns of the tests are short: lists of types, recursion over them and the counters of a repetition are exercised with few elements only.',
     [E_HPP, 'include/ctre/first.hpp', 'include/ctll/list.hpp', 'include/ctll/parser.hpp', 'include/ctre/return_type.hpp', 'include/ctre/actions/repeat.inc.hpp'], [EV, PARSE, dict(name='counted repetitions', where=E_HPP)],
     REFNOTE + 'Template depths of 900 (g++) and 1024 (clang++); beyond these sizes nothing is claimed.', REFTECH + '; the patterns are generated from seven families of large shapes')

prop('C26', 'Evaluations, iterators and results are independent of one another',
     'What an evaluation, a range, an iterator or a result gives depends only on its own pattern, flags and subject: not on what was evaluated before, between or in other threads, not on copies, moves, assignments, swaps and comparisons, nor on whether the range it came from still exists. Copies stay as they were when the original goes on; an iterator at the end stays there; default constructed iterators and results are unmatched.',
     ['inputs', 'histories', 'schedules'], 'Every history of making, copying, moving, assigning, swapping, incrementing, comparing, reading and dropping ranges, iterators and results of several patterns on the same and on other subjects, in one or several threads.',
     'The tests evaluate constants, one iteration at a time and from its begin to its end.',
     ['include/ctre/iterators.hpp', 'include/ctre/range.hpp', 'include/ctre/return_type.hpp', W_HPP], [dict(name='state of the iterators', where='include/ctre/iterators.hpp'), dict(name='ranges hold their subject by iterators', where='include/ctre/range.hpp'), dict(name='results and captures', where='include/ctre/return_type.hpp')],
     'Histories of 400 steps on six pools; threads under ThreadSanitizer for a part. Subjects outlive what refers to them.', 'property-based testing, model-based: generated histories over pools of objects compared with precomputed lists of spans; histories are shrunk; threads under ThreadSanitizer')

prop('C27', 'Importing the module gives what including the headers gives',
     'The C++ module ctre compiles, and a program which imports it can use what the documentation uses from the headers: the functions and their multiline forms, the flags, ctre::re, the pipes, ranges of subjects, iterators and sentinels, access to captures by number and by name, conversions of results and Unicode properties. Every such call gives the same result as with the headers.',
     ['inputs', 'programs', 'configurations'], 'Every pattern, flag, operation, form of a call, representation of a subject.',
     'No test builds the module.',
     ['ctre.cppm', 'include/ctre/utility.hpp', W_HPP, 'include/ctre/flags_and_modes.hpp', 'include/ctre/functions.hpp', 'include/ctll/utilities.hpp'], [dict(name='the module includes the headers in its purview and exports the marked declarations', where='ctre.cppm')],
     'clang++ 18 and a stand-in for the module std, which exports the names the library uses.', 'property-based testing: generated programs which import the module, compared with an independent reference interpreter')

prop('C28', 'Regexes combined with | and >> match what the pattern written as a whole matches',
     'For regexes given as objects (ctre::re or a literal), a | b matches what the pattern (?:A)|(?:B) matches, with the left one preferred, and a >> b what (?:A)(?:B) matches, also when combined further, in every operation, singleline and multiline, with the captures of the one part which has some.',
     ['inputs', 'programs'], 'Every combination of two to five regexes in every order of the operators, every subject and operation.',
     'No test combines regexes.',
     ['include/ctre/operators.hpp', W_HPP, E_HPP], [dict(name='operators on regexes', where='include/ctre/operators.hpp'), dict(name='other operators | take ranges and subjects on their left side', where=W_HPP)],
     REFNOTE + 'At most one part has captures.', REFTECH)


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in have:
            anchors = dict(files=p['files'], mechanism=p['mech'])
            if p['state']:
                anchors['state'] = p['state']
            anchors['observe_at'] = p['observe'] or ['the result objects of the public functions']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=anchors)) + '\n')
            assert len(p['title']) <= 80, p['title']
    m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks: the checks observe the public interface of the unmodified headers', source_commits=[]),
             checks=[dict(property=p['id'], quick_cmd='./run %s quick' % p['id'], thorough_cmd='./run %s thorough' % p['id'], technique=p['technique'], level='exploration', level_note=p['level_note']) for p in have],
             not_applicable=[], notes='See DESIGN.md. Every check compiles generated programs against /repo/include (or /repo/single-header) as it is at that moment.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(have), 'properties')


main()
