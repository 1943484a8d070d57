"""Builds the C++ module of the library (ctre.cppm) with a stand-in for the module std, which the installed standard library doesn't have."""
import os
import re
from . import core
from .core import sh, Infra

INCLUDES = '''algorithm array bit cassert charconv concepts cstddef cstdint cstdlib cstring functional initializer_list iosfwd iterator limits list map memory
memory_resource numeric optional ostream ranges set span string string_view system_error tuple type_traits utility variant vector'''.split()
NAMES = '''addressof advance allocator array basic_ostream basic_string basic_string_view begin bidirectional_iterator_tag char_traits conditional_t declval
distance enable_if enable_if_t end errc false_type forward forward_iterator_tag from_chars from_chars_result index_sequence initializer_list
input_iterator_tag int16_t int32_t int64_t int8_t integer_sequence integral_constant is_base_of_v is_constructible_v is_same_v iterator_traits
make_index_sequence make_reverse_iterator move next nullopt nullopt_t numeric_limits operator== operator!= operator< operator> operator<= operator>=
operator- operator+ operator<< optional ostream pair prev ptrdiff_t random_access_iterator_tag remove_const_t remove_reference_t reverse_iterator same_as size
size_t string string_view swap to_address to_string true_type tuple tuple_element tuple_size u16string_view u32string_view u8string_view uint16_t
uint32_t uint64_t uint8_t wstring wstring_view'''.split()


def std_text(names):
    inner = {}
    for n in names:
        ns, _, last = n.rpartition('::')
        inner.setdefault(ns, []).append(last)
    out = ['module;'] + ['#include <%s>' % x for x in INCLUDES] + ['export module std;', 'export namespace std {']
    for ns, xs in inner.items():
        xs = ['using std::%s%s;' % (ns + '::' if ns else '', x) for x in xs]
        out += xs if not ns else ['namespace %s {' % ns] + xs + ['}']
    out += ['namespace ranges { using std::ranges::enable_borrowed_range; using std::ranges::enable_view; using std::ranges::view_base; using std::ranges::view_interface; }',
            'inline namespace literals { inline namespace string_view_literals { using std::literals::string_view_literals::operator""sv; } }', '}']
    return '\n'.join(out) + '\n'


def missing(err):
    """names of namespace std which the library uses and the stand-in doesn't export"""
    out = set()
    for m in re.finditer(r"missing '#include [<\"][^']*'; '([A-Za-z_0-9:]+)' must be declared|no (?:type|template|member) (?:named )?'([A-Za-z_0-9]+)' in namespace 'std'|no template named '([A-Za-z_0-9]+)' in namespace 'std'|declaration of '([A-Za-z_0-9:]+)' must be imported from module 'std", err):
        n = next(x for x in m.groups() if x)
        out.add(n[5:] if n.startswith('std::') else n)
    return out


def build(check, cfg):
    """returns (flags, objects) or the error text of the library's module"""
    d = check.path('mod_' + cfg.key())
    os.makedirs(d, exist_ok=True)
    std, pcm = os.path.join(d, 'std.pcm'), os.path.join(d, 'ctre.pcm')
    names = list(NAMES)
    base = [cfg.cxx] + cfg.flags()
    for _ in range(8):
        with open(os.path.join(d, 'std.cppm'), 'w') as f:
            f.write(std_text(names))
        r, o, e = sh(base + ['--precompile', os.path.join(d, 'std.cppm'), '-o', std], timeout=300)
        if r:
            bad = set(re.findall(r"no (?:member|type) named '(\w+)' in namespace 'std'", e.decode(errors='replace'))) & set(names) - set(NAMES)
            if not bad:
                raise Infra('the stand-in for the module std: ' + e.decode(errors='replace')[:600])
            names = [n for n in names if n not in bad]
            continue
        r, o, e = sh(base + ['-fmodule-file=std=' + std, '--precompile', os.path.join(core.REPO, 'ctre.cppm'), '-o', pcm], timeout=300)
        if r == 0:
            break
        err = e.decode(errors='replace')
        new = missing(err) - set(names)
        if not new:
            return err
        names += sorted(new)
    else:
        raise Infra('the stand-in for the module std lacks something: ' + err[:600])
    objs = []
    for x in ('std', 'ctre'):
        obj = os.path.join(d, x + '.o')
        r, o, e = sh(base + ['-fmodule-file=std=' + std, '-c', os.path.join(d, x + '.pcm'), '-o', obj], timeout=300)
        if r:
            raise Infra('object of the module %s: %s' % (x, e.decode(errors='replace')[:600]))
        objs.append(obj)
    return ['-fmodule-file=std=' + std, '-fmodule-file=ctre=' + pcm], objs
