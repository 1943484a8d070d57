"""Properties of the Unicode characters as an oracle: from the Unicode::UCD of the installed perl (15.0), reduced to what Unicode 14 has."""
from .core import sh, Infra

PERL = r'''
use Unicode::UCD qw(prop_invlist prop_aliases prop_value_aliases prop_values);
print "version\t".Unicode::UCD::UnicodeVersion()."\t\n";
sub row { my ($k,$p,@a)=@_; print "$k\t".join(",",grep { $_ ne "" } @a)."\t".join(",",prop_invlist($p))."\n"; }
for my $k (qw(gc sc scx blk age)) { for my $v (sort(prop_values($k))) { row($k,"$k=$v",prop_value_aliases($k,$v)); } }
for my $p (qw(AHex Alpha Bidi_C Bidi_M Cased CI Dash Dep DI Dia Emoji Emoji_Component Emoji_Modifier Emoji_Modifier_Base Emoji_Presentation Ext Extended_Pictographic Gr_Base Gr_Ext Hex IDC Ideo IDS IDSB IDST Join_C LOE Lower Math NChar Pat_Syn Pat_WS PCM QMark Radical RI SD STerm Term UIdeo Upper VS WSpace XIDC XIDS Any ASCII Assigned)) { my @a = prop_aliases($p); row("bin",$p,@a ? @a : $p); }
'''
# names of the standard which the library doesn't know (they are rejected when the pattern is compiled; nothing is claimed about them)
MISSING = {'Cntrl', 'Combining_Mark', 'Digit', 'Punct', 'EComp', 'EMod', 'EBase', 'EPres', 'ExtPict', 'Unicode', 'Qaac', 'Qaai', 'Kawi', 'Nagm', 'Nag_Mundari'}
LATER_BLOCKS = {'Arabic_Ext_C', 'Arabic_Extended_C', 'CJK_Ext_H', 'CJK_Unified_Ideographs_Extension_H', 'Cyrillic_Ext_D', 'Cyrillic_Extended_D', 'Devanagari_Ext_A', 'Devanagari_Extended_A', 'Kaktovik_Numerals', 'Kawi', 'Nag_Mundari'}
NO_THIRD = {'Cyrillic_Supplementary', 'Combining_Marks_For_Symbols', 'Latin_1', 'NB', 'No_Block', 'Private_Use', 'Canadian_Syllabics'}
# their properties were changed by 15.0
CHANGED = [0xC04, 0xF82, 0xF83, 0x11080, 0x11081, 0x10FC, 0xA7F2, 0xA7F3, 0xA7F4, 0xAB69] + list(range(0x13430, 0x13460))
TOP = 0x110000


def mask(inv):
    """inversion list -> int with a bit for each code point"""
    m = 0
    for i in range(0, len(inv), 2):
        e = inv[i + 1] if i + 1 < len(inv) else TOP
        m |= ((1 << (e - inv[i])) - 1) << inv[i]
    return m


def invlist(m):
    """back: the positions where neighbouring bits differ"""
    d = m ^ (m << 1)
    out = []
    s = bin(d)[:1:-1]
    i = s.find('1')
    while i >= 0 and i < TOP:
        out.append(i)
        i = s.find('1', i + 1)
    return out


class Ucd:
    def __init__(self):
        r, o, e = sh(['perl', '-e', PERL], timeout=120)
        if r:
            raise Infra('perl: ' + e.decode(errors='replace')[:300])
        rows = [l.split('\t') for l in o.decode().splitlines()]
        if rows[0][1] != '15.0.0':
            raise Infra('perl has Unicode ' + rows[0][1])
        self.props = []      # (kind, [patterns], mask)
        unusable = 0
        ages = {}
        for k, names, inv in rows[1:]:
            if k == 'age' and names[0].isdigit():
                ages[float(names.split(',')[0])] = mask([int(x) for x in inv.split(',')])
        unusable = ages.pop(15.0)
        for x in CHANGED:
            unusable |= 1 << x
        self.unusable = unusable
        self.all = (1 << TOP) - 1
        for k, names, inv in rows[1:]:
            m = mask([int(x) for x in inv.split(',')] if inv else [])
            names = [n for n in names.split(',') if n]
            names = list(dict.fromkeys(names))
            if k == 'age':
                try:
                    v = float(names[0])
                except ValueError:
                    continue
                if v > 14:
                    continue
                m = 0
                for a, x in ages.items():
                    if a <= v:
                        m |= x
                pats = ['Age=' + names[0]]
            else:
                names = [n for n in names if n not in MISSING]
                if k == 'blk':
                    names = [n for n in names if n not in LATER_BLOCKS and n not in NO_THIRD]
                    pats = ['Block=' + n for n in names]
                elif k == 'scx':
                    names = [n for n in names if n not in ('Zzzz', 'Unknown')]
                    pats = [p + '=' + n for n in names for p in ('scx', 'Script_Extensions')]
                elif k == 'sc':
                    pats = [n for n in names]
                    pats += [p + '=' + n for n in names if n not in ('Zzzz', 'Unknown') for p in ('sc', 'Script')]
                else:
                    pats = names
            if pats:
                self.props.append((k, pats, m))
        self.known = {p.lower() for _, ps, _ in self.props for p in ps}

    def write(self, path, chosen):
        """chosen: names -> mask; the table for the reference model"""
        with open(path, 'w') as f:
            f.write('!\t%s\n' % ','.join(map(str, invlist(self.unusable))))
            for n, m in chosen.items():
                f.write('%s\t%s\n' % (n, ','.join(map(str, invlist(m)))))
