"""C24: declarations with combinations of attributes, one per line, and whether the rules of the documentation allow them.
refuse.py <out dir> [bits] [thorough] writes src/lib.rs and expect.json: line number -> [want, description]
want: True refused, False accepted by the derive, None left open (no rule speaks about it; only compiled)"""
import itertools, json, os, sys

# key, text; attributes with the same key are the same attribute written twice
F = [('bits', 'bits = 4'), ('bytes', 'bytes = 2'), ('bits_read', 'bits_read = "8"'), ('bytes_read', 'bytes_read = "2"'),
     ('count', 'count = "2"'), ('read_all', 'read_all'), ('until', 'until = "|v: &u8| *v == 0"'),
     ('default', 'default = "7"'), ('skip', 'skip'), ('skip', 'skip(read)'), ('skip', 'skip(write)'), ('cond', 'cond = "true"'),
     ('seek_rewind', 'seek_rewind'), ('seek_from_start', 'seek_from_start = "0"'), ('seek_from_current', 'seek_from_current = "0"'), ('seek_from_end', 'seek_from_end = "-1"'),
     ('endian', 'endian = "big"'), ('bit_order', 'bit_order = "lsb"'), ('ctx', 'ctx = "1"'), ('map', 'map = "|x: u8| Ok::<_, deku::DekuError>(x)"'),
     ('magic', 'magic = b"m"'), ('pad_bytes_before', 'pad_bytes_before = "1"'), ('pad_bytes_after', 'pad_bytes_after = "1"'),
     ('pad_bits_before', 'pad_bits_before = "1"'), ('pad_bits_after', 'pad_bits_after = "1"'),
     ('assert', 'assert = "true"'), ('assert_eq', 'assert_eq = "1"'), ('update', 'update = "1"'), ('reader', 'reader = "rd(deku::reader)"'), ('writer', 'writer = "wr(deku::writer)"')]
BITS_ONLY = {'bits', 'bits_read', 'pad_bits_before', 'pad_bits_after'}
# malformed on their own
BAD = ['skip()', 'skip(other)', 'skip(read, write)', 'skip(read = "1")', 'skip("read")', 'nonsense', 'nonsense = "1"', 'counts = "1"', 'cond = "__deku_reader.end()"', 'count = "__deku_x"',
       'reader = "rd(__deku_reader)"', 'writer = "wr(__deku_writer)"', 'ctx = "__deku_byte_offset"', 'read_all = "maybe"', 'count = 2.5', 'magic = "text"', 'endian = 1',
       'id = 1', 'id_type = "u8"', 'ctx_default = "1"', 'map = "__deku_f"', 'assert = "__deku_a"', 'assert_eq = "__deku_a"', 'update = "__deku_a"', 'default = "__deku_a"',
       'seek_from_start = "__deku_a"', 'seek_from_current = "__deku_a"', 'seek_from_end = "__deku_a"', 'until = "__deku_a"', 'bytes_read = "__deku_a"', 'bits_read = "__deku_a"',
       'pad_bytes_before = "__deku_a"', 'pad_bytes_after = "__deku_a"', 'pad_bits_before = "__deku_a"', 'pad_bits_after = "__deku_a"', 'bytes = "__deku_a"', 'bits = "__deku_a"']
RULED = {'bits', 'bytes', 'bits_read', 'bytes_read', 'count', 'read_all', 'until', 'default', 'skip', 'cond', 'seek_rewind', 'seek_from_start', 'seek_from_current', 'seek_from_end'}
SEEK = {'seek_rewind', 'seek_from_start', 'seek_from_current', 'seek_from_end'}

def field_rule(attrs, bits, size):
    """True: refused, False: fine, None: no rule"""
    ks = [k for k, _ in attrs]; s = set(ks)
    if len(s) < len(ks): return True
    if not bits and s & BITS_ONLY: return True
    if {'bits_read', 'bytes_read'} <= s: return True
    if 'count' in s and s & {'bits_read', 'bytes_read'}: return True
    if {'bits', 'bytes'} <= s: return True
    if 'default' in s and not s & {'skip', 'cond'}: return True
    if 'read_all' in s and s & {'until', 'count', 'bits_read', 'bytes_read'}: return True
    if len(s & SEEK) > 1: return True
    if size and s & SEEK: return True
    return False

HEAD = 'pub mod m%d { use super::*; '
PLACES = {
    'struct': lambda a, d: f'{d} pub struct S {{ {a} f0: u8 }}',
    'second': lambda a, d: f'{d} pub struct S {{ #[deku(count = "1")] f0: Vec<u8>, {a} f1: u8, f2: u8 }}' if 'DekuSize' not in d else f'{d} pub struct S {{ f0: u8, {a} f1: u8, f2: u8 }}',
    'tuple': lambda a, d: f'{d} pub struct S({a} u8);',
    'vstruct': lambda a, d: f'{d} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] A, #[deku(id = 2)] B {{ f0: u8, {a} f1: u8 }} }}',
    'vtuple': lambda a, d: f'{d} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] B({a} u8), #[deku(id = 2)] A }}',
    'dflt': lambda a, d: f'{d} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] A, #[deku(id = 9, default)] B({a} u8) }}',
    'pat': lambda a, d: f'{d} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] A, #[deku(id_pat = "_")] B {{ id: u8, {a} f1: u8 }} }}',
    'ctxid': lambda a, d: f'{d} #[deku(ctx = "x: u8", id = "x")] pub enum S {{ #[deku(id = 1)] A, #[deku(id_pat = "_")] B {{ {a} f1: u8 }} }}' if 'Size' not in d else None,
}
DER = {'R': '#[derive(DekuRead)]', 'W': '#[derive(DekuWrite)]', 'RW': '#[derive(DekuRead, DekuWrite)]', 'S': '#[derive(DekuSize)]', 'RWS': '#[derive(DekuRead, DekuWrite, DekuSize)]',
       'attr': '#[deku_derive(DekuRead, DekuWrite)]', 'attrR': '#[deku_derive(DekuRead)]', 'attrW': '#[deku_derive(DekuWrite)]'}

def fields(bits, thorough):
    def put(attrs, place, der, split, want=None, ruled=True):
        a = ' '.join(f'#[deku({t})]' for _, t in attrs) if split else f'#[deku({", ".join(t for _, t in attrs)})]' if attrs else ''
        body = PLACES[place](a, DER[der])
        if body is None: return
        w = field_rule(attrs, bits, 'S' in der) if ruled else want
        out.append((w, body))
    out = []
    ruled = [x for x in F if x[0] in RULED]
    for n, al, places, ders in [(0, F, PLACES, DER), (1, F, PLACES, DER), (2, F, PLACES, DER if thorough else ['RW', 'S', 'attr']),
                                (3, F if thorough else ruled, PLACES if thorough else ['struct', 'vtuple'], ['RW'])] + ([(4, ruled, ['struct', 'vstruct'], ['RW'])] if thorough else []):
        for c in itertools.combinations(al, n):
            for pl in places:
                for d in ders: put(c, pl, d, False)
            if n == 2:
                put(c, 'tuple', 'R', True); put(c[::-1], 'struct', 'W', False); put(c[::-1], 'vstruct', 'attrR', True)
    for b in BAD: # malformed alone and next to any other attribute, before or after it
        for x in [None] + F:
            for pl in (PLACES if x is None or thorough else ['struct', 'vtuple']):
                for d in (DER if x is None else ['RW']):
                    l = [('bad', b)] + ([x] if x else [])
                    put(l, pl, d, False, True, False)
                    if x: put(l[::-1], pl, d, True, True, False)
    for k, t in F: # the field that stores an id takes no attributes
        for d in ('R', 'RW', 'attr'):
            out.append((True, f'{DER[d]} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] A, #[deku(id_pat = "2..=3")] B {{ #[deku({t})] id: u8, f1: u8 }}, #[deku(id_pat = "_")] C(u8) }}'))
            out.append((True, f'{DER[d]} #[deku(id_type = "u8")] pub enum S {{ #[deku(id = 1)] A, #[deku(id_pat = "_")] C(#[deku({t})] u8) }}'))
    return out

TOP = ['id_type = "u8"', 'id = "x"', 'ctx = "x: u8"', 'ctx_default = "1"', 'bits = 4', 'bytes = 1', 'id_endian = "big"', 'endian = "little"', 'bit_order = "lsb"', 'magic = b"m"',
       'seek_rewind', 'seek_from_start = "0"', 'seek_from_current = "0"', 'seek_from_end = "-1"']
TKEY = {t: t.split(' ')[0] for t in TOP}
TBAD = ['nonsense', 'nonsense = 1', 'count = "1"', 'temp', 'skip', 'id_pat = "1"', 'ctx = "&self"', 'magic = 1', 'seek_rewind = "x"', 'pad_bytes_before = "1"', 'cond = "true"', 'default', 'default = "1"',
        'bits_read = "8"', 'seek_from_start = "__deku_x"', 'seek_from_current = "__deku_x"', 'seek_from_end = "__deku_x"', 'id_type = "__deku_x"', 'id = "__deku_x"']

def struct_rule(s, bits, size):
    if 'ctx_default' in s and 'ctx' not in s: return True
    if s & {'id_type', 'id', 'id_endian', 'bytes', 'bits'}: return True
    if len(s & SEEK) > 1: return True
    if size and s & SEEK: return True
    return False
def enum_rule(s, bits, size):
    if 'ctx_default' in s and 'ctx' not in s: return True
    if not bits and 'bits' in s: return True
    if ('id' in s) == ('id_type' in s): return True
    if 'id' in s and s & {'bits', 'bytes'}: return True
    if {'bits', 'bytes'} <= s: return True
    if len(s & SEEK) > 1: return True
    if size and s & SEEK: return True
    return False

# variants: text, kind
V = [('#[deku(id = 1)] A', 'id'), ('#[deku(id = "2")] B(u8)', 'id'), ('#[deku(id_pat = "3..=4")] C { id: u8 }', 'store'), ('#[deku(id_pat = "_")] D(u8)', 'store'), ('#[deku(default)] E', 'dflt0'),
     ('#[deku(id = 5, default)] G', 'dflt'), ('#[deku(id = 6, default)] H', 'dflt'), ('I', 'none'), ('J { f: u8 }', 'none'), ('K = 7', 'disc'), ('L = 8', 'disc'), ('#[deku(id_pat = "9 | 10")] M', 'patunit'),
     ('#[deku(id = 1, id_pat = "2..=3")] N(u8)', 'both'), ('#[deku(id = "_")] O', 'wild'), ('#[deku(id = 1, id = 2)] P', 'bad'), ('#[deku(nonsense)] Q', 'bad'), ('#[deku(id_pat = "__deku_x")] T(u8)', 'bad'),
     ('#[deku(reader = "__deku_x", id = 1)] U', 'bad'), ('#[deku(writer = "__deku_x", id = 1)] X', 'bad'), ('#[deku(count = "1", id = 1)] Y', 'bad'), ('#[deku(id = 1.5)] Z', 'bad')]

def variants_rule(kinds, repr_, by_id, der, idty='u8'):
    if any(k in ('both', 'wild', 'bad') for k in kinds): return True
    read, write = 'R' in der or der == 'attr', 'W' in der or der == 'attr'
    disc = 'disc' in kinds
    nodef = [k for k in kinds if k in ('none', 'disc', 'dflt0')]
    if read and kinds.count('dflt') + kinds.count('dflt0') > 1: return True
    if read and nodef and not disc: return True # nothing says which id the variant has
    if read and nodef and disc and (repr_ is None or (not by_id and repr_ != idty)): return True
    if write and not by_id:
        w = nodef + [k for k in kinds if k == 'patunit']
        if w and not disc: return True
        if w and disc and repr_ != idty: return True
    return False

def tops(bits, thorough):
    out = []
    def emit(want, d, attrs, body, split=False, rep=''):
        a = ' '.join(f'#[deku({t})]' for t in attrs) if split else (f'#[deku({", ".join(attrs)})]' if attrs else '')
        out.append((want, f'{DER[d]} {rep} {a} {body}'))
    SB = ['pub struct S { f0: u8 }', 'pub struct S(u8);']
    EB = 'pub enum S { #[deku(id = 1)] A, #[deku(id = 2)] B { f0: u8 } }'
    for n in range(0, 6 if thorough else 4):
        for c in itertools.combinations(TOP, n):
            s = {TKEY[t] for t in c}
            for d in (DER if n < 3 or thorough else ['RW', 'attr']):
                for sb in SB if n < 3 else SB[:1]: emit(struct_rule(s, bits, 'S' in d), d, c, sb)
                emit(enum_rule(s, bits, 'S' in d), d, c, EB)
            if n == 2:
                emit(struct_rule(s, bits, False), 'RW', c[::-1], SB[0], True); emit(enum_rule(s, bits, False), 'RW', c[::-1], EB, True)
    for b in TBAD:
        for x in [None] + TOP:
            if x and TKEY[x] == b.split(' ')[0]: pass
            for d in (DER if x is None else ['RW']):
                l = [b] + ([x] if x else [])
                emit(True, d, l, SB[0]); emit(True, d, l[::-1] + ['id_type = "u8"'], EB, True)
    for t in TOP: # twice
        emit(True, 'RW', [t, t], SB[0]); emit(True, 'RW', [t, t], EB, True)
    for n in range(0, 4 if thorough else 3):
        for c in itertools.permutations(V, n) if n < 3 else itertools.combinations(V, n):
            kinds = [k for _, k in c]
            body = 'pub enum S { ' + ', '.join(t for t, _ in c) + ' }'
            for rep in (None, 'u8', 'u16', 'i8'):
                if n == 3 and rep in ('u16',): continue
                for by_id in (False, True):
                    for d in ('R', 'W', 'RW', 'attr') if n < 2 or thorough else ('R', 'RW'):
                        emit(variants_rule(kinds, rep, by_id, d), d, ['ctx = "x: u8", id = "x"'] if by_id else ['id_type = "u8"'], body, rep=f'#[repr({rep})]' if rep else '')
    return out

def main():
    out, bits, thorough = sys.argv[1], 'bits' in sys.argv[2:], 'thorough' in sys.argv[2:]
    os.makedirs(f'{out}/src', exist_ok=True)
    seen, lines, exp = set(), [], {}
    lines.append('#![allow(warnings)] use deku::{prelude::*, deku_derive}; fn rd<T, R>(_: T) -> Result<R, DekuError> { todo!() } fn wr<T>(_: T) -> Result<(), DekuError> { todo!() }')
    for w, body in fields(bits, thorough) + tops(bits, thorough):
        if body in seen: continue
        seen.add(body)
        lines.append(HEAD % len(lines) + body + ' }')
        exp[len(lines)] = [w, body]
    open(f'{out}/src/lib.rs', 'w').write('\n'.join(lines) + '\n')
    json.dump(exp, open(f'{out}/expect.json', 'w'))
main()
