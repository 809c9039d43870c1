"""The common zoo: programs covering every part of the attribute language and every implemented type."""
from dsl import *
CENX = ('endian', 'en'); CODX = ('order', 'od')
DEN = ('deku::ctx::Endian::Big', 'big'); DENL = ('deku::ctx::Endian::Little', 'little')
DOD = ('deku::ctx::Order::Lsb0', 'lsb'); DODM = ('deku::ctx::Order::Msb0', 'msb')

def fam_num():
    """every number type, default / big / little, whole width"""
    out = []
    for t in (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, USIZE, ISIZE):
        w = 64 if 'size' in t.rust else int(t.rust[1:])
        n = t.rust
        out.append(Struct(f'N_{n}', [F(t)], maxlen=w // 8 + 1, size=True, tags=['num']))
        for e in ('big', 'little'):
            out.append(Struct(f'N_{n}_{e}', [F(t)], endian=e, maxlen=w // 8 + 1, size=True, tags=['num']))
        # unaligned by one nibble, both orders
        for od in ('msb', 'lsb'):
            for e in ('big', 'little'):
                out.append(Struct(f'NU_{n}_{e}_{od}', [F(u8, bits=4), F(t), F(u8, bits=4)], endian=e, order=od, maxlen=w // 8 + 2, size=True, tags=['num', 'bits']))
    return out

def fam_bits():
    out = []
    parts = [[4, 4], [1, 7], [7, 1], [3, 5, 8], [3, 6, 7], [1, 2, 3, 4, 6], [9, 7], [12, 4], [5, 5, 6], [1, 10, 5], [2, 16, 6], [6, 2, 9, 7], [13, 11], [1, 1, 1, 1, 1, 1, 1, 1]]
    for pi, p in enumerate(parts):
        for e in ('big', 'little'):
            for od in ('msb', 'lsb'):
                if od == 'lsb' and e == 'big' and any(n > 8 and n % 8 for n in p): continue
                fs = [F(u8 if n <= 8 else u16, bits=n) for n in p]
                out.append(Struct(f'B_{pi}_{e}_{od}', fs, endian=e, order=od, maxlen=sum(p) // 8 + 1, size=True, tags=['bits']))
    # wide containers holding a few bits, signed containers, 32/64/128-bit
    for (t, n) in ((u16, 5), (u16, 8), (u32, 5), (u32, 12), (u32, 17), (u64, 33), (u64, 7), (u128, 70), (u128, 3), (i8, 5), (i16, 12), (i16, 3), (i32, 20), (i64, 40), (i128, 100), (i32, 8), (USIZE, 20)):
        for e in ('big', 'little'):
            for od in ('msb', 'lsb'):
                if od == 'lsb' and e == 'big' and n > 8 and n % 8: continue
                out.append(Struct(f'BW_{t.rust}_{n}_{e}_{od}', [F(u8, bits=3), F(t, bits=n), F(u8, bits=(8 - (3 + n) % 8) % 8 or 8)], endian=e, order=od, maxlen=(n + 3) // 8 + 2, size=True, tags=['bits']))
    # bytes attribute
    for (t, n) in ((u32, 3), (u32, 1), (u16, 1), (u64, 5), (u64, 7), (u128, 9), (u16, 2), (u8, 1), (i32, 3), (i32, 2), (i16, 1), (i64, 6)):
        for e in ('big', 'little'):
            out.append(Struct(f'BY_{t.rust}_{n}_{e}', [F(t, bytes=n), F(u8)], endian=e, maxlen=n + 2, size=True, tags=['bytes']))
            out.append(Struct(f'BYU_{t.rust}_{n}_{e}', [F(u8, bits=5), F(t, bytes=n), F(u8, bits=3)], endian=e, maxlen=n + 2, size=True, tags=['bytes', 'bits']))
    out.append(Struct('BM_1', [F(u8, bits=2), F(u16, bits=10, endian='little'), F(u8, bits=4)], endian='big', maxlen=3, tags=['bits']))
    out.append(Struct('BM_2', [F(u8, bits=2, order='lsb'), F(u8, bits=6, order='lsb'), F(u8, bits=3), F(u8, bits=5)], maxlen=3, tags=['bits', 'ordmix']))
    out.append(Struct('BM_3', [F(u8, bits=3, order='lsb'), F(u8, bits=2), F(u8, bits=3, order='lsb')], maxlen=2, tags=['bits', 'ordmix', 'finding']))
    out.append(Struct('BM_4', [F(u8, bits=3), F(u8, bits=2, order='lsb'), F(u8, bits=3)], maxlen=2, tags=['bits', 'ordmix', 'finding']))
    # the bit order changes at byte boundaries
    for i, (o1, o2) in enumerate((('lsb', 'msb'), ('msb', 'lsb'))):
        for e in ('big', 'little'):
            out.append(Struct(f'BX_{i}_{e}', [F(u8, bits=3, order=o1), F(u8, bits=5, order=o1), F(u16, bits=12 if o2 == 'msb' or e == 'little' else 16, order=o2), F(u8, bits=4 if o2 == 'msb' or e == 'little' else 8, order=o2), F(u32, bits=24, order=o1), F(i16, order=o2), F(u64, bits=40, order=o2), F(u8, order=o1)], endian=e, maxlen=17, tags=['bits', 'ordmix']))
            out.append(Struct(f'BXC_{i}_{e}', [F(u8, bits=3, order=o1), F(u8, bits=5, order=o2), F(u16, order=o1), F(u8, bits=2, order=o2), F(u8, bits=6, order=o1), F(u8, bits=0, order=o1), F(u8, bits=1, order=o2), F(u8, bits=0, order=o1), F(u8, bits=7, order=o2)], endian=e, maxlen=6, tags=['bits', 'ordmix']))
    # a partial byte in a big endian lsb field wider than a byte: see known_findings.txt
    out.append(Struct('BF_1', [F(u8, bits=4), F(u16, bits=12)], endian='big', order='lsb', maxlen=2, tags=['bits', 'finding']))
    # dynamic sizes
    out.append(Struct('BD_1', [F(u8, bits=4), F(u16, bits='f0 + 1'), F(u8, bits='8 - (f0 & 3)')], endian='big', maxlen=4, tags=['bits', 'dyn']))
    out.append(Struct('BD_2', [F(u8), F(u32, bytes='(f0 & 3) + 1')], endian='little', maxlen=6, tags=['bytes', 'dyn'], hints=[0, 1, 2, 3]))
    out.append(Struct('BD_3', [F(u8, bits=4), F(i16, bits='f0 + 1')], endian='little', order='lsb', maxlen=4, tags=['bits', 'dyn']))
    return out

def fam_cont():
    el = Struct('CE1', [F(u8), F(u8)], hash=True, main=False)
    nib = Struct('CNib', [F(u8, bits=4)], hash=True, main=False)
    var = Struct('CVar', [F(u8), F(vec(u8), count='f0')], hash=True, main=False)
    H = [0, 1, 2, 3, 4, 255]
    o = []
    A = lambda n, fs, **k: o.append(Struct('C_' + n, fs, tags=['cont'] + k.pop('tags', []), hints=k.pop('hints', H), **k))
    A('cnt_u8', [F(u8), F(vec(u8), count='f0'), F(u8)], maxlen=5)
    A('cnt_u16', [F(u8), F(vec(u16), count='f0')], endian='big', maxlen=6)
    A('cnt_rec', [F(u8), F(vec(el), count='f0')], maxlen=6)
    A('cnt_nib', [F(u8, bits=4), F(vec(nib), count='f0'), F(u8, bits=4)], maxlen=4)
    A('cnt_bits', [F(u8, bits=4), F(vec(u8), count='f0', bits=3)], maxlen=4)
    A('cnt_bits4', [F(u8), F(vec(u8), count='f0', bits=4)], maxlen=4)
    A('cnt_lsb', [F(u8, bits=4), F(vec(u8), count='f0'), F(u8, bits=4)], order='lsb', maxlen=4)
    A('cnt_msb', [F(u8, bits=4), F(vec(u8), count='f0'), F(u8, bits=4)], maxlen=4)
    A('cnt_const', [F(vec(u8), count=3), F(u16)], endian='big', maxlen=6)
    A('cnt_var', [F(u8), F(vec(var), count='f0')], maxlen=5)
    A('cnt_expr', [F(u8), F(u8), F(vec(u16), count='f0 + f1'), F(u8)], endian='little', maxlen=6)
    A('by_u8', [F(u8), F(vec(u8), bytes_read='f0'), F(u8)], maxlen=5)
    A('by_u16', [F(u8), F(vec(u16), bytes_read='f0')], endian='little', maxlen=5)
    A('by_rec', [F(u8), F(vec(el), bytes_read='f0'), F(u8)], maxlen=5)
    A('by_var', [F(u8), F(vec(var), bytes_read='f0'), F(u8)], maxlen=5)
    A('bi_u8', [F(u8), F(vec(u8), bits_read='f0')], maxlen=4, hints=[0, 8, 16, 4, 24])
    A('bi_nib', [F(u8), F(vec(nib), bits_read='f0'), F(u8, bits=4)], maxlen=4, hints=[0, 4, 8, 12, 5, 20])
    A('bi_b3', [F(u8, bits=2), F(vec(u8), bits_read='f0 * 3', bits=3)], maxlen=4)
    A('un_eq', [F(vec(u8), until=('==', 0)), F(u8)], maxlen=5, hints=[0, 1, 2])
    A('un_gt', [F(vec(u16), until=('>', 255))], endian='big', maxlen=6, hints=[0, 1])
    A('un_rec', [F(vec(el), until=('==', 1))], maxlen=6, hints=[0, 1])
    A('un_nib', [F(vec(nib), until=('==', 0)), F(u8, bits=4)], maxlen=3)
    A('all_u8', [F(u8), F(vec(u8), read_all=True)], maxlen=4)
    A('all_u16', [F(vec(u16), read_all=True)], endian='big', maxlen=5)
    A('all_rec', [F(u8), F(vec(var), read_all=True)], maxlen=5)
    A('all_nib', [F(vec(nib), read_all=True)], maxlen=3)
    A('arr', [F(arr(u8, 3)), F(arr(u16, 2))], endian='big', maxlen=8, size=True)
    A('arr_bits', [F(arr(u8, 3), bits=4), F(u8, bits=4)], maxlen=3)
    A('arr_rec', [F(arr(el, 2)), F(u8)], maxlen=6)
    A('arr_arr', [F(arr(arr(u8, 2), 2))], maxlen=5, size=True)
    A('arr_un', [F(u8, bits=4), F(arr(u8, 2)), F(arr(u16, 1)), F(u8, bits=4)], endian='big', maxlen=6)
    A('arr_lsb', [F(u8, bits=4), F(arr(u8, 2)), F(u8, bits=4)], order='lsb', maxlen=4)
    A('tup', [F(tup(u8, u16)), F(tup(u8))], endian='little', maxlen=5, size=True)
    A('tup3', [F(tup(u8, arr(u8, 2), Bool))], maxlen=5)
    A('tup11', [F(tup(*[u8] * 11))], maxlen=12, size=True)
    A('tupbits', [F(tup(u8, u8), bits=4), F(tup(u8, u16), bits=8)], endian='big', maxlen=4)
    A('box', [F(box(u16)), F(boxs(u8), count=2)], endian='big', maxlen=5)
    A('boxs', [F(u8), F(boxs(u16), count='f0')], endian='little', maxlen=5)
    A('boxs_by', [F(u8), F(boxs(u16), bytes_read='f0'), F(u8)], endian='little', maxlen=6)
    A('arc', [F(arc(u16)), F(u8)], endian='big', maxlen=4)
    A('cow', [F(cow(u16)), F(u8)], endian='little', maxlen=4)
    A('cowb', [F(cow(u8), bits=3), F(u8, bits=5)], maxlen=2)
    A('opt', [F(opt(u16)), F(u8)], endian='big', maxlen=4)
    A('opt_vec', [F(u8), F(opt(vec(u8)), count='f0')], maxlen=4)
    A('set', [F(u8), F(hset(u8), count='f0')], maxlen=4, sym=False, tags=['unord:8:8'])
    A('set_by', [F(u8), F(hset(u16), bytes_read='f0')], endian='big', maxlen=5, sym=False, tags=['unord:8:16'])
    A('set_all', [F(hset(u8), read_all=True)], maxlen=3, sym=False, tags=['unord:0:8'])
    A('set_un', [F(hset(u8), until=('==', 0))], maxlen=3, sym=False, tags=['unord:0:8'])
    A('set_bi', [F(u8), F(hset(nib), bits_read='f0')], maxlen=3, sym=False, tags=['unord:8:4'], hints=[0, 4, 8, 12])
    A('map', [F(u8), F(hmap(u8, u16), count='f0')], endian='big', maxlen=7, sym=False, tags=['unord:8:24'])
    A('map_by', [F(u8), F(hmap(u8, u8), bytes_read='f0')], maxlen=5, sym=False, tags=['unord:8:16'], hints=[0, 2, 4])
    A('map_all', [F(hmap(u8, u8), read_all=True)], maxlen=4, sym=False, tags=['unord:0:16'])
    A('map_bi', [F(u8), F(hmap(u8, u8), bits_read='f0')], maxlen=5, sym=False, tags=['unord:8:16'], hints=[0, 16, 32])
    A('map_un', [F(u8), F(hmap(u8, u8), count='f0')], maxlen=5, sym=False, tags=['unord:8:16'])
    A('unit', [F(u8), F(Unit), F(u8)], maxlen=3)
    A('vunit', [F(u8), F(vec(Unit), count='f0'), F(u8)], maxlen=3, sym=False)
    A('vunit_all', [F(u8), F(vec(Unit), read_all=True)], maxlen=3)
    A('empty', [], maxlen=2)
    A('two_all', [F(u8), F(vec(u8), count='f0'), F(vec(u16), read_all=True)], endian='big', maxlen=6)
    A('tail_bits', [F(u8), F(vec(u8), count='f0', bits=2), F(u8, bits=2)], maxlen=3)
    A('bool_cnt', [F(u8), F(vec(Bool), count='f0', bits=1)], maxlen=3)
    A('vec_tup', [F(u8), F(vec(tup(u8, u16)), count='f0')], endian='big', maxlen=7)
    A('vec_arr', [F(u8), F(vec(arr(u8, 2)), count='f0'), F(u8)], maxlen=6)
    A('vec_box', [F(u8), F(vec(box(u8)), count='f0')], maxlen=4)
    A('vec_bytes', [F(u8), F(vec(u32), count='f0', bytes=2), F(u8)], endian='big', maxlen=6)
    return o

def fam_enum():
    H = [0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x7f, 0x80, 0xff]
    o = []
    def A(n, idty, vs, **k): o.append(Enum('E_' + n, idty, vs, tags=['enum'] + k.pop('tags', []), hints=k.pop('hints', H), **k)); return o[-1]
    A('basic', u8, [V('A', id=1), V('B', [u8], id=2), V('C', [u16, u8], id=3), V('D', [arr(u8, 2)], id=0x80, tuple=True)], endian='big', maxlen=4, size=False)
    A('u16b', u16, [V('A', id=1), V('B', [u8], id=0x0100), V('C', [u16], id=0xff02)], endian='big', maxlen=5)
    A('u16l', u16, [V('A', id=1), V('B', [u8], id=0x0100), V('C', [u16], id=0xff02)], endian='little', maxlen=5)
    A('idendian', u16, [V('A', [u16], id=1), V('B', [u16], id=0x0100)], endian='little', id_endian='big', maxlen=5)
    A('idendian2', u32, [V('A', [u16], id=1), V('B', [u16], id=0x01000000)], endian='big', id_endian='little', maxlen=7, hints=[0, 1])
    A('bits3', u8, [V('A', [F(u8, bits=5)], id=1), V('B', [F(u8, bits=13 - 8)], id=7), V('C', [F(u16, bits=13)], id=0), V('D', [F(u8, bits=5), F(u8)], id=4)], bits=3, endian='big', maxlen=3)
    A('bits4lsb', u8, [V('A', [F(u8, bits=4)], id=1), V('B', [F(u8, bits=4), F(u8)], id=15)], bits=4, order='lsb', maxlen=3)
    A('bits12', u16, [V('A', [F(u8, bits=4)], id=1), V('B', [F(u8, bits=4), F(u8)], id=0xabc)], bits=12, endian='big', maxlen=4, hints=[0, 0x10, 0xab, 0xc5, 0x1f])
    A('bits12l', u16, [V('A', [F(u8, bits=4)], id=1), V('B', [F(u8, bits=4), F(u8)], id=0xabc)], bits=12, endian='little', maxlen=4, hints=[0, 0x10, 0xab, 0xc5, 0x1f, 0xbc, 0xa3, 0x01])
    A('bytes2', u32, [V('A', [u8], id=1), V('B', [u16], id=0x102)], bytes=2, endian='big', maxlen=5)
    A('range', u8, [V('A', id=0), V('R', [u8, u8], pat='1..=5', mat='(range 1 5)'), V('O', [u8], pat='6 | 0x80', mat='(oneof 6 128)'), V('Any', [u8, u16], pat='_', mat='(any)')], endian='big', maxlen=4)
    A('range16', u16, [V('A', id=0), V('R', [u16, u8], pat='1..=5', mat='(range 1 5)'), V('Any', [u16], pat='_', mat='(any)')], endian='big', maxlen=4)
    A('range16l', u16, [V('A', id=0), V('R', [u16, u8], pat='1..=5', mat='(range 1 5)'), V('Any', [u16], pat='_', mat='(any)')], endian='little', maxlen=4)
    A('range16ide', u16, [V('A', id=0), V('R', [u16, u16], pat='1..=5', mat='(range 1 5)'), V('Any', [u16], pat='_', mat='(any)')], endian='little', id_endian='big', maxlen=4)
    A('rangebits', u8, [V('A', [F(u8, bits=4)], id=0), V('R', [F(u8), F(u8, bits=4)], pat='1..=5', mat='(range 1 5)'), V('Any', [F(u8), F(u8, bits=4), F(u8)], pat='_', mat='(any)')], bits=4, maxlen=3, hints=[0, 0x15, 0x5f, 0x60, 0xf3])
    A('rangebitsl', u16, [V('A', [F(u8, bits=4)], id=0), V('R', [F(u16), F(u8, bits=4)], pat='1..=5', mat='(range 1 5)'), V('Any', [F(u16), F(u8, bits=4)], pat='_', mat='(any)')], bits=12, endian='little', maxlen=3, hints=[0, 0x15, 0x5f, 0x60, 0xf3, 1, 5])
    A('overlap', u8, [V('P', [u8], pat='1..=3', mat='(range 1 3)'), V('B', [u16], id=2), V('C', [u8], id=4)], maxlen=4)
    A('overlap2', u8, [V('B', [u16], id=2), V('P', [u8, u8], pat='1..=3', mat='(range 1 3)'), V('C', [u8], id=4)], maxlen=4)
    A('default', u8, [V('A', [u8], id=1), V('B', [u16], id=2, default=True), V('C', id=3)], endian='big', maxlen=4)
    A('defaultf', u8, [V('Z', [u16], id=9, default=True), V('A', [u8], id=1), V('C', id=3)], endian='big', maxlen=4)
    A('signed', i8, [V('A', [u8], id='-1', num=-1), V('B', [u16], id='-128', num=-128), V('C', id='5', num=5), V('N', [i8, u8], pat='-5..=-2', mat='(range -5 -2)')], endian='big', maxlen=3, hints=[0xff, 0x80, 5, 0xfb, 0xfe])
    A('signed16', i16, [V('A', [u8], id='-2', num=-2), V('C', id='5', num=5)], endian='little', maxlen=4, hints=[0xff, 0xfe, 5, 0])
    A('bool', Bool, [V('T', [u8], id='true', num=1), V('F_', [u16], id='false', num=0)], endian='little', maxlen=4, hints=[0, 1, 2])
    A('disc', u8, [V('A', disc=1), V('B', disc=3), V('C', disc=0x80)], maxlen=2)
    A('disc16', u16, [V('A', disc=1), V('B', disc=0x103), V('C', disc=0x8000)], endian='big', maxlen=3)
    A('repr', u8, [V('A', disc=1), V('B', [u8], id=3, disc=3), V('C', disc=0x80)], repr=True, maxlen=3)
    A('discbits', u8, [V('A', disc=1), V('B', disc=3), V('C', disc=2)], bits=2, maxlen=2, tags=['bits'])
    A('discsigned', i8, [V('A', disc=-1), V('B', disc=3)], maxlen=2, hints=[255, 3])
    A('catch', u8, [V('A', id=1), V('B', id=2), V('O', [u8], pat='_', mat='(any)')], maxlen=3)
    A('fields', u8, [V('A', [F(u8), F(vec(u8), count='f0')], id=1), V('B', [F(u8, assert_eq='7'), F(u16, endian='little')], id=2), V('C', [F(opt(u8), cond='1 == 1'), F(u8, pad_bytes_before=1)], id=3), V('D', [F(vec(u8), read_all=True)], id=4)], endian='big', maxlen=5)
    A('magic', u8, [V('A', [u8], id=1), V('B', [u16], id=2)], magic=b'\xca\x10', endian='big', maxlen=5, hints=[0xca, 0x10, 1, 2])
    e = A('nest0', u8, [V('A', id=1), V('B', [u8], id=2)], hash=True, maxlen=2)
    o.append(Struct('E_nest', [F(u8), F(e), F(vec(e), count='f0')], tags=['enum'], maxlen=5, hints=[0, 1, 2]))
    c = Enum('E_ctx0', None, [V('A', id=1), V('B', [u8], id=2), V('C', [u16], pat='3..=4', mat='(range 3 4)')], idctx='x0', idctx_rust='kind', ctx=[('kind', 'u8')], main=False, endian='big')
    o.append(Struct('E_ctx', [F(u8), F(u8), F(c, ctx=[('f0', 'u8')])], tags=['enum', 'ctx'], maxlen=5, hints=[0, 1, 2, 3, 4, 5]))
    c2 = Enum('E_ctx1', None, [V('A', [u8], id=1), V('B', [F(u8, bits=4)], id=2), V('D', [u8], id=7, default=True)], idctx='x0 & 7', idctx_rust='kind & 7', ctx=[('kind', 'u8')], main=False)
    o.append(Struct('E_ctxd', [F(u8, bits=4), F(c2, ctx=[('f0', 'u8')]), F(u8, bits=4)], tags=['enum', 'ctx'], maxlen=4, sym=False))
    return [x for x in o if x]

def fam_magic():
    o = []
    A = lambda n, fs, **k: o.append(Struct('M_' + n, fs, tags=['magic'] + k.pop('tags', []), **k))
    A('s1', [u8], magic=b'\x5a', hints=[0x5a], maxlen=3, size=True)
    A('s3', [u16], magic=b'deK', endian='little', hints=[0x64, 0x65, 0x4b], maxlen=6, size=True)
    A('f', [F(u8), F(u8, magic=b'\x00\xff'), F(u8)], hints=[0, 255], maxlen=6, size=True)
    A('fb', [F(u8, bits=4), F(u8, magic=b'\x5a', bits=4)], hints=[0x05, 0xa3, 0xf5, 0xa1], maxlen=3)
    A('as', [F(u8, assert_='f0 != 3'), F(u8, assert_='f1 < f0')], maxlen=3, hints=[0, 3, 1, 4, 2])
    A('aseq', [F(u8), F(u16, assert_eq='f0 + 1'), F(u8)], endian='big', maxlen=5, hints=[0, 1, 2, 255])
    A('asvec', [F(u8), F(vec(u8), count='f0', assert_='sum(f1) < 10')], maxlen=4, hints=[0, 1, 2, 9, 10])
    A('asbits', [F(u8, bits=4, assert_='f0 < 9'), F(u8, bits=4, assert_eq='5')], maxlen=2)
    A('nest', [F(u8), F(Struct('MN0', [F(u8, assert_eq='1'), F(u8)], magic=b'\xa5', main=False)), F(u8)], hints=[0xa5, 1], maxlen=6)
    A('vec', [F(u8), F(vec(Struct('MN1', [F(u8)], magic=b'\x7e', main=False)), count='f0')], hints=[0x7e, 1, 2, 0], maxlen=6)
    A('pad', [F(u8, magic=b'\x11', pad_bytes_before=1, pad_bytes_after=1), F(u8, pad_bits_before=4, bits=4)], hints=[0x11, 0], maxlen=6)
    A('temp', [F(u8, temp=True, magic=b'\x02'), F(u8)], hints=[2, 1], maxlen=3, sym=False)
    A('seekm', [F(u8), F(u8, seek=('start', '2'), magic=b'\x33')], hints=[0x33], maxlen=5)
    return o

def fam_ctrl():
    """cond / skip / default / padding / temp / map"""
    o = []
    H = [0, 1, 2, 3, 255]
    A = lambda n, fs, **k: o.append(Struct('K_' + n, fs, tags=['ctrl'] + k.pop('tags', []), hints=k.pop('hints', H), **k))
    A('cond', [F(u8), F(opt(u8), cond='f0 == 1'), F(opt(u16), cond='f0 != 2'), F(u8)], endian='big', maxlen=5)
    A('condv', [F(u8), F(u8, cond='f0 == 1'), F(u8)], maxlen=4, sym=False)
    A('conddef', [F(u8), F(opt(u8), cond='f0 == 1', default=None), F(u8, cond='f0 == 2', default=9), F(u8)], maxlen=5, sym=False)
    A('skip', [F(u8), F(opt(u8), skip='all'), F(u8, skip='all', default=7), F(u8)], maxlen=3)
    A('skipcond', [F(u8), F(opt(u8), skip='all', cond='f0 == 1', default=6), F(opt(u16), skip='all', cond='f0 == 2'), F(u8)], endian='big', maxlen=5)
    A('skipr', [F(u8), F(u8, skip='read', default=7), F(u8)], maxlen=3, sym=False)
    A('skiprc', [F(u8), F(u8, skip='read', cond='f0 == 1', default=7), F(u8)], maxlen=4, sym=False)
    A('skipw', [F(u8), F(u8, skip='write'), F(u8)], maxlen=4, sym=False)
    A('skipwc', [F(u8), F(u8, skip='write', cond='f0 == 1'), F(u8)], maxlen=4, sym=False)
    A('skipallc', [F(u8), F(u8, skip='all', cond='f0 < 2', default=5), F(u8)], maxlen=4)
    A('padbit', [F(u8, bits=2, pad_bits_before=3, pad_bits_after=3), F(u8)], maxlen=3, size=True)
    A('padbit2', [F(u8, bits=5, pad_bits_after=9), F(u8, bits=2)], maxlen=3, size=True)
    A('padlsb', [F(u8, bits=2, pad_bits_before=3, pad_bits_after=3), F(u8, bits=4, pad_bits_before=4)], order='lsb', maxlen=3)
    A('padbyte', [F(u8, pad_bytes_before=1), F(u16, pad_bytes_after=2), F(u8)], endian='big', maxlen=8, size=True)
    A('padboth', [F(u8, pad_bytes_before=1, pad_bits_before=4, bits=4), F(u8, pad_bits_after=3, pad_bytes_after=1, bits=5)], maxlen=5, size=True)
    A('paddyn', [F(u8), F(u8, pad_bytes_before='f0 & 3'), F(u8, pad_bits_after='(f0 & 1) * 8'), F(u8)], maxlen=8)
    A('padskip', [F(u8), F(u8, skip='all', cond='f0 == 2', pad_bits_before=8, default=171), F(u8, cond='f0 == 1', default=0, skip='read', pad_bytes_after=1), F(u8)], maxlen=7, sym=False)
    A('padun', [F(u8, bits=3), F(u8, pad_bytes_before=1), F(u8, bits=5)], maxlen=4)
    A('padvec', [F(u8), F(vec(u8), count='f0', pad_bytes_after='(4 - (len(f1) & 3)) & 3'), F(u8)], maxlen=7)
    A('temp', [F(u8, temp=True), F(vec(u8), count='f0'), F(u8)], maxlen=4, sym=False)
    A('tempv', [F(u8, temp_value='len(f1)'), F(vec(u8), count='f0'), F(u8)], maxlen=5)
    A('tempv16', [F(u8), F(u16, temp_value='len(f2) + f0'), F(vec(u8), count='f1 & 3')], endian='big', maxlen=6, sym=False)
    A('tempvb', [F(u8, temp_value='len(f2)', bits=4), F(u8, bits=4), F(vec(u16), count='f0')], endian='big', maxlen=6)
    A('map', [F(u8, map='addone'), F(u8)], maxlen=3, sym=False)
    A('mapstr', [F(Str, map='tostr'), F(u8)], maxlen=3)
    A('mapfail', [F(u8, map='fail'), F(u8)], maxlen=3)
    A('xor', [F(u8), F(u8, map='xor'), F(u8)], maxlen=4)
    A('xorbits', [F(u8, bits=4), F(u8, map='xor'), F(u8, bits=4)], maxlen=4)
    A('xorcond', [F(u8), F(u8, map='xor', cond='f0 == 1', skip='read', default=3), F(u8)], maxlen=4, sym=False)
    A('offs', [F(u8), F(vec(u8), count='byteoff'), F(vec(u8), count='bitoff & 15')], maxlen=5, sym=False, tags=['offs'])
    A('tuple', [F(u8), F(opt(u8), cond='f0 == 1'), F(vec(u8), count='f0')], tuple=True, maxlen=5)
    return o

def fam_update():
    o = []
    H = [0, 1, 2, 3, 255]
    A = lambda n, fs, **k: o.append(Struct('U_' + n, fs, tags=['update'] + k.pop('tags', []), hints=k.pop('hints', H), **k))
    A('len', [F(u8, update='len(f1)'), F(vec(u8), count='f0')], maxlen=4)
    A('two', [F(u8, update='len(f2)'), F(u8, update='f0 + 1'), F(vec(u8), count='f0')], maxlen=5)
    A('rev', [F(u8, update='f1 + 1'), F(u8, update='len(f2)'), F(vec(u8), count='f1')], maxlen=5)
    A('ovf', [F(u8, update='sum(f1) * 2'), F(vec(u8), read_all=True)], maxlen=4)
    A('sgn', [F(i8, update='0 - len(f1)'), F(vec(u8), read_all=True)], maxlen=4, hints=[0])
    A('neg', [F(u8, update='len(f1) - 1'), F(vec(u8), read_all=True)], maxlen=3)
    A('bits', [F(u8, bits=4, update='len(f2)'), F(u8, bits=4), F(vec(u8), count='f0')], maxlen=4)
    A('tup', [F(u8, update='len(f1)'), F(vec(u16), count='f0')], tuple=True, endian='big', maxlen=5)
    A('u16', [F(u16, update='len(f1) * 2'), F(vec(u16), bytes_read='f0')], endian='big', maxlen=6)
    A('temp', [F(u8, temp_value='len(f2)'), F(u8, update='len(f2) + 3'), F(vec(u8), count='f0')], maxlen=5)
    A('tempb', [F(u8, temp=True), F(u8, update='len(f2)'), F(vec(u8), count='f1')], maxlen=5, sym=False)
    A('none', [F(u8), F(vec(u8), count='f0')], maxlen=4)
    o.append(Enum('U_enum', u8, [V('A', [F(u8, update='len(f1)'), F(vec(u8), count='f0')], id=1), V('B', [F(u8), F(u8, update='f0 + 2')], id=2, tuple=True), V('C', id=3), V('D', [F(u8), F(u8, update='f0 + 2')], pat='4..=6', mat='(range 4 6)')], tags=['update'], hints=H, maxlen=4))
    return o

def fam_ctx():
    """endian / bit order / ctx inheritance"""
    o = []
    A = lambda n, fs, **k: (o.append(Struct('X_' + n, fs, tags=['ctx'] + k.pop('tags', []), **k)), o[-1])[1]
    inn = Struct('XI_en', [F(u16), F(u8)], ctx=[CTXEN], endian=('x', 0), main=False)
    innf = Struct('XI_enf', [F(u16), F(u16, endian='big'), F(u16, endian='little')], ctx=[CTXEN], endian=('x', 0), main=False)
    A('en_b', [F(u16), F(inn), F(u16, endian='little')], endian='big', maxlen=8)
    A('en_l', [F(u16), F(inn), F(u16, endian='big')], endian='little', maxlen=8)
    A('en_f', [F(inn, endian='little'), F(innf, endian='big')], maxlen=10)
    A('en_vec', [F(u8), F(vec(inn), count='f0')], endian='big', maxlen=7, hints=[0, 1, 2])
    A('en_arr', [F(arr(inn, 2))], endian='little', maxlen=7)
    A('en_opt', [F(u8), F(opt(inn), cond='f0 == 1')], endian='big', maxlen=5, hints=[0, 1])
    A('en_box', [F(box(inn)), F(cow(u16)), F(arc(u16))], endian='big', maxlen=8)
    mid = Struct('XI_mid', [F(inn), F(u16)], ctx=[CTXEN], endian=('x', 0), main=False)
    A('en_deep', [F(mid), F(vec(mid), count=1)], endian='little', maxlen=11)
    inno = Struct('XI_od', [F(u8, bits=3), F(u8, bits=5)], ctx=[CTXOD], order=('x', 0), main=False)
    A('od_l', [F(u8, bits=4), F(u8, bits=4), F(inno)], order='lsb', maxlen=3)
    A('od_m', [F(u8, bits=4), F(u8, bits=4), F(inno)], order='msb', maxlen=3)
    A('od_f', [F(inno, order='lsb'), F(inno, order='msb')], maxlen=3)
    inneo = Struct('XI_eo', [F(u16, bits=10), F(u8, bits=6)], ctx=[CTXEN, CTXOD], endian=('x', 0), order=('x', 1), main=False)
    A('eo_ll', [F(inneo)], endian='little', order='lsb', maxlen=3)
    A('eo_bm', [F(inneo)], endian='big', order='msb', maxlen=3)
    A('eo_lm', [F(inneo), F(u8)], endian='little', order='msb', maxlen=4)
    cnt = Struct('XI_cnt', [F(vec(u8), count='x0'), F(u8)], ctx=[('n', 'u8'), ('m', 'u16')], main=False)
    A('cnt', [F(u8), F(u8), F(cnt, ctx=[('f0', 'u8'), ('f1', 'u16')])], maxlen=6, hints=[0, 1, 2])
    A('cnt2', [F(u8), F(u8), F(vec(cnt), count=2, ctx=[('f0', 'u8'), ('f1', 'u16')])], maxlen=8, hints=[0, 1, 2])
    A('cntc', [F(u8), F(cnt, ctx=[('2', 'u8'), ('byteoff', 'u16')])], maxlen=5)
    encnt = Struct('XI_encnt', [F(vec(u16), count='x1')], ctx=[CTXEN, ('n', 'u8')], endian=('x', 0), main=False)
    A('encnt', [F(u8), F(encnt, ctx=[('f0', 'u8')])], endian='big', maxlen=6, hints=[0, 1, 2])
    ebits = Struct('XI_bits', [F(u16, bits='x1')], ctx=[CTXEN, ('n', 'deku::ctx::BitSize')], endian=('x', 0), main=False)
    A('bits', [F(ebits, bits=12), F(u8, bits=4)], endian='big', maxlen=3)
    ebytes = Struct('XI_bytes', [F(u32, bytes='x1')], ctx=[CTXEN, ('n', 'deku::ctx::ByteSize')], endian=('x', 0), main=False)
    A('bytes', [F(ebytes, bytes=3), F(u8)], endian='little', maxlen=5)
    o.append(Struct('X_def', [F(vec(u8), count='x0'), F(u16)], ctx=[('n', 'u8'), ('endian', 'deku::ctx::Endian')], endian=('x', 1), ctx_default=[('2', '2'), DEN], tags=['ctx'], maxlen=5))
    A('defnest', [F(o[-1]), F(u8)], maxlen=6)
    A('defarg', [F(u8), F(o[-2])], maxlen=6)
    e = Enum('XI_enum', u16, [V('A', [u16], id=1), V('B', [F(u16, endian='big')], id=0x200)], ctx=[CTXEN], endian=('x', 0), main=False)
    A('enum_b', [F(e), F(u16)], endian='big', maxlen=7, hints=[0, 1, 2])
    A('enum_l', [F(e), F(u16)], endian='little', maxlen=7, hints=[0, 1, 2])
    ed = Enum('XI_enctx', None, [V('A', [u16], id=1), V('B', [u16, u8], id=2)], idctx='x1', idctx_rust='k', ctx=[CTXEN, ('k', 'u8')], endian=('x', 0), main=False)
    A('enctx', [F(u8), F(ed, ctx=[('f0', 'u8')])], endian='little', maxlen=5, hints=[0, 1, 2])
    ef = Struct('XI_plain', [F(u16), F(u8, bits=4), F(u8, bits=4)], main=False)
    A('plain', [F(ef), F(u16, endian='big'), F(ef)], maxlen=9)
    ts = Struct('XI_topend', [F(u16)], endian='big', main=False)
    A('own', [F(ts), F(u16, endian='little'), F(u16)], maxlen=7)
    cond = Struct('XI_condctx', [F(opt(u8), cond='x0 == 1'), F(u8, assert_='x0 != 3')], ctx=[('k', 'u8')], main=False)
    A('condctx', [F(u8), F(cond, ctx=[('f0', 'u8')])], maxlen=4, hints=[0, 1, 2, 3])
    A('chain', [F(u16), F(Struct('XI_ch', [F(u16)], endian='little', main=False))], maxlen=5)
    return [x for x in o if x]

def fam_seek():
    o = []
    A = lambda n, fs, **k: o.append(Struct('S_' + n, fs, tags=['seek'] + k.pop('tags', []), hints=k.pop('hints', [0, 1, 2, 3]), **k))
    A('start', [F(u8, seek=('start', '2')), F(u8)], maxlen=5)
    A('start0', [F(u8), F(u8), F(u8, seek=('start', '1'))], maxlen=4, sym=False)
    A('cur', [F(u8), F(u8, seek=('cur', '1')), F(u8)], maxlen=5)
    A('curneg', [F(u8), F(u8), F(u8, seek=('cur', '-1')), F(u8)], maxlen=5, sym=False)
    A('curdyn', [F(u8), F(u8, seek=('cur', 'f0')), F(u8)], maxlen=6)
    A('end', [F(u8), F(u8, seek=('end', '-1'))], maxlen=4, sym=False)
    A('end2', [F(u8, seek=('end', '-2')), F(u8)], maxlen=5, sym=False)
    A('rewind', [F(u8), F(u16), F(u8, seek='rewind')], maxlen=4, sym=False)
    A('sstruct', [F(u8), F(Struct('SI_s', [F(u8)], seek=('cur', '1'), main=False)), F(u8)], maxlen=5)
    A('sstart', [F(u8), F(Struct('SI_t', [F(u8), F(u8)], seek=('start', '3'), main=False)), F(u8)], maxlen=7)
    A('srew', [F(u8), F(Struct('SI_r', [F(u8), F(u8)], seek='rewind', main=False)), F(u8)], maxlen=5, sym=False)
    A('send', [F(u8), F(Struct('SI_e', [F(u8)], seek=('end', '-1'), main=False))], maxlen=4, sym=False)
    A('top', [F(u8), F(u8)], seek=('cur', '2'), maxlen=5)
    A('vec', [F(u8), F(vec(u8), count='f0'), F(u8, seek=('start', '5'))], maxlen=7, sym=False)
    A('bits', [F(u8, bits=4), F(u8, seek=('cur', '0'))], maxlen=3)
    A('bits2', [F(u8, bits=3), F(u8, seek=('start', '1'), bits=5), F(u8, seek=('cur', '1'))], maxlen=5)
    A('bitrew', [F(u8, bits=4), F(u8, bits=8, seek='rewind')], maxlen=3, sym=False)
    A('offs', [F(u8), F(u8, seek=('start', '2')), F(vec(u8), count='byteoff')], maxlen=7, sym=False, tags=['offs'])
    A('negerr', [F(u8), F(u8, seek=('cur', '-5'))], maxlen=3)
    A('ctx', [F(u8), F(Struct('SI_c', [F(u8)], seek=('start', 'x0'), ctx=[('off', 'u64')], main=False), ctx=[('f0', 'u64')])], maxlen=5, sym=False)
    A('pad', [F(u8, pad_bytes_after=1), F(u8, seek=('cur', '1'), pad_bytes_before=1), F(u8)], maxlen=7)
    A('magic', [F(u8), F(u8, seek=('cur', '1'), magic=b'\x01')], maxlen=5)
    A('cond', [F(u8), F(opt(u8), seek=('cur', '1'), cond='f0 == 1'), F(u8)], maxlen=5)
    A('enumf', [F(Enum('SI_en', u8, [V('A', [F(u8, seek=('cur', '1'))], id=1), V('B', [F(u8), F(u8, seek=('start', '4'))], id=2)], main=False)), F(u8)], maxlen=7)
    A('all', [F(u8), F(vec(u8), seek=('start', '2'), read_all=True)], maxlen=5, sym=False)
    return o

def fam_dom():
    o = []
    A = lambda n, fs, **k: o.append(Struct('D_' + n, fs, tags=['dom'] + k.pop('tags', []), **k))
    A('bool', [Bool, Bool], hints=[0, 1, 2], maxlen=3, size=True)
    A('boolbits', [F(Bool, bits=1), F(Bool, bits=2), F(Bool, bits=5)], maxlen=2)
    A('boolbits_l', [F(Bool, bits=1), F(Bool, bits=2), F(Bool, bits=5)], order='lsb', maxlen=2)
    A('boolbytes', [F(Bool, bytes=1), F(u8)], maxlen=3)
    A('boolopt', [F(opt(Bool)), F(arr(Bool, 2))], hints=[0, 1], maxlen=4)
    for t in (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128):
        w = int(t.rust[1:])
        for e in ('big', 'little'):
            A(f'nz_{t.rust}_{e}', [F(NZ(t)), F(u8)], endian=e, hints=[0, 1], maxlen=w // 8 + 2)
    A('nz_def', [F(NZ(u8)), F(NZ(u16)), F(NZ(i8))], hints=[0, 1], maxlen=5)
    A('nzbits', [F(NZ(u8), bits=3), F(NZ(u16), bits=9), F(u8, bits=4)], endian='big', maxlen=3)
    A('nzsb', [F(NZ(i8), bits=3), F(NZ(i16), bits=9), F(u8, bits=4)], endian='little', maxlen=3)
    A('nzbytes', [F(NZ(u32), bytes=3), F(NZ(u16), bytes=1)], endian='big', hints=[0, 1], maxlen=5)
    A('nzlsb', [F(NZ(u8), bits=3), F(NZ(u16), bits=8), F(u8, bits=5)], endian='little', order='lsb', maxlen=3)
    A('nzvec', [F(u8), F(vec(NZ(u8)), count='f0')], hints=[0, 1, 2], maxlen=4)
    A('nzopt', [F(u8), F(opt(NZ(u16)), cond='f0 == 1')], endian='little', hints=[0, 1], maxlen=4)
    A('cstr', [F(CStr), F(u8)], hints=[0, 1, 255], maxlen=5)
    A('cstrn', [F(CStr, bytes=3), F(u8)], hints=[0, 1, 255], maxlen=5)
    A('cstrdyn', [F(u8), F(CStr, bytes='f0'), F(u8)], hints=[0, 1, 2, 3, 4], maxlen=6)
    A('cstrbits', [F(u8, bits=4), F(CStr), F(u8, bits=4)], hints=[0, 0x10, 0x01, 0x0f, 0xf0], maxlen=4)
    A('cstr2', [F(CStr), F(CStr)], hints=[0, 1], maxlen=5)
    A('cstrvec', [F(u8), F(vec(CStr), count='f0')], hints=[0, 1, 2], maxlen=5)
    A('ip4', [F(Ip4), F(u8)], endian='big', maxlen=5)
    A('ip4l', [F(Ip4), F(Ip4)], endian='little', maxlen=9)
    A('ip6', [F(Ip6)], endian='big', maxlen=17)
    A('ip6l', [F(Ip6)], endian='little', maxlen=17)
    A('ipvec', [F(u8), F(vec(Ip4), count='f0')], endian='big', hints=[0, 1, 2], maxlen=9)
    return o

def fam_nest():
    o = []
    A = lambda n, fs, **k: (o.append(Struct('T_' + n, fs, tags=['nest'] + k.pop('tags', []), hints=k.pop('hints', [0, 1, 2, 3]), **k)), o[-1])[1]
    hdr = Struct('TI_hdr', [F(u8, bits=4), F(u8, bits=4, assert_='f1 != 15'), F(u8)], endian='big', main=False)
    body = Enum('TI_body', None, [V('A', [u8], id=0), V('B', [u16, vec_f(u8)], id=1), V('C', [F(vec(u8), count='x1')], id=2), V('D', id=3)], idctx='x0', idctx_rust='t', ctx=[('t', 'u8'), ('l', 'u8')], endian='little', main=False)
    A('pkt', [F(u8, bits=4), F(u8, bits=4), F(u8), F(body, ctx=[('f0', 'u8'), ('f2', 'u8')]), F(u8)], maxlen=6, hints=[0, 0x10, 0x20, 0x30, 1, 2])
    A('hdr', [F(hdr), F(hdr)], maxlen=5)
    tlv = Struct('TI_tlv', [F(u8), F(u8, temp_value='len(f2)'), F(vec(u8), count='f1')], main=False)
    A('tlvs', [F(u8), F(vec(tlv), bytes_read='f0'), F(u8)], maxlen=7, hints=[0, 2, 3, 1, 4, 5])
    A('tlvall', [F(vec(tlv), read_all=True)], maxlen=6, hints=[0, 1, 2])
    A('tlvuntil', [F(vec(tlv), until=('==', 0)), F(u8)], maxlen=6, hints=[0, 1, 2])
    bl = Struct('TI_bl', [F(u8, bits=3), F(u8, bits=3)], main=False)
    A('bitrec', [F(bl), F(u8, bits=2), F(arr(bl, 4)), F(opt(bl))], maxlen=6, hints=[0, 0xff, 0x5a])
    A('deep', [F(Struct('TI_a', [F(Struct('TI_b', [F(Struct('TI_c', [F(u8, bits=1), F(u16, bits=9)], endian='big', main=False)), F(u8, bits=2)], main=False)), F(u8, bits=4)], main=False)), F(u8)], maxlen=4)
    return o
def vec_f(t): return F(vec(t), count='x1')

def fam_long():
    """what is longer than the library's internal buffers, ends in padding, or follows a query for the end of the input"""
    o = []
    A = lambda n, fs, **k: (o.append(Struct('G_' + n, fs, tags=['long'] + k.pop('tags', []), **k)), o[-1])[1]
    for m in (63, 64, 65, 129):
        for kk in ('pad_bytes_before', 'pad_bytes_after'):
            if m in (65, 129) or kk == 'pad_bytes_before': A(f'{kk}_{m}', [F(u8), F(u16, **{kk: m}), F(u8)], endian='little', maxlen=m + 5)
    for m in (512, 517):
        for od in (None, 'msb', 'lsb'):
            for kk in ('pad_bits_before', 'pad_bits_after'):
                A(f'{kk}_{m}_{od}', [F(u8, bits=3), F(u8, bits=5, **{kk: m}), F(u8, bits=8 - m % 8)], order=od, maxlen=(m + 7) // 8 + 3)
    A('pad_f', [F(u8, bits=4), F(u8, bits=4, order='lsb', pad_bits_after='520'), F(u8)], maxlen=68)
    A('pad_dyn', [F(u8), F(u8, pad_bytes_before='f0'), F(u8)], maxlen=69, hints=[0, 1, 65, 66, 64, 255])
    A('pad_dynb', [F(u8), F(u8, pad_bits_after='(f0 & 3) * 260'), F(u8)], maxlen=69, hints=[0, 2, 1])
    H = [1, 2, 3, 4, 0]
    for od in (None, 'lsb'):
        o.append(Enum(f'G_epad_{od}', u8, [V('A', [F(u8, pad_bytes_after=2)], id=1), V('B', [F(u8, bits=4, pad_bits_after=12)], id=2), V('C', [F(u8, pad_bits_after=3)], id=3), V('D', [F(u8), F(u8, pad_bytes_after='f0')], id=4)], order=od, tags=['long'], hints=H, maxlen=5))
    o.append(Enum('G_epad_def', u8, [V('A', [F(u8), F(u8, pad_bytes_after=2)], pat='1..=2', mat='(range 1 2)'), V('B', [F(u8, pad_bytes_after=1)], id=7, default=True)], tags=['long'], hints=H, maxlen=5))
    o.append(Enum('G_epad_long', u8, [V('A', [F(u8, pad_bytes_after=66)], id=1), V('B', [F(u8, pad_bits_before=528, order='lsb'), F(u8)], id=2)], tags=['long'], hints=H, maxlen=70))
    A('spad', [F(u8), F(u8, pad_bytes_after='f0')], maxlen=5, hints=H)
    A('spadb', [F(u8, bits=3), F(u8, bits=5, pad_bits_after='f0')], maxlen=3)
    pe = Enum('GI_pe', u8, [V('A', [F(u8, pad_bytes_after=1)], id=1), V('B', [F(u8)], id=2)], main=False)
    A('vpad', [F(u8), F(vec(pe), count='f0')], maxlen=7, hints=H)
    A('cnt', [F(u8), F(vec(u8), count='f0'), F(u8)], maxlen=68, hints=[64, 65, 66, 0, 1, 255])
    A('cnt16', [F(u8), F(vec(u16), count='f0')], endian='big', maxlen=68, hints=[32, 33, 0, 1, 255])
    A('cntb', [F(u8), F(vec(u16), bits=12, count='f0'), F(u8, bits=4)], endian='big', maxlen=68, hints=[43, 44, 0, 1, 255])
    A('cstr', [F(CStr), F(u8)], maxlen=68, hints=[1, 0, 255])
    A('arr', [F(arr(u8, 65)), F(arr(u16, 2))], endian='big', maxlen=71)
    for e in ('big', 'little'):
        for n, t, y in (('u16', u16, None), ('u32', u32, None), ('i32', i32, None), ('u64', u64, None), ('y2', u32, 2), ('y3', u32, 3), ('iy3', i32, 3), ('y5', u64, 5), ('y1', u16, 1), ('b16', u16, -16), ('b12', u16, -12)):
            at = {} if y is None else dict(bytes=y) if y > 0 else dict(bits=-y)
            w = {'u64': 8, 'u16': 2, 'b16': 2, 'b12': 2}.get(n, 4 if y is None else y)
            if e == 'big' or n in ('u32', 'y3'):
                A(f'all_{n}_{e}', [F(u8), F(vec(t), read_all=True, **at)], endian=e, maxlen=min(2 * w + 2, 14))
        A(f'allr_{e}', [F(u8), F(vec(Struct(f'GI_r{e}', [F(u32, bytes=3), F(u8)], endian=e, main=False)), read_all=True)], maxlen=10)
        A(f'alltup_{e}', [F(vec(tup(u16, u32)), read_all=True)], endian=e, maxlen=13)
        A(f'allarr_{e}', [F(boxs(arr(u16, 2)), read_all=True)], endian=e, maxlen=9)
    A('all_nz', [F(vec(NZ(u32)), read_all=True)], endian='big', maxlen=9)
    A('all_nib', [F(u8, bits=4), F(vec(u16), read_all=True)], endian='big', maxlen=6)
    A('all_cstr', [F(vec(CStr), read_all=True)], maxlen=5, hints=[0, 1])
    A('all_enum', [F(vec(pe), read_all=True)], maxlen=6, hints=H)
    A('all_pb', [F(vec(Struct('GI_pb', [F(u16, pad_bytes_before=1)], endian='big', main=False)), read_all=True)], maxlen=7)
    A('all_skip', [F(vec(Struct('GI_sk', [F(u8, seek=('cur', '1')), F(u8)], main=False)), read_all=True)], maxlen=7, sym=False)
    A('all_mag', [F(vec(Struct('GI_mg', [F(u8)], magic=b'\x01\x02', main=False)), read_all=True)], maxlen=7, hints=[1, 2])
    return [x for x in o if x]

FAMS = dict(num=fam_num, bits=fam_bits, cont=fam_cont, enum=fam_enum, magic=fam_magic, ctrl=fam_ctrl, update=fam_update, ctx=fam_ctx, seek=fam_seek, dom=fam_dom, nest=fam_nest, long=fam_long)
def fams(*names):
    out = []
    for n in names: out += FAMS[n]()
    return out
ALL = list(FAMS)
