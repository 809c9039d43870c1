"""Product families: full products of a property's own dimensions (on top of the zoo)."""
from dsl import *
import os
from zoo import DEN, DENL, DOD, DODM
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'

# ---------------------------------------------------------------------------------- C08 containers
def elements():
    """name, type, field attributes, size in bits of the common element, hashable, predicate value"""
    rec = Struct('LRec', [F(u8), F(u16)], endian='big', hash=True, main=False)
    nib = Struct('LNib', [F(u8, bits=4)], hash=True, main=False)
    nibl = Struct('LNibL', [F(u8, bits=4)], order='lsb', hash=True, main=False)
    var = Struct('LVar', [F(u8), F(vec(u8), count='f0 & 3')], hash=True, main=False)
    en = Enum('LEnum', u8, [V('A', id=1), V('B', [u8], id=2), V('C', [F(u16, endian='little')], id=0)], hash=True, main=False)
    pad = Struct('LPad', [F(u8, bits=4, pad_bits_before=4)], hash=True, main=False)
    padb = Struct('LPadB', [F(u8, pad_bytes_before=1)], hash=True, main=False)
    mag = Struct('LMag', [F(u8)], magic=b'\x02', hash=True, main=False)
    ctx = Struct('LCtx', [F(vec(u8), count='x0')], ctx=[('n', 'u8')], hash=True, main=False)
    til = Struct('LTil', [F(vec(u8), until=('==', 0))], hash=True, main=False)
    out = [
        ('u8', u8, {}, 8, True), ('u16', u16, {}, 16, True), ('i16', i16, dict(endian='big'), 16, True), ('u32', u32, {}, 32, True),
        ('b3', u8, dict(bits=3), 3, True), ('b12', u16, dict(bits=12), 12, True), ('ib5', i8, dict(bits=5), 5, True), ('y3', u32, dict(bytes=3), 24, True),
        ('b8', u8, dict(bits=8), 8, True), ('b12l', u16, dict(bits=12, endian='little'), 12, True), ('u8l', u8, dict(order='lsb'), 8, True), ('b3l', u8, dict(bits=3, order='lsb'), 3, True), ('u16l', u16, dict(order='lsb'), 16, True),
        ('rec', rec, {}, 24, True), ('nib', nib, {}, 4, True), ('nibl', nibl, {}, 4, True), ('var', var, {}, 8, True), ('enum', en, {}, 8, True), ('pad', pad, {}, 8, True), ('padb', padb, {}, 16, True), ('mag', mag, {}, 16, True),
        ('ctx', ctx, dict(ctx=[('2', 'u8')]), 16, True), ('til', til, {}, 8, True),
        ('tup', tup(u8, u16), {}, 24, True), ('tupb', tup(u8, u8), dict(bits=3), 6, True), ('arr', arr(u8, 2), {}, 16, True), ('bool', Bool, {}, 8, True), ('boolb', Bool, dict(bits=1), 1, True),
        ('nz', NZ(u8), {}, 8, True), ('box', box(u8), {}, 8, True), ('opt', opt(u8), {}, 8, True), ('cstr', CStr, {}, 8, True), ('f32', f32, {}, 32, False), ('i128', i128, {}, 128, True), ('u8y', u8, dict(bytes=1), 8, True),
    ]
    return out
LIMS = ['cntd', 'cntc', 'byd', 'byc', 'bid', 'bic', 'unt', 'all']
def hints_for(lim, bits, t):
    if lim == 'bid': return [0, bits, 2 * bits, 3 * bits, bits + 1, 8, 1]
    if lim == 'byd': return [0, 1, 2, 3, 4, max(1, bits // 8) * 2, 6, 8]
    return [0, 1, 2, 3, 255]
def has_num(t):
    h = t.sx.strip('()').split()[0]
    return h in ('u', 'i', 'nzu', 'nzi', 'rec', 'tup') and not t.rust.startswith(('LTil', 'LVar', 'LEnum', 'LCtx', 'LPad')) or h == 'wrap' and not t.rust.endswith(']>')
def small(t): return t.rust not in ('i128', 'f32') and t.rust not in ('u32',)

def containers():
    out = []
    E = elements()
    def prog(cn, mk, lim, e, pos, elem=None):
        n, t, a, bits, hashable = e
        ty = mk(t)
        if lim in ('bid', 'bic', 'byd', 'byc') and bits == 128: return
        if (lim in ('byd', 'byc')) and bits % 8 and bits != 4 and n not in ('b12', 'b3') : return
        if lim == 'unt':
            q = ty.deps[0]
            if not has_num(t) or t is i128: return
        lim_a = {'cntd': dict(count='f0'), 'cntc': dict(count=2), 'byd': dict(bytes_read='f0'), 'byc': dict(bytes_read=(2 * bits + 7) // 8 if bits % 8 == 0 or bits == 4 else 3), 'bid': dict(bits_read='f0'), 'bic': dict(bits_read=2 * bits),
                 'unt': dict(until=('==', 1)), 'all': dict(read_all=True)}[lim]
        head = [F(u8)] if lim in ('cntd', 'byd', 'bid') else []
        kw = {}
        at = {**a, **lim_a}
        if pos: # not at a byte boundary; the whole type uses one bit order
            head += [F(u8, bits=4)] if pos != 'msb1' else [F(u8, bits=1)]
        tail = [F(u8, bits=4)] if lim not in ('all',) else []
        if lim == 'all' and pos: pass
        b = bits * 2
        if not isinstance(t, Prog) and t is not CStr:
            kw['endian'] = 'big' if len(out) % 2 and pos != 'lsb' else 'little'
            if pos == 'lsb': kw['order'] = 'lsb'
            if 'order' in a: tail = [F(f.ty, **{**f.a, 'order': 'lsb'}) for f in tail]
            if 'order' in a: head = [F(f.ty, **{**f.a, 'order': 'lsb'}) if 'bits' in f.a else f for f in head]
        h = hints_for(lim, bits, t)
        if t.rust == 'LMag': h = [2] + h
        name = f'L_{cn}_{lim}_{n}' + (f'_{pos}' if pos else '')
        sym = True
        tags = ['cont']
        if cn in ('set', 'map'):
            sym = False
            tags.append(f'unord:{(8 if lim in ("cntd", "byd", "bid") else 0)}:{bits}:{0 if lim == "all" else 8}')
            if bits % 8 or pos or n in ('var', 'enum', 'til', 'cstr'): tags.append('nowrite')
        out.append(Struct(name, head + [F(ty, **at)] + tail, tags=tags, hints=h, maxlen=min(2 + (b + 7) // 8 + (1 if head else 0) + (1 if bits <= 16 else 0), 10 if bits <= 32 else 20), sym=sym, **kw))
    for e in E:
        for lim in LIMS:
            prog('vec', vec, lim, e, '')
    for lim in LIMS:
        for e in E:
            if e[0] in ('u8', 'u16', 'b3', 'b12', 'nib', 'rec', 'var', 'tup', 'arr', 'y3', 'bool', 'u8y', 'b8') or THOROUGH:
                prog('vec', vec, lim, e, 'msb')
            if e[0] in ('u8', 'u16', 'b3', 'b8') or THOROUGH and e[0] in ('tup', 'arr', 'bool', 'y3', 'i16', 'u32', 'box'):
                prog('vec', vec, lim, e, 'lsb')
            if e[0] in ('u8', 'u16', 'nib') or THOROUGH: prog('vec', vec, lim, e, 'msb1')
            if e[0] in ('u8', 'u16', 'nib', 'var', 'b12') or THOROUGH: prog('boxs', boxs, lim, e, '')
            if e[0] in ('u8', 'u16', 'var') or THOROUGH: prog('arcs', arcs, lim, e, '')
            if e[0] in ('u8', 'u16', 'nib', 'var', 'b12', 'tup', 'en') and e[4]: prog('set', hset, lim, e, '')
            if e[0] in ('u8', 'u16') : prog('set', hset, lim, e, 'msb')
    return out
def setmaps():
    """maps: key and value sizes, every limit"""
    out = []
    nib = Struct('LMNib', [F(u8, bits=4)], hash=True, main=False)
    for kn, k, kb in (('u8', u8, 8), ('u16', u16, 16), ('nib', nib, 4)):
        for vn, v, vb in (('u8', u8, 8), ('u16', u16, 16), ('nib', nib, 4), ('vec0', None, 0)):
            if v is None: continue
            bits = kb + vb
            for lim in LIMS:
                if lim == 'unt': continue
                if lim in ('byd', 'byc') and bits % 8: continue
                a = {'cntd': dict(count='f0'), 'cntc': dict(count=2), 'byd': dict(bytes_read='f0'), 'byc': dict(bytes_read=2 * bits // 8), 'bid': dict(bits_read='f0'), 'bic': dict(bits_read=2 * bits), 'all': dict(read_all=True)}[lim]
                head = [F(u8)] if lim in ('cntd', 'byd', 'bid') else []
                tags = ['cont', f'unord:{8 * len(head)}:{bits}']
                tail = [] if lim == 'all' else [F(u8, bits=4)]
                if bits % 8: tags.append('nowrite')
                tags[-1 if tags[-1] != 'nowrite' else -2] += f':{8 if tail else 0}'
                out.append(Struct(f'LM_{kn}_{vn}_{lim}', head + [F(hmap(k, v), **a)] + tail, endian=None if 'nib' in (kn, vn) else 'big' if lim[0] == 'c' else 'little', hints=hints_for(lim, bits, k), tags=tags, sym=False, maxlen=min(len(head) + 2 * bits // 8 + 2, 9)))
    return out

# ---------------------------------------------------------------------------------- C10 enums
def tyinfo(t): return (t.rust[0] == 'i', int(t.rust[1:]))
def idforms(form, t, n, filler):
    """variants of one form for ids of n bits of type t"""
    signed, w = tyinfo(t)
    top = 1 << (n - 1)
    if signed: a, b, c, lo, hi = 1 % top if n > 1 else 0, -1, -top, 2, 5
    else: a, b, c, lo, hi = 1, (1 << n) - 1, top | (1 if n > 2 else 0), 2, 5
    if n < 4: lo, hi = (2, 2) if n > 2 or not signed else (0, 0)
    fl = [F(u8, bits=filler)] if filler else []
    lit = lambda k: k if k >= 0 and k < 1 << 63 else str(k)
    L = lambda nm, k, *f, **x: V(nm, list(f) + fl, id=lit(k), num=k, **x)
    if c in (a, b): c = None
    if a == b: a = 0
    C = [L('C', c, u8, u8)] if c is not None else []
    st = F(t)
    P = lambda nm, x, y: V(nm, [st] + fl + [u8], pat=f'{x}..={y}', mat=f'(range {x} {y})')
    if form == 'lit': return [L('A', a), L('B', b, u8)] + C
    if form == 'str': return [V('A', fl, id=str(a), num=a), V('B', [u8] + fl, id=f'{b}', num=b, tuple=True)] + C
    if form == 'pat': return [L('A', a), P('R', lo, hi), L('B', b, u8)] + C + [V('Any', [st] + fl, pat='_', mat='(any)', tuple=True)]
    if form == 'oneof': return [V('O', [st] + fl, pat=f'{lo} | {b}', mat=f'(oneof {lo} {b})', tuple=True), L('A', a), L('B', b, u8)] + C
    if form == 'dflt': return [L('A', a), L('B', b, u8, default=True)] + C
    if form == 'dfltfirst': return [L('Z', b, u8, u8, default=True), L('A', a)] + C
    if form == 'order1': return [P('P', lo, hi), L('B', hi, u8), L('A', a)]
    if form == 'order2': return [L('B', hi, u8), P('P', lo, hi), L('A', a), V('Any', [st] + fl, pat='_', mat='(any)', tuple=True)]
    if form == 'anymid': return [L('A', a), V('Any', [st] + fl, pat='_', mat='(any)'), L('B', b, u8)]
    if form == 'anydef': return [L('A', a), L('B', b, u8, default=True), V('Any', [st] + fl + [u8], pat=f'{lo}', mat=f'(oneof {lo})')]
    if form == 'disc': return [V('A', disc=a), V('B', disc=a + 1, implicit=True), V('C', disc=b)] if b != a + 1 and b != a else [V('A', disc=a), V('C', disc=b)] if a != b else None
    if form == 'discmix': return [V('A', disc=a), V('B', [u8] + fl, id=lit(b), num=b, disc=hi if n > 3 else lo), V('U', pat=f'{lo}', mat=f'(oneof {lo})', disc=lo)] if lo not in (a, b) and hi != lo else None
    raise Exception(form)
FORMS = ['lit', 'str', 'pat', 'oneof', 'dflt', 'dfltfirst', 'order1', 'order2', 'anymid', 'anydef', 'disc', 'discmix']
def enums():
    out = []
    k = 0
    for t in (u8, i8, u16, i16, u32, i32, u64, i64, u128):
        signed, w = tyinfo(t)
        sizes = [('', {}, w)]
        sizes += [(f'b{n}', dict(bits=n), n) for n in {8: (1, 3, 4, 7), 16: (3, 9, 12), 32: (5, 20), 64: (33,), 128: (70,)}[w]]
        sizes += [(f'y{n}', dict(bytes=n), 8 * n) for n in {8: (), 16: (1,), 32: (3,), 64: (5,), 128: (9,)}[w]]
        for sn, sa, n in sizes:
            for en, iden in ((None, None), ('big', None), ('little', None), ('little', 'big'), ('big', 'little'), (None, 'big')):
                for od in (None, 'lsb'):
                    if 'bytes' in sa and od: continue
                    eff = iden or en or 'little'
                    if od and eff == 'big' and n > 8 and n % 8: continue
                    for fi, form in enumerate(FORMS):
                        k += 1
                        full = w == 8 and (en, iden) in ((None, None), ('big', None)) or w == 16 and not sa and not od
                        if not THOROUGH and not full and (k * 7 + fi * 5) % 9: continue
                        if n < 4 and form in ('order1', 'order2', 'anydef', 'discmix', 'oneof', 'pat') and (signed or n < 3): continue
                        if form in ('disc', 'discmix') and w == 128: continue
                        vs = idforms(form, t, n, (8 - n % 8) % 8)
                        if vs is None: continue
                        kw = dict(sa)
                        if en: kw['endian'] = en
                        if iden: kw['id_endian'] = iden
                        if od: kw['order'] = od
                        name = f'P_{t.rust}{sn}_{en or "d"}{"_" + iden if iden else ""}{"_lsb" if od else ""}_{form}'
                        ids = sorted({x for v in vs for x in [v.a.get('num'), v.a.get('disc')] if isinstance(x, int)} | {2, 5, 3, 6})
                        h = sorted({(x & ((1 << n) - 1)) >> s & 255 for x in ids for s in range(0, n, 8)} | ({((x << (8 - n % 8)) & 255) for x in ids} if n % 8 else set()))[:14]
                        if len(h) < 3: h = [0, 1, 2, 255]
                        tags = ['enum'] + ([f'idbytes:{(n + 7) // 8}'] if n <= 16 else [])
                        out.append(Enum(name, t, vs, tags=tags, idof=(None, t), hints=h, maxlen=min(18, (n + 7) // 8 + 3), **kw))
    # other id types
    H = [0, 1, 2, 3, 0x61, 0x62, 0x63]
    A = lambda n, idty, vs, **k: out.append(Enum('PX_' + n, idty, vs, tags=['enum'] + k.pop('tags', []), hints=k.pop('hints', H), idof=(None, idty), **k))
    A('bytes3', arr(u8, 3), [V('A', [u8], id=b'abc'), V('B', [u16], id=b'\x00\x01\x02'), V('C', id=b'aba')], maxlen=6)
    A('bytes2d', arr(u8, 2), [V('A', [u8], id=b'ab'), V('B', [u16, u8], id=b'ba', default=True)], maxlen=6, endian='big')
    A('bool', Bool, [V('T', [u8], id='true', num=1), V('N', [u16], id='false', num=0)], endian='big', maxlen=4, tags=['idbytes:1'])
    A('boolb', Bool, [V('T', [F(u8, bits=6)], id=True, num=1), V('N', [F(u16, bits=14)], id=False, num=0)], bits=2, maxlen=4, tags=['idbytes:1'])
    kind = Enum('PXKind', u8, [V('X', id=7), V('Y', id=1), V('Z', id=3)], main=False)
    A('enumid', kind, [V('A', [u8], id='PXKind::X', num=0), V('B', [u16], id='PXKind::Z', num=2)], maxlen=4, hints=[7, 1, 3, 0])
    A('magic', u8, [V('A', [u8], id=1), V('B', [u8, u8], pat='2..=4', mat='(range 2 4)'), V('D', id=9, default=True)], magic=b'\xa5\x01', hints=[0xa5, 1, 2, 4, 9], maxlen=5)
    A('magicb', u16, [V('A', [u8], id=1), V('B', [u16, u8], pat='2..=4', mat='(range 2 4)')], magic=b'\xa5', endian='big', hints=[0xa5, 0, 1, 2, 4, 9], maxlen=6)
    A('temps', u8, [V('A', [F(u8, temp_value='len(f1)'), F(vec(u8), count='f0')], id=1), V('B', [F(u8), F(vec(u8), count='f0', pad_bytes_after=1)], pat='2..=3', mat='(range 2 3)'), V('C', [F(u8, temp=True), F(u8)], id=5)], maxlen=6, sym=False)
    A('attrs', u8, [V('A', [F(u8, assert_='f0 != 3'), F(opt(u16), cond='f0 == 1', endian='big')], id=1), V('B', [F(u8, pad_bits_before=4, bits=4), F(u16, bits=16)], id=2, tuple=True), V('C', [F(u8, magic=b'\x00')], id=3)], endian='little', maxlen=5)
    A('one', u8, [V('A', [u8], id=3)], maxlen=3, tags=['idbytes:1'])
    A('anyonly', u16, [V('A', [u16, u8], pat='_', mat='(any)')], endian='big', maxlen=4, tags=['idbytes:2'])
    A('many', u8, [V(f'V{i}', [u8] * (i % 3), id=i * 7 % 256) for i in range(40)], maxlen=4, tags=['idbytes:1'])
    # ids from arguments
    def C(n, ct, idx, idr, vs, idt=None, **k):
        wk = {x: k.pop(x) for x in ('wendian',) if x in k}
        e = Enum('PCI_' + n, None, vs, idctx=idx, idctx_rust=idr, ctx=[('kind', ct.rust)], main=False, **k)
        o = dict(idof=(1, ct)) if idt else {}
        out.append(Struct('PC_' + n, [F(ct, **({'endian': 'big'} if ct is not u8 and ct is not i8 else {})), F(e, ctx=[('f0', ct.rust)]), F(u8)], tags=['enum', f'idbytes:{tyinfo(ct)[1] // 8}'] if tyinfo(ct)[1] <= 16 else ['enum'], hints=[0, 1, 2, 3, 4, 5, 255, 254], maxlen=tyinfo(ct)[1] // 8 + 4, sym=k.pop('sym', not any(v.a.get('default') or 'pat' in v.a for v in vs)), **o))
    for ct in (u8, i8, u16, i16, u32):
        s = tyinfo(ct)[0]
        C(f'lit_{ct.rust}', ct, 'x0', 'kind', [V('A', id=1), V('B', [u8], id=2), V('N', [u16], id='-1' if s else '255', num=-1 if s else 255)], idt=True, endian='big')
        C(f'pat_{ct.rust}', ct, 'x0', 'kind', [V('A', id=1), V('P', [u16, u8], pat='2..=4', mat='(range 2 4)'), V('N', [u8], id='-1' if s else '255', num=-1 if s else 255), V('Any', pat='_', mat='(any)')], idt=True, endian='little')
        C(f'def_{ct.rust}', ct, 'x0', 'kind', [V('D', [u8], id=9, default=True), V('A', [u16], id=1), V('P', [u8, u8], pat='2 | 3', mat='(oneof 2 3)', tuple=True)], idt=True)
        C(f'expr_{ct.rust}', ct, 'x0 & 3', 'kind & 3', [V('A', id=1), V('B', [u8], id=2), V('Z', [u8, u8], id=0)])
    return out

# ---------------------------------------------------------------------------------- C11 magic and assertions
def magics():
    out = []
    seqs = dict(m1=b'\x5a', m2=b'\x00\xff', m3=b'deK', m4=b'\x80\x01\x02\x03', rep=b'\xa5\xa5', z=b'\x00\x00', l9=bytes(range(0x11, 0x1a)), l20=bytes((i * 37 + 5) % 256 for i in range(20)))
    def A(n, fs, m, **k):
        h = list(dict.fromkeys(list(m) + k.pop('h', []) + [0, 1]))[:12]
        out.append(Struct('Q_' + n, fs, tags=['magic'] + k.pop('tags', []), hints=h, maxlen=k.pop('maxlen', len(m) + 4), **k))
    fields = dict(u8=lambda m: [F(u8, magic=m)], u16=lambda m: [F(u16, magic=m, endian='big')], b4=lambda m: [F(u8, magic=m, bits=4), F(u8, bits=4)], pb=lambda m: [F(u8, magic=m, pad_bytes_before=1)], pa=lambda m: [F(u8, magic=m, pad_bits_after=8)],
        pbb=lambda m: [F(u8, magic=m, pad_bits_before=3, bits=5)], vec=lambda m: [F(vec(u8), magic=m, count=2)], vall=lambda m: [F(vec(u8), magic=m, read_all=True)], opt=lambda m: [F(opt(u8), magic=m)], arr=lambda m: [F(arr(u8, 2), magic=m)],
        cond=lambda m: [F(u8), F(opt(u8), magic=m, cond='f0 == 1')], skip=lambda m: [F(u8, magic=m, skip='all', default=7)], skipr=lambda m: [F(u8, magic=m, skip='read', default=7)], temp=lambda m: [F(u8, magic=m, temp=True), F(u8)],
        tempv=lambda m: [F(u8, magic=m, temp_value='len(f1)'), F(vec(u8), count='f0')], unit=lambda m: [F(Unit, magic=m)], rec=lambda m: [F(Struct('QI_' + m.hex(), [u8], main=False), magic=m)], asr=lambda m: [F(u8, magic=m, assert_='f0 != 1')],
        two=lambda m: [F(u8, magic=m), F(u8, magic=m[::-1])], map=lambda m: [F(u8, magic=m, map='xor')], upd=lambda m: [F(u8, magic=m, update='len(f1)'), F(vec(u8), count='f0')], seekc=lambda m: [F(u8), F(u8, magic=m, seek=('cur', '1'))])
    nosym = ('cond', 'skipr', 'temp')
    for sn, m in seqs.items():
        for fn, mk in fields.items():
            if not THOROUGH and sn not in ('m2',) and fn not in ('u8', 'vec') and hash_(fn, sn) % 3: continue
            fs = mk(m)
            A(f'f_{fn}_{sn}', [F(u8)] + shift(fs, 1) + [F(u8)] if fn not in ('vall',) else [F(u8)] + shift(fs, 1), m, sym=fn not in nosym, maxlen=min(len(m) + 5 + (len(m) if fn == 'two' else 0), 24))
            if fn in ('u8', 'u16', 'vec', 'b4', 'pb'):
                A(f'fu_{fn}_{sn}', [F(u8, bits=3)] + shift(fs, 1) + [F(u8, bits=5)], m, sym=fn not in nosym, maxlen=len(m) + 5, h=[x >> 3 for x in m] + [(x << 5) & 255 for x in m])
        A(f't_{sn}', [F(u8), F(u16)], m, endian='big', magic=m)
        A(f'tl_{sn}', [F(u8, bits=4), F(u16), F(u8, bits=4)], m, endian='little', order='lsb', magic=m)
        A(f'tf_{sn}', [F(u8, magic=m[::-1]), F(u8)], m, magic=m, maxlen=min(2 * len(m) + 3, 24))
        inner = Struct(f'QN_{sn}', [F(u8)], magic=m, main=False)
        A(f'n_{sn}', [F(u8), F(inner), F(u8, bits=4), F(inner), F(u8, bits=4)], m, maxlen=min(2 * len(m) + 5, 30))
        A(f'no_{sn}', [F(u8), F(opt(inner), cond='f0 == 1'), F(u8)], m, sym=False)
        A(f'nv_{sn}', [F(u8), F(vec(inner), count='f0')], m, h=[2, 3], maxlen=min(2 * len(m) + 4, 28))
        A(f'na_{sn}', [F(arr(inner, 2))], m, maxlen=min(2 * len(m) + 3, 28))
        A(f'nr_{sn}', [F(vec(inner), read_all=True)], m, maxlen=min(2 * len(m) + 3, 28))
        e = Enum(f'Q_e_{sn}', u8, [V('A', [F(u8, magic=m)], id=1), V('B', [u16], id=2)], magic=m, tags=['magic'], hints=list(dict.fromkeys(list(m) + [1, 2]))[:12], maxlen=min(2 * len(m) + 3, 28))
        out.append(e)
        out.append(Enum(f'Q_el_{sn}', u8, [V('A', [F(u8, bits=4)], id=1), V('B', [F(u16, bits=12)], id=2)], bits=4, order='lsb', magic=m, tags=['magic'], hints=list(dict.fromkeys(list(m) + [1, 2, 0x21, 0x12]))[:12], maxlen=len(m) + 4, endian='little'))
        A(f'ne_{sn}', [F(u8, bits=1), F(e), F(u8, bits=7)], m, h=[x >> 1 for x in m] + [1, 0x80, 2], maxlen=min(2 * len(m) + 5, 28))
    return out
def hash_(*a):
    h = 7
    for c in '/'.join(map(str, a)): h = (h * 31 + ord(c)) % 1000003
    return h
def reidx(src, n):
    import re
    return re.sub(r'\b(f)(\d+)', lambda m: f'f{int(m.group(2)) + n}', src)
def shift(fs, n):
    """move expressions n fields to the right"""
    out = []
    for f in fs:
        a = {}
        for k, v in f.a.items():
            if isinstance(v, str) and k not in ('endian', 'order', 'skip', 'map') and v != 'rewind': v = reidx(v, n)
            elif k == 'seek' and isinstance(v, tuple): v = (v[0], reidx(v[1], n))
            elif k == 'ctx': v = [(reidx(e, n), t) for e, t in v]
            a[k] = v
        out.append(F(f.ty, **a))
    return out
def asserts():
    out = []
    H = [0, 1, 2, 3, 5, 9, 255]
    A = lambda n, fs, **k: out.append(Struct('QA_' + n, fs, tags=['assert'] + k.pop('tags', []), hints=k.pop('hints', H), maxlen=k.pop('maxlen', 4), **k))
    # each kind of field x each place of the assertion
    for n, t, a in (('u8', u8, {}), ('b3', u8, dict(bits=3)), ('u16', u16, dict(endian='big')), ('i8', i8, {}), ('ib5', i8, dict(bits=5)), ('i16', i16, {}), ('y2', u32, dict(bytes=2)), ('lsb', u8, dict(bits=3, order='lsb'))):
        fill = [F(u8, bits=8 - a['bits'], **({'order': 'lsb'} if 'order' in a else {}))] if 'bits' in a else []
        for en, e in (('ne', 'f0 != 1'), ('lt', 'f0 < 3'), ('not', 'not (f0 == 2)'), ('eq', 'f0 == 1')):
            A(f'{n}_{en}', [F(t, **a, assert_=e)] + fill + [u8], maxlen=3)
        A(f'{n}_aeq', [F(u8), F(t, **a, assert_eq='f0 & 3')] + fill, maxlen=4)
        A(f'{n}_aeqc', [F(t, **a, assert_eq='1')] + fill + [u8])
        A(f'{n}_both', [F(t, **a, assert_eq='1', assert_='f0 < 9')] + fill)
        A(f'{n}_cross', [F(u8), F(t, **a, assert_='f1 < f0'), F(u8, **({'order': 'lsb'} if 'order' in a else {}))] + fill, maxlen=4)
        A(f'{n}_pad', [F(t, **a, assert_='f0 != 3', pad_bytes_before=1, pad_bits_after=8)] + fill, maxlen=5)
        A(f'{n}_mag', [F(t, **a, assert_='f0 != 3', magic=b'\x05')] + fill)
    A('vlen', [F(u8), F(vec(u8), count='f0', assert_='len(f1) < 2'), F(u8)], maxlen=5)
    A('vsum', [F(u8), F(vec(u8), count='f0', assert_='sum(f1) < f0 + 3'), F(u8)], maxlen=5)
    A('vall', [F(vec(u8), read_all=True, assert_='len(f0) != 2')], maxlen=4)
    A('vby', [F(vec(u16), bytes_read=4, assert_='sum(f0) == 3')], endian='big', maxlen=5)
    A('set', [F(hset(u8), count=2, assert_='len(f0) == 2')], sym=False, tags=['unord:0:8'])
    A('arr', [F(arr(u8, 2), assert_='sum(f0) == 3')])
    A('cond', [F(u8), F(u8, cond='f0 == 1', default=3, assert_='f1 != 3')], sym=False)
    A('condok', [F(u8), F(u8, cond='f0 == 1', default=3, assert_='f1 < 4')], sym=False)
    A('skip', [F(u8), F(u8, skip='all', default=3, assert_='f1 == 3')], sym=False)
    A('skipbad', [F(u8), F(u8, skip='all', default=3, assert_='f1 == 4')], sym=False)
    A('skipr', [F(u8), F(u8, skip='read', default=3, assert_='f1 < 9')], sym=False)
    A('skipw', [F(u8), F(u8, skip='write', assert_='f1 < 9')], sym=False)
    A('aeqdef', [F(u8), F(u8, cond='f0 == 1', default=3, assert_eq='3')], sym=False)
    A('map', [F(u8, map='xor', assert_='f0 < 9')], maxlen=3, hints=[0x55, 0x54, 0x5a, 0x5d, 0])
    A('map2', [F(u8, map='addone', assert_='f0 != 1')], sym=False)
    A('upd', [F(u8, update='len(f1)', assert_='f0 != 2'), F(vec(u8), count='f0')])
    A('late', [F(u8), F(vec(u8), count='f0'), F(u8, assert_eq='sum(f1)')], maxlen=5)
    A('three', [F(u8, assert_='f0 < 3'), F(u8, assert_='f1 != f0'), F(u8, assert_='f2 != f1 and f2 != f0')], maxlen=4)
    inner = Struct('QAI', [F(u8, assert_='f0 != 2'), F(u8, assert_eq='1')], main=False)
    A('nest', [F(u8), F(inner), F(u8)], maxlen=5)
    A('nvec', [F(u8), F(vec(inner), count='f0')], maxlen=6)
    A('nopt', [F(u8), F(opt(inner), cond='f0 == 1'), F(u8)], maxlen=5)
    A('nunt', [F(vec(inner), until=('==', 0))], maxlen=6)
    A('nall', [F(vec(inner), read_all=True)], maxlen=5)
    ci = Struct('QAC', [F(u8, assert_='f0 < x0'), F(u8, assert_eq='x0')], ctx=[('k', 'u8')], main=False)
    A('ctx', [F(u8), F(ci, ctx=[('f0', 'u8')]), F(u8)], maxlen=5)
    out.append(Enum('QA_enum', u8, [V('A', [F(u8, assert_='f0 != 2'), F(u8)], id=1), V('B', [F(u8), F(u8, assert_eq='f0')], id=2, tuple=True), V('C', [F(u8), F(u8, assert_='f0 + f1 < 9')], pat='3..=5', mat='(range 3 5)')], tags=['assert'], hints=H, maxlen=4))
    A('tuple', [F(u8, assert_='f0 != 2'), F(u8, assert_eq='f0')], tuple=True)
    A('off', [F(u8), F(u8, assert_='byteoff == 1'), F(u8, assert_='bitoff == 16')], maxlen=4, tags=['offs'])
    A('offun', [F(u8, bits=4), F(u8, assert_='bitoff == 4'), F(u8, bits=4)], maxlen=3, tags=['offs'], sym=False)
    return out

# ---------------------------------------------------------------------------------- C12 field control
def controls():
    """condition x skip kind x default x padding x field kind x place, custom readers and temporaries"""
    out = []
    H = [0, 1, 2, 3]
    rec = lambda: Struct('KRec', [F(u8), F(u8, pad_bits_before=8)], main=False)
    R = rec(); RB = Struct('KRecB', [F(u8, bits=3), F(u8, bits=5)], main=False)
    RC = Struct('KRecC', [F(opt(u8), cond='x0 == 1'), F(u8)], ctx=[('k', 'u8')], main=False)
    # name, type, attributes, an explicit default, filler bits after
    K = [('u8', u8, {}, 9, 0), ('opt', opt(u8), {}, 7, 0), ('optn', opt(u16), dict(endian='big'), None, 0), ('b4', u8, dict(bits=4), 11, 4), ('b12', u16, dict(bits=12, endian='big'), 0xabc, 4),
         ('vec', vec(u8), dict(count='f0 & 3'), [4, 5], 0), ('arr', arr(u8, 2), {}, [6, 7], 0), ('tup', tup(u8, u8), {}, [8, 9], 0), ('i8', i8, dict(bits=5), -3, 3), ('bool', Bool, {}, True, 0), ('optrec', opt(R), {}, None, 0), ('optrb', opt(RB), {}, None, 0), ('optrc', opt(RC), dict(ctx=[('f0', 'u8')]), None, 0), ('optvec', opt(vec(u8)), dict(count=2), [4], 0), ('y3', u32, dict(bytes=3, endian='little'), 0x10203, 0)]
    CO = [('', None), ('c', 'f0 == 1'), ('n', 'not (f0 < 2)'), ('x', 'f0 & 1 == 1')]
    SK = ['', 'all', 'read', 'write']
    PA = [('', {}), ('bb', dict(pad_bits_before=8)), ('yb', dict(pad_bytes_before=1)), ('ba', dict(pad_bits_after=8)), ('ya', dict(pad_bytes_after=1)), ('both', dict(pad_bits_before=4, pad_bits_after=4)), ('all', dict(pad_bits_before=3, pad_bytes_before=1, pad_bytes_after=1, pad_bits_after=5)), ('dyn', dict(pad_bytes_before='f0 & 1', pad_bits_after='(f0 & 1) * 8')), ('dynb', dict(pad_bits_before='f0 & 7', pad_bits_after='(8 - (f0 & 7)) & 7'))]
    names = set()
    def one(nm, ty, at, dv, fill, cn, co, sk, de, pn, pa, place):
        if de and not (co or sk): return
        if not de and ty.rust.startswith('Kx'): return
        a = dict(at); a.update(pa)
        if co: a['cond'] = co
        if sk: a['skip'] = sk
        if de: a['default'] = dv
        isopt = ty.sx.startswith('(opt')
        sym = (not co and not sk) or sk == 'all' or bool(isopt and co and not sk and not (de and dv is not None))
        fl = [F(u8, bits=fill)] if fill else []
        extra = (8 if ty.sx.startswith(('(u 8', '(i 8')) else 16)
        tail = [] if place == 'last' else [F(u8)]
        name = f'K_{nm}_{cn or "_"}{sk or "_"}{"d" if de else "_"}{pn}{"_" + place if place else ""}'
        if name in names: return
        names.add(name)
        padn = 1 if pa else 0
        ml = 2 + extra // 8 + padn * 2 + (1 if fill else 0) + (1 if 'rc' in nm or nm == 'y3' else 0)
        kw = dict(tags=['ctl'], hints=H, maxlen=min(ml, 6), sym=sym)
        if place == 'enum':
            # fields f0.. of a variant
            out.append(Enum(name, u8, [V('A', [F(u8), F(ty, **a)] + fl + tail, id=1), V('B', [F(u8)], id=0, default=True)], **kw)); return
        if place == 'tuple': kw['tuple'] = True
        if place == 'un':
            if 'y' in pn and False: return
            out.append(Struct(name, [F(u8), F(u8, bits=4)] if False else [F(u8, bits=4), F(ty, **a)] + fl + [F(u8, bits=4)] + tail, **kw)); return
        if place == 'lsb':
            if nm not in ('u8', 'opt', 'b4', 'i8', 'vec', 'bool'): return
            kw['order'] = 'lsb'
        out.append(Struct(name, [F(u8), F(ty, **a)] + fl + tail, **kw))
    for nm, ty, at, dv, fill in K:
        for cn, co in CO:
            for sk in SK:
                for de in (False, True):
                    one(nm, ty, at, dv, fill, cn, co, sk, de, '', {}, '')
    places = ['enum', 'tuple', 'un', 'lsb', 'last']
    for nm, ty, at, dv, fill in K:
        if not THOROUGH and nm not in ('u8', 'opt', 'b4'): continue
        for cn, co in CO[:2]:
            for sk in SK:
                for de in (True,) if co or sk else (False,):
                    for pn, pa in PA[1:]: one(nm, ty, at, dv, fill, cn, co, sk, de, pn, pa, '')
                    for pl in places: one(nm, ty, at, dv, fill, cn, co, sk, de, '', {}, pl)
                    if THOROUGH:
                        for pl in places:
                            for pn, pa in PA[1:]: one(nm, ty, at, dv, fill, cn, co, sk, de, pn, pa, pl)
    for nm, ty, at, dv, fill in K:      # padding alone around every kind of field, at every place
        for pn, pa in PA[1:]:
            if THOROUGH or nm not in ('u8', 'opt', 'b4'): one(nm, ty, at, dv, fill, '', None, '', False, pn, pa, '')
            for pl in places:
                if nm in ('u8', 'b4', 'vec'): one(nm, ty, at, dv, fill, '', None, '', False, pn, pa, pl)
    A = lambda n, fs, **k: out.append(Struct('K2_' + n, fs, tags=['ctl'] + k.pop('tags', []), hints=k.pop('hints', H), maxlen=k.pop('maxlen', 5), **k))
    # custom readers, writers and maps with every condition and skip
    for m in ('xor', 'addone', 'fail'):
        for cn, co in CO[:2]:
            for sk in SK:
                for pn, pa in PA[:1] + PA[2:3] + PA[5:6]:
                    a = dict(map=m, **pa)
                    if co: a['cond'] = co
                    if sk: a['skip'] = sk
                    if co or sk: a['default'] = 8
                    A(f'{m}_{cn}{sk}{pn}', [F(u8), F(u8, **a), F(u8)], sym=not (co or sk) and m != 'addone', maxlen=4 if not pa else 5)
    for cn, co in CO[:2]:
        for sk in SK:
            a = {}
            if co: a['cond'] = co
            if sk: a['skip'] = sk
            # temporaries: read (or not), never part of the value; written only with a value of their own
            if not (co or sk):
                A(f't_{cn}{sk}', [F(u8), F(u8, temp=True, **a), F(vec(u8), count='f1 & 3'), F(u8)], sym=False)
                A(f'tv_{cn}{sk}', [F(u8), F(u8, temp_value='(len(f2) + f0) & 255', **a), F(vec(u8), count='f1 & 3'), F(u8)], sym=False)
            d = dict(a, default=2) if co or sk else a
            A(f'td_{cn}{sk}', [F(u8), F(u8, temp=True, **d), F(vec(u8), count='f1 & 3'), F(u8)], sym=False)
            A(f'tvd_{cn}{sk}', [F(u8), F(u8, temp_value='len(f2)', **d), F(vec(u8), count='f1 & 3'), F(u8)], sym=False)
    for pn, pa in PA[1:]:
        A(f'tp_{pn}', [F(u8), F(u8, temp=True, **pa), F(u8)], sym=False)
        A(f'tvp_{pn}', [F(u8), F(u8, temp_value='(f0 + 1) & 255', **pa), F(u8)], sym=False)
    # expressions see exactly the fields (and arguments) before them
    A('chain', [F(u8), F(opt(u8), cond='f0 == 1'), F(u8), F(opt(u8), cond='f2 == f0'), F(opt(u8), cond='f2 + f0 == 3')], maxlen=6)
    A('chaint', [F(u8, temp=True), F(opt(u8), cond='f0 == 1'), F(u8, temp_value='3'), F(opt(u8), cond='f2 == 3')], sym=False)
    A('skipsee', [F(u8), F(u8, skip='all', default=2), F(vec(u8), count='f1'), F(opt(u8), cond='f1 == 2')])
    A('condsee', [F(u8), F(u8, cond='f0 == 1', default=2), F(vec(u8), count='f1 & 3')], sym=False)
    A('padsee', [F(u8), F(u8, skip='read', default=1), F(u8, pad_bytes_before='f1', pad_bits_after='f1 * 8')], sym=False)
    A('mapsee', [F(u8, map='xor'), F(vec(u8), count='f0'), F(opt(u8), cond='f0 == 1')], hints=[0x55, 0x54, 0x57, 0])
    A('offsee', [F(u8), F(opt(u8), cond='byteoff == 1'), F(opt(u8), cond='byteoff == 1'), F(opt(u8), cond='bitoff == 16')], tags=['offs'])
    A('condbits', [F(u8, bits=1), F(opt(u8), cond='f0 == 1', bits=3), F(u8, bits=4), F(opt(u8), cond='f0 == 0', bits=3), F(u8, bits=5, pad_bits_after='f0 * 0')], maxlen=3, sym=False)
    A('five', [F(u8), F(u8, skip='all', default=1), F(u8, skip='read', default=4), F(u8, skip='write'), F(u8, cond='f0 == f3', default=5), F(u8)], sym=False)
    A('ztail', [F(u8, pad_bytes_after=2)], maxlen=4)
    A('ztailb', [F(u8, bits=3, pad_bits_after=5)], maxlen=2)
    A('zhead', [F(u8, bits=3, pad_bits_before=13)], maxlen=3)
    A('zonly', [F(vec(u8), count=0, pad_bytes_before=1, pad_bits_after=12), F(u8, bits=4)], maxlen=4)
    for nb in (1, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65) if not THOROUGH else range(1, 130):
        if nb <= 33: A(f'pb{nb}', [F(u8, bits=1), F(u8, pad_bits_before=nb, bits=7), F(u8, bits=(8 - nb % 8) or 8)], maxlen=nb // 8 + 4, sym=True)
        A(f'pa{nb}', [F(u8, pad_bits_after=nb), F(u8, bits=8 - nb % 8)], maxlen=nb // 8 + 3)
        if nb % 8 == 0 or nb < 8: A(f'pl{nb}', [F(u8, pad_bits_after=nb), F(u8, bits=8 - nb % 8)], order='lsb', maxlen=nb // 8 + 3)
        A(f'py{nb}', [F(u8, bits=3, pad_bytes_after=(nb + 7) // 8), F(u8, pad_bytes_before=(nb + 7) // 8, bits=5)], maxlen=(nb + 7) // 8 * 2 + 3) if nb in (1, 9, 17) else None
    # paddings longer than any internal buffer
    for nb in (504, 511, 512, 513, 520, 1023, 1024, 1025, 1100) + ((2048, 4095, 4096, 4097) if THOROUGH else ()):
        A(f'hb{nb}', [F(u8, bits=3), F(u8, pad_bits_before=nb, bits=5), F(u8, bits=8 - nb % 8)], maxlen=nb // 8 + 3)
        A(f'ha{nb}', [F(u8, pad_bits_after=nb, order='lsb'), F(u8, bits=8 - nb % 8, order='lsb')], maxlen=nb // 8 + 3)
        A(f'hy{nb}', [F(u8, pad_bytes_after=nb // 8), F(u8, pad_bytes_before=nb // 8 + 1)], maxlen=nb // 8 * 2 + 4)
    seen = {}
    for p in out: assert p is None or p.name not in seen, p.name; seen[p.name if p else None] = 1
    return [p for p in out if p]

# ---------------------------------------------------------------------------------- C13 update
def updates():
    """updated field kind x expression x place; tag 'consist': the updated value reads back as itself"""
    out = []
    K = [('u8', u8, {}, 8), ('u16b', u16, dict(endian='big'), 16), ('u16l', u16, dict(endian='little'), 16), ('u32', u32, dict(endian='big'), 32), ('y3', u32, dict(bytes=3, endian='big'), 24), ('b4', u8, dict(bits=4), 4), ('b12', u16, dict(bits=12, endian='big'), 12),
         ('i8', i8, {}, 8), ('ib4', i8, dict(bits=4), 4), ('i16', i16, dict(endian='big'), 16), ('i32', i32, dict(endian='little'), 32), ('u64', u64, dict(endian='big'), 64), ('i64', i64, dict(endian='big'), 64), ('u128', u128, dict(endian='little'), 128), ('i128', i128, dict(endian='big'), 128), ('lsb4', u8, dict(bits=4, order='lsb'), 4)]
    # expression over f0 (the field itself), f1 (a byte), f2 (the bytes counted by f1)
    X = [('len', 'len(f2)'), ('sum', 'sum(f2)'), ('big', 'sum(f2) * 1000'), ('huge', 'sum(f2) * 1000000000000'), ('neg', 'len(f2) - 2'), ('minus', '0 - sum(f2)'), ('self', 'f0 + 1'), ('oth', 'f1'), ('c', '7'), ('cbig', '300'), ('cneg', '-1')]
    for n, t, a, b in K:
        od = {'order': 'lsb'} if 'order' in a else {}
        fill = [F(u8, bits=8 - b % 8, **od)] if b % 8 else []
        nf = len(fill)
        for xn, x in X:
            if (n in ('u64', 'i64', 'u128', 'i128')) and xn == 'self': continue   # user arithmetic in i64 could overflow
            ml = min((b + 7) // 8 + 3, 6)
            hints = [0, 1, 2, 3, 255]
            # place 1: the updated field first
            sh = lambda e: e.replace('f2', f'f{2 + nf}').replace('f1', f'f{1 + nf}')
            if b <= 32: out.append(Struct(f'V_{n}_{xn}', [F(t, **a, update=sh(x))] + fill + [F(u8), F(vec(u8), count=f'f{1 + nf} & 3')], tags=['update'], sym=False, hints=hints, maxlen=ml))
            # place 2: the updated field last, the count updated as well
            y = x.replace('f0', 'fS').replace('f1', 'f0').replace('f2', 'f1').replace('fS', 'f2')
            cons = xn in ('len', 'oth', 'c') or xn == 'self' and False
            out.append(Struct(f'V2_{n}_{xn}', [F(u8, update='len(f1)'), F(vec(u8), count='f0'), F(t, **a, update=y)] + fill, tags=['update', 'consist'], sym=False, hints=hints, maxlen=min(3 + (b + 7) // 8, 6) if b <= 32 else 3 + b // 8))
            if n in ('u8', 'u16b', 'i8', 'b4'):
                out.append(Enum(f'V3_{n}_{xn}', u8, [V('A', [F(u8, update='len(f1)'), F(vec(u8), count='f0'), F(t, **a, update=y)] + fill, id=1), V('B', [F(t, **a)] + fill, id=2), V('C', [F(u8), F(t, **a, update=x.replace('len(f2)', 'f0').replace('sum(f2)', 'f0').replace('f1', 'f0'))] + fill if xn != 'self' else [F(u8), F(t, **a, update='f1 + 1')] + fill, id=3)], tags=['update'], sym=False, hints=hints, maxlen=5))
                out.append(Struct(f'V4_{n}_{xn}', [F(u8, update='len(f1)'), F(vec(u8), count='f0'), F(t, **a, update=y)] + fill, tags=['update', 'consist'], tuple=True, sym=False, hints=hints, maxlen=5))
                out.append(Struct(f'V5_{n}_{xn}', [F(u8, temp_value='len(f1)'), F(vec(u8), count='f0'), F(t, **a, update=y.replace('f0', 'f2') if xn != 'oth' else 'len(f1)')] + fill, tags=['update'], sym=False, hints=hints, maxlen=5))
    A = lambda n, fs, **k: out.append(Struct('V6_' + n, fs, tags=['update'] + k.pop('tags', []), hints=k.pop('hints', [0, 1, 2, 3, 255]), maxlen=k.pop('maxlen', 5), sym=False, **k))
    # evaluation order: every order of a chain of three
    import itertools
    for pm in itertools.permutations(range(3)):
        ex = [None] * 3
        for k, i in enumerate(pm): ex[i] = 'len(f3)' if k == 0 else f'f{pm[k - 1]} + 1'
        A('ch' + ''.join(map(str, pm)), [F(u8, update=ex[0]), F(u8, update=ex[1]), F(u8, update=ex[2]), F(vec(u8), count='f0 & 3')], maxlen=5)
    # temporary fields (each subset of the first positions) shift the tuple indices of the fields that are left;
    # all fields have the same type and there are enough of them for a wrong index to name another field
    for mask in range(1, 8):
        p = bin(mask).count('1')
        for up in range(3, 6):
            for tup_ in (True, False):
                fs = [F(u8, temp_value='7') if mask >> i & 1 else F(u8) for i in range(3)] + [F(u8) for _ in range(3 + p)]
                fs[up].a['update'] = 'f4 + 1' if up == 3 else 'f3 + 5'
                low = [i for i in range(3) if not mask >> i & 1]
                if low: fs[low[-1]].a['update'] = f'f{5 + p} + 2'
                A(f'tmp{mask}_{up}_{"t" if tup_ else "n"}', fs, tuple=tup_, maxlen=9)
                out.append(Enum(f'V7_tmp{mask}_{up}_{"t" if tup_ else "n"}', u8, [V('A', [F(f.ty, **{k: ('9' if k == 'update' else v) for k, v in f.a.items()}) for f in fs], id=1, tuple=tup_), V('B', [F(u8)], id=2)], tags=['update'], sym=False, hints=[0, 1, 2], maxlen=9))
    A('swap', [F(u8, update='f1'), F(u8, update='f0')])
    A('fail2', [F(u8, update='len(f2)'), F(u8, update='300'), F(vec(u8), read_all=True), F(u8, update='1', skip='all')])
    A('two', [F(u8, update='len(f2)'), F(u8, update='len(f3)'), F(vec(u8), count='f0'), F(vec(u16), count='f1')], endian='big', maxlen=6, tags=['consist'])
    A('bytes', [F(u8, update='len(f1) * 2'), F(vec(u16), bytes_read='f0')], endian='big', maxlen=6, tags=['consist'])
    A('bits', [F(u8, update='len(f1) * 4'), F(vec(u8), bits_read='f0', bits=4)], maxlen=4, tags=['consist'], hints=[0, 4, 8, 12])
    A('cs', [F(u8, update='len(f1) + 0'), F(vec(u8), count='f0'), F(u16, update='sum(f1)')], endian='big', tags=['consist'], maxlen=6)
    A('skip', [F(u8, skip='all', update='f1 + 1', default=3), F(u8)])
    A('skipw', [F(u8, skip='write', update='f1'), F(u8)])
    A('cond', [F(u8), F(u8, cond='f0 == 1', default=2, update='9'), F(u8)])
    A('pad', [F(u8, update='len(f1)', pad_bytes_before=1), F(vec(u8), count='f0', pad_bits_after=8)], tags=['consist'])
    A('as', [F(u8, update='len(f1)', assert_='f0 < 3'), F(vec(u8), count='f0')])
    inner = Struct('VI', [F(u8, update='len(f1)'), F(vec(u8), count='f0 & 3')], main=False)
    A('nest', [F(u8, update='7'), F(inner)])
    A('nvec', [F(u8, update='len(f1)'), F(vec(inner), count='f0')], maxlen=5)
    A('ctx', [F(u8, update='len(f1)'), F(vec(u8), count='x0')], ctx=[('n', 'u8')], ctx_default=[('2', '2')])
    return out

# ---------------------------------------------------------------------------------- C15 static sizes
def sizes():
    """types with a static size: field kind x size attribute x wrapping x magic/padding/temporaries; enums of every id size"""
    out = []
    S = lambda n, fs, **k: (out.append(Struct('Z_' + n, fs, size=True, tags=['size'] + k.pop('tags', []), maxlen=k.pop('maxlen', 4), sym=False, **k)), out[-1])[1]
    prims = [U(w) for w in (8, 16, 32, 64, 128)] + [I(w) for w in (8, 16, 32, 64, 128)] + [f32, f64, USIZE, ISIZE, Bool]
    wid = lambda t: 8 if t is Bool else int(t.sx.strip('()').split()[1])
    def szs(t):
        w = wid(t)
        if t in (f32, f64): return [{}]
        if t is Bool: return [{}, dict(bits=1), dict(bits=8), dict(bytes=1)]
        nb = sorted({1, 3, 7, 8, 9, w // 2 + 1, w - 1, w} & set(range(1, w + 1)))
        ny = sorted({1, 2, 3, w // 8 - 1, w // 8} & set(range(1, w // 8 + 1)))
        if THOROUGH: nb, ny = range(1, w + 1), range(1, w // 8 + 1)
        return [{}] + [dict(bits=b) for b in nb] + [dict(bytes=y) for y in ny if t is not u8 or y == 1]
    nm = lambda a: ''.join(f'{k[:2]}{v}' for k, v in a.items())
    ln = lambda t, a, n=1: min((a.get('bits') or a.get('bytes', 0) * 8 or wid(t)) * n // 8 + 2, 34)
    for t in prims:
        for a in szs(t):
            S(f'{t.rust}_{nm(a)}', [F(t, **a)], maxlen=ln(t, a))
    for t in (u8, u16, u32, i8, i16, u64, Bool) + ((u128, i128, i32, i64) if THOROUGH else ()):
        for a in szs(t) if THOROUGH else szs(t)[:1] + szs(t)[2::3]:
            for k in (0, 1, 3):
                S(f'arr{k}_{t.rust}_{nm(a)}', [F(arr(t, k), **a), F(u8)], maxlen=ln(t, a, k) + 1)
            S(f'aarr_{t.rust}_{nm(a)}', [F(arr(arr(t, 2), 3), **a)], maxlen=ln(t, a, 6))
            if t is not Bool or not a: S(f'tup_{t.rust}_{nm(a)}', [F(tup(t, t), **a), F(u8)], maxlen=ln(t, a, 2) + 1)
            if not a: S(f'tupm_{t.rust}', [F(tup(t, arr(u8, 2), Bool), **a), F(u8)], maxlen=ln(t, a, 1) + 4)
    S('tup1', [F(tup(u16))]); S('tup6', [F(tup(u8, u16, u8, u32, u8, Bool))], maxlen=11)
    S('empty', []); S('unitarr', [F(arr(u8, 0))])
    # every position of magic, padding, temporaries and skips
    PA = [{}, dict(pad_bits_before=3), dict(pad_bytes_before=2), dict(pad_bits_after=5), dict(pad_bytes_after=1), dict(pad_bits_before=1, pad_bits_after=7), dict(pad_bits_before=4, pad_bytes_before=1, pad_bits_after=4, pad_bytes_after=2)]
    TA = [('', {}), ('m', dict(magic=b'\x01')), ('mm', dict(magic=b'\x01\x02\x03')), ('t', dict(temp=True)), ('tv', dict(temp_value='3')), ('sk', dict(skip='all')), ('skd', dict(skip='all', default=4)), ('skr', dict(skip='read')), ('skc', dict(skip='read', cond='1 == 0')), ('co', dict(cond='1 == 1')), ('tm', dict(temp=True, magic=b'\x02')), ('tvm', dict(temp_value='1', magic=b'\x02\x01')), ('skm', dict(skip='all', magic=b'\x02')), ('up', dict(update='1')), ('as', dict(assert_='1 == 1'))]
    i = 0
    for tn, ta in TA:
        for pa in PA:
            for sz in ({}, dict(bits=5), dict(bytes=1)):
                if not THOROUGH and sz and pa and i % 3: i += 1; continue
                i += 1
                a = {**ta, **pa, **sz}
                S(f'fa{i}', [F(u8), F(u8, **a), F(u8)], maxlen=5 if pa or 'm' in tn else 4)
    for m in (b'\x01', b'\x01\x02', b'\x01\x02\x03\x04\x05'):
        S(f'mag{len(m)}', [F(u8), F(u8, bits=4)], magic=m, hints=list(m), maxlen=len(m) + 3)
        S(f'mag{len(m)}t', [F(u8), F(u8, bits=4)], magic=m, hints=list(m), maxlen=len(m) + 3, tuple=True)
    # nesting
    base = [S('nA', [F(u8), F(u16, bits=12)]), S('nB', [F(u8, bits=3)]), S('nM', [F(u8)], magic=b'\x01'), S('nP', [F(u8, pad_bits_after=4)]), S('nT', [F(u8, temp_value='2'), F(u8)]), S('nZ', [])]
    E = lambda n, idt, vs, **k: (out.append(Enum('Z_' + n, idt, vs, size=True, tags=['size', 'enum'], maxlen=k.pop('maxlen', 5), sym=False, hints=[0, 1, 2, 3], **k)), out[-1])[1]
    en = E('nE', u8, [V('A', id=1), V('B', [u8, u16], id=2), V('C', [F(u8, bits=4)], id=3)])
    eb = E('nEb', u8, [V('A', id=1), V('B', [F(u8, bits=2)], id=2)], bits=2)
    for b in base + [en, eb]:
        S(f'in_{b.name}', [F(u8), F(b), F(u8)], maxlen=7)
        S(f'ar_{b.name}', [F(arr(b, 2)), F(u8)], maxlen=7)
        S(f'tp_{b.name}', [F(tup(b, u8)), F(arr(tup(u8, b), 2))], maxlen=8)
        S(f'mg_{b.name}', [F(b, magic=b'\x01', pad_bits_before=2), F(b, pad_bytes_after=1), F(b, temp=True), F(b, skip='read')] if b.name not in ('Z_nE', 'Z_nEb') else [F(b, magic=b'\x01', pad_bits_before=2), F(b, pad_bytes_after=1)], maxlen=8, deflt=False) if b.name in ('Z_nE', 'Z_nEb', ) else None
        E(f'ev_{b.name}', u8, [V('A', [F(b)], id=1), V('B', [F(b), F(b)], id=2, tuple=True), V('C', [u16], id=3)], maxlen=6)
    # enums: id size x variants x id form
    for idt in (u8, u16, u32, u64, u128, i8, i16, i32):
        w = wid(idt)
        for a in [{}] + [dict(bits=b) for b in sorted({2, 3, 7, 8, 9, w - 1, w} & set(range(2, w + 1)))] + [dict(bytes=y) for y in sorted({1, 2, 3, w // 8} & set(range(1, w // 8 + 1))) if idt is not u8 or y == 1]:
            n = nm(a)
            E(f'e_{idt.rust}_{n}', idt, [V('A', id=1), V('B', [u8], id=0), V('C', [F(u8, bits=3), F(u8, bits=2)], id='1 + 0' if False else 3 if a.get('bits', 9) > 2 or idt.rust[0] == 'u' else -1)], maxlen=min(w // 8 + 2, 6), **a)
            E(f'p_{idt.rust}_{n}', idt, [V('A', id=1), V('P', [idt, F(u8, bits=6)], pat='0', mat='(oneof 0)'), V('Q', [F(idt)], pat='_', mat='(any)', tuple=True)], maxlen=min(w // 8 + 2, 6), **a)
            E(f'q_{idt.rust}_{n}', idt, [V('P', [idt, F(u16, bits=9)], pat='0', mat='(oneof 0)'), V('A', [u8, F(u8, pad_bits_after=3, magic=b'\x01')], id=1)], maxlen=min(w // 8 + 4, 6), endian='big', **a)
    E('one', u8, [V('A', [arr(u8, 3)], id=1)]); E('m', u8, [V('A', id=1), V('B', [u8], id=2)], magic=b'\x01\x02')
    E('def', u8, [V('A', [u16], id=1), V('B', [u8], default=True, id=2)])
    E('disc', u8, [V('A', disc=1), V('B', disc=2)]); E('disc16', u16, [V('A', disc=1), V('B', disc=2)], bits=12)
    E('temp', u8, [V('A', [F(u8, temp=True), F(u8)], id=1), V('B', [F(u16, temp_value='3'), F(u8)], id=2), V('C', [F(u32, skip='all')], id=3)])
    E('pads', u8, [V('A', [F(u8, pad_bytes_before=3)], id=1), V('B', [F(u16, pad_bits_after=9)], id=2)], maxlen=6)
    ctx = [('k', 'u8')]
    out.append(Enum('Z_ctx', None, [V('A', [u8], id=1), V('B', [u16, F(u8, bits=4)], id=2), V('P', [u8], pat='3', mat='(oneof 3)')], idctx='x0', idctx_rust='k', ctx=ctx, size=True, tags=['size', 'enum'], main=False))
    ce = out[-1]
    S('ictx', [F(u8), F(ce, ctx=[('f0', 'u8')]), F(u8)], hints=[0, 1, 2, 3], maxlen=5)
    for p in out: p.name
    return [p for p in out if p is not None]

# ---------------------------------------------------------------------------------- C16 seeks
def seeks():
    """seek target x level x what precedes x field kind x other attributes"""
    out = []
    H = [0, 1, 2, 3]
    SK = [('s0', ('start', '0')), ('s1', ('start', '1')), ('s2', ('start', '2')), ('s5', ('start', '5')), ('sn', ('start', '-1')), ('c0', ('cur', '0')), ('c1', ('cur', '1')), ('c3', ('cur', '3')), ('cm1', ('cur', '-1')), ('cm2', ('cur', '-2')), ('cm9', ('cur', '-9')),
          ('e0', ('end', '0')), ('em1', ('end', '-1')), ('em2', ('end', '-2')), ('em3', ('end', '-3')), ('e1', ('end', '1')), ('em9', ('end', '-9')), ('rw', 'rewind')]
    DY = [('sd', ('start', 'f0')), ('cd', ('cur', 'f0')), ('cdm', ('cur', '0 - f0')), ('ed', ('end', '0 - f0')), ('sd2', ('start', 'f0 - 1')), ('cd1', ('cur', 'f0 - 1'))]
    R = Struct('WRec', [F(u8), F(u8)], main=False)
    def P(n, fs, **k):
        out.append(Struct('W_' + n, fs, tags=['seek'] + k.pop('tags', []), hints=H, maxlen=k.pop('maxlen', 5), sym=False, **k))
    KIND = [('u8', lambda s: [F(u8, seek=s)]), ('u16', lambda s: [F(u16, seek=s, endian='big')]), ('b4', lambda s: [F(u8, seek=s, bits=4), F(u8, bits=4)]), ('vec', lambda s: [F(vec(u8), seek=s, count=2)]), ('rec', lambda s: [F(R, seek=s)]), ('arr', lambda s: [F(arr(u8, 2), seek=s)]), ('opt', lambda s: [F(opt(u8), seek=s)]),
            ('all', lambda s: [F(vec(u8), seek=s, read_all=True)]), ('bool', lambda s: [F(Bool, seek=s)]), ('unit', lambda s: [F(Unit, seek=s)]), ('vecd', lambda s: [F(u8, seek=s), F(vec(u8), count='f0 & 1', seek=s)])]
    PRE = [('', [F(u8)]), ('two', [F(u8), F(u8)]), ('bits', [F(u8, bits=4)]), ('b7', [F(u8, bits=7)]), ('none', []), ('u24', [F(u8), F(u16)]), ('b9', [F(u16, bits=9)])]
    AT = [('mag', dict(magic=b'\x02')), ('pyb', dict(pad_bytes_before=1)), ('pbb', dict(pad_bits_before=8)), ('pya', dict(pad_bytes_after=1)), ('co', dict(cond='f0 == 1', default=3)), ('sr', dict(skip='read')), ('sw', dict(skip='write')), ('sa', dict(skip='all')), ('tmp', dict(temp=True)), ('tv', dict(temp_value='2')), ('as', dict(assert_='f0 != 1')), ('lsb', dict(order='lsb')), ('map', dict(map='xor'))]
    for sn, s in SK + DY:
        for kn, k in KIND:
            if THOROUGH or kn in ('u8', 'b4', 'vec', 'rec') or sn in ('s2', 'cm1', 'em1', 'cd'):
                P(f'k_{sn}_{kn}', [F(u8)] + k(s) + ([] if kn == 'all' else [F(u8)]))
        for pn, p in PRE[1:]:
            if pn == 'none' and 'd' in sn: continue
            P(f'p_{sn}_{pn}', p + [F(u8, seek=s), F(u8)])
            if THOROUGH: P(f'pv_{sn}_{pn}', p + [F(vec(u8), seek=s, count=1), F(u8, bits=4)])
        for an, a in AT:
            if THOROUGH or sn in ('s1', 's5', 'c1', 'cm1', 'em1', 'rw', 'cd', 'c0'): P(f'a_{sn}_{an}', [F(u8), F(u8, seek=s, **a), F(u8)])
        # two seeks in a row
        for tn, t in [('c1', ('cur', '1')), ('cm1', ('cur', '-1')), ('s0', ('start', '0')), ('em1', ('end', '-1'))]:
            P(f't_{sn}_{tn}', [F(u8), F(u8, seek=s), F(u8, seek=t), F(u8)])
        # levels
        if sn not in dict(DY):
            P(f'top_{sn}', [F(u8), F(u8)], seek=s, maxlen=4)
            P(f'topm_{sn}', [F(u8), F(u8)], seek=s, magic=b'\x01', maxlen=5)
            n1 = Struct(f'WN_{sn}', [F(u8)], seek=s, main=False)
            P(f'n_{sn}', [F(u8), F(n1), F(u8)])
            P(f'nb_{sn}', [F(u8, bits=4), F(n1), F(u8)])
            P(f'nn_{sn}', [F(u8), F(n1, seek=('cur', '1')), F(u8)])
            P(f'nv_{sn}', [F(u8), F(vec(n1), count=2), F(u8)])
            # elements that move away from where the container started
            for pn, p in PRE[1:]:
                if pn in ('two', 'u24', 'b9') or THOROUGH: P(f'nv_{sn}_{pn}', p + [F(vec(n1), count=2), F(u8, bits=7 if pn == 'b9' else 4)])
            n2 = Struct(f'WM_{sn}', [F(u8), F(u8)], seek=s, main=False)
            P(f'nvt_{sn}', [F(u8), F(u16), F(vec(tup(u8, n1)), count=2)])
            if s != 'rewind' and sn[0] == 'c':
                net = int(s[1])
                if net + 1 != 0:
                    P(f'ny_{sn}', [F(u8), F(u16), F(vec(n1), bytes_read=2), F(u8)], maxlen=7, tags=['x:off'])
                    P(f'nz_{sn}', [F(u8), F(u16), F(vec(n1), bits_read=16), F(u8)], maxlen=7, tags=['x:off'])
                    P(f'nu_{sn}', [F(u8), F(u16), F(vec(n1), read_all=True)] if net + 1 < 0 else [F(u8), F(vec(n1), read_all=True)], maxlen=5)
                if net + 2 != 0: P(f'ny2_{sn}', [F(u8), F(u16), F(vec(n2), bytes_read=2), F(u8)], maxlen=7, tags=['x:off'])
            for cn, mk in (('hs', lambda t: hset(t)), ('hm', lambda t: hmap(u8, t))):
                n3 = Struct(f'WH_{sn}_{cn}', [F(u8)], seek=s, main=False, hash=True)
                P(f'n{cn}_{sn}', [F(u8), F(u16), F(mk(n3), count=1), F(u8)])
            P(f'na_{sn}', [F(arr(n1, 2)), F(u8)])
            P(f'no_{sn}', [F(u8), F(opt(n1), cond='f0 == 1'), F(u8)])
            P(f'nt_{sn}', [F(u8), F(tup(n1, u8)), F(u8)])
            P(f'nx_{sn}', [F(u8), F(box(n1)), F(u8)])
            e1 = Enum(f'WE_{sn}', u8, [V('A', [F(u8, seek=s)], id=1), V('B', [F(u8), F(u8, seek=s), F(u8)], id=2), V('C', [F(u8, seek=s)], id=3, tuple=True)], main=False)
            P(f'e_{sn}', [F(u8), F(e1), F(u8)])
            c1 = Struct(f'WC_{sn}', [F(u8), F(u8)], seek=('cur', 'x0') if sn[0] == 'c' else ('start', 'x0'), ctx=[('off', 'i64')], main=False)
            if s != 'rewind' and sn[0] != 'e': P(f'c_{sn}', [F(u8), F(c1, ctx=[(s[1], 'i64')])])
    P('ctxd', [F(u8), F(Struct('WCd', [F(u8)], seek=('start', 'x0'), ctx=[('off', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)])
    P('ctxc', [F(u8), F(Struct('WCc', [F(u8)], seek=('cur', 'x0'), ctx=[('off', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)])
    P('ctxe', [F(u8), F(Struct('WCe', [F(u8)], seek=('end', '0 - x0'), ctx=[('off', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)])
    P('table', [F(u8), F(u8), F(vec(u8), count='f0 & 3', seek=('start', 'f1')), F(u8, seek=('start', '2'))], maxlen=6)
    P('offs', [F(u8), F(u8, seek=('cur', '2')), F(vec(u8), count='byteoff & 7')], maxlen=6, tags=['offs'])
    P('lsb', [F(u8, bits=4), F(u8, bits=4, seek=('cur', '1')), F(u8, bits=3, seek=('start', '3')), F(u8, bits=5)], order='lsb')
    P('allend', [F(vec(u8), read_all=True), F(u8, seek=('end', '-1'))])
    P('allcur', [F(vec(u8), read_all=True), F(u8, seek=('cur', '-1'))])
    P('allrw', [F(vec(u8), read_all=True), F(u8, seek='rewind'), F(u8)])
    return out

# ---------------------------------------------------------------------------------- C21 restricted domains
def domains():
    out = []
    def P(n, fs, **k):
        out.append(Struct('Y_' + n, fs, tags=['dom'] + k.pop('tags', []), hints=k.pop('hints', [0, 1, 2, 255]), maxlen=k.pop('maxlen', 3), **k))
    # booleans: every size, order and offset, alone and inside other types
    for od in ('msb', 'lsb'):
        for n in range(1, 9):
            for off in range(8):
                tail = -(n + off) % 8
                P(f'b{n}_{od}_{off}', ([F(u8, bits=off)] if off else []) + [F(Bool, bits=n)] + ([F(u8, bits=tail)] if tail else []), order=od, maxlen=2)
        for off in range(8):
            P(f'bf_{od}_{off}', ([F(u8, bits=off)] if off else []) + [F(Bool)] + ([F(u8, bits=8 - off)] if off else []), order=od, maxlen=2)
        for nm, mk in (('opt', opt), ('arr3', lambda t: arr(t, 3)), ('box', box), ('tup', lambda t: tup(t, t)), ('cow', cow), ('arc', arc)):
            for n in (None, 1, 2, 4):
                k = {'arr3': 3, 'tup': 2}.get(nm, 1)
                tail = -(n or 8) * k % 8
                P(f'b_{nm}_{n}_{od}', [F(mk(Bool), **(dict(bits=n) if n else {}))] + ([F(u8, bits=tail)] if tail else []), order=od, maxlen=4 if not n else 3)
        for n in (None, 1, 3, 8):
            P(f'b_vec_{n}_{od}', [F(u8), F(vec(Bool), count='f0 & 7', **(dict(bits=n) if n else {})), F(u8, bits=1)], order=od, maxlen=4, sym=n in (None, 8))
        P(f'b_unt_{od}', [F(vec(Bool), until=('==', 1))], order=od, maxlen=3)
    P('b_all', [F(vec(Bool), read_all=True)], maxlen=4)
    P('b_set', [F(hset(Bool), count=2)], tags=['unord:0:8'], sym=False, maxlen=3)
    P('b_y1', [F(Bool, bytes=1), F(Bool, bytes=1)], maxlen=3)
    P('b_cond', [F(Bool), F(opt(Bool), cond='f0 & 1 == 1')] if False else [F(u8), F(opt(Bool), cond='f0 == 1')], maxlen=3)
    out.append(Enum('Y_b_id', Bool, [V('A', [u8], id=True), V('B', [Bool], id=False)], tags=['dom'], hints=[0, 1, 2, 255], maxlen=3))
    # non-zero numbers in other types (sizes, orders and offsets: nz_jobs)
    for t in (u8, u16, i8, i16, u32, i32):
        for nm, mk in (('opt', opt), ('arr2', lambda t: arr(t, 2)), ('box', box), ('tup', lambda t: tup(t, t)), ('vec', vec)):
            w = int(t.rust[1:])
            for en in ('big', 'little'):
                P(f'z_{nm}_{t.rust}_{en}', [F(mk(NZ(t)), **(dict(count=2) if nm == 'vec' else {})), F(u8)], endian=en, maxlen=min(w // 8 * 2 + 1, 5) if w < 32 else 9)
        P(f'z_bits_{t.rust}', [F(u8, bits=3), F(NZ(t), bits=7), F(NZ(t), bits=6)], maxlen=3, endian='little')
        P(f'z_bytes_{t.rust}', [F(u8), F(NZ(t), bytes=1), F(u8)], maxlen=3, endian='big')
    P('z_unt', [F(vec(NZ(u8)), until=('==', 2))], maxlen=4); P('z_all', [F(vec(NZ(u16)), read_all=True)], endian='big', maxlen=4)
    P('z_map', [F(hmap(NZ(u8), NZ(u8)), count=1)], maxlen=3)
    out.append(Enum('Y_z_id', u8, [V('A', [NZ(u8)], id=1), V('B', [F(NZ(i8), bits=4, endian='little'), F(Bool, bits=4)], id=2)], tags=['dom'], hints=[0, 1, 2, 255, 0x10, 0x11], maxlen=4))
    # strings: every length, offset, terminator position
    CH = [0, 1, 65, 128, 255]
    for n in range(0, 6):
        P(f's_n{n}', [F(CStr, bytes=n), F(u8)], hints=CH, maxlen=n + 1)
        P(f's_o{n}', [F(u8, bits=4), F(CStr, bytes=n), F(u8, bits=4)], hints=[0, 0x10, 0x01, 0x0f, 0xf0, 255], maxlen=n + 2)
    for off in range(1, 8):
        P(f's_t{off}', [F(u8, bits=off), F(CStr), F(u8, bits=8 - off)], hints=[0, 1 << (8 - off), 1, 255 >> off, 255 & ~(255 >> off), 255], maxlen=4)
    P('s_dyn', [F(u8), F(CStr, bytes='f0'), F(CStr)], hints=[0, 1, 2, 3, 4, 5], maxlen=6)
    P('s_dyn16', [F(u16, endian='big'), F(CStr, bytes='f0')], hints=[0, 1, 2, 3, 255], maxlen=5)
    P('s_vec', [F(vec(CStr), count=3)], hints=CH, maxlen=6); P('s_vecn', [F(vec(CStr), count=2, bytes=2)], hints=CH, maxlen=5)
    P('s_arr', [F(arr(CStr, 2)), F(u8)], hints=CH, maxlen=6); P('s_tup', [F(tup(CStr, CStr))], hints=CH, maxlen=5); P('s_opt', [F(u8), F(opt(CStr), cond='f0 == 1'), F(u8)], hints=CH, maxlen=5)
    P('s_box', [F(box(CStr)), F(u8)], hints=CH, maxlen=4); P('s_all', [F(vec(CStr), read_all=True)], hints=CH, maxlen=5); P('s_lim', [F(u8), F(vec(CStr), bytes_read='f0'), F(u8)], hints=[0, 1, 2, 3, 4], maxlen=6)
    P('s_set', [F(hset(CStr), count=1)], hints=CH, maxlen=4); P('s_en', [F(CStr), F(u16)], hints=CH, maxlen=5)
    P('s_pad', [F(CStr, pad_bytes_before=1, pad_bits_after=8), F(u8)], hints=CH, maxlen=5)
    # addresses: every offset and order
    for od in ('msb', 'lsb'):
        for en in ('big', 'little'):
            for off in range(8):
                for nm, t, w in (('4', Ip4, 4), ('6', Ip6, 16)):
                    P(f'i{nm}_{od}_{en}_{off}', ([F(u8, bits=off)] if off else []) + [F(t)] + ([F(u8, bits=8 - off)] if off else []), endian=en, order=od, maxlen=w + 1)
    P('i_fe', [F(Ip4, endian='big'), F(Ip4, endian='little')], maxlen=8); P('i_arr', [F(arr(Ip4, 2))], endian='big', maxlen=8); P('i_opt', [F(u8), F(opt(Ip6), cond='f0 == 1')], endian='big', maxlen=17); P('i_tup', [F(tup(Ip4, Ip6))], endian='little', maxlen=20); P('i_def', [F(Ip4), F(Ip6)], maxlen=20)
    P('i_vec', [F(u8), F(vec(Ip6), count='f0 & 1')], endian='big', maxlen=17); P('i_set', [F(hset(Ip4), count=1)], endian='big', maxlen=4)
    return out

def inherits():
    """level of declaration (field / type / argument / nothing) of byte order and bit order x what is declared x container x host x nesting, and argument lists"""
    out = []
    H = [1, 0x80, 2, 0x23]
    ENV, ODV = ('big', 'little'), ('msb', 'lsb')
    cache = {}
    def inner(kind, e, o):
        """a type that takes exactly the arguments (e: byte order, o: bit order) that are in force"""
        k = (kind, e, o)
        if k in cache: return cache[k]
        n = f'J_{kind}_{"e" if e else ""}{"o" if o else ""}'
        ctx = ([CTXEN] if e else []) + ([CTXOD] if o else [])
        kw = dict(main=False, hash=True)
        if e: kw['endian'] = ('x', 0)
        if o: kw['order'] = ('x', int(e))
        b = len(ctx)
        if kind == 'st': r = Struct(n, [F(u16), F(u8, bits=3), F(u8, bits=5)], ctx=ctx, **kw)
        if kind == 'tu': r = Struct(n, [F(u8, bits=4), F(u8, bits=4), F(u16)], ctx=ctx, tuple=True, **kw)
        if kind == 'en': r = Enum(n, u16, [V('A', [u8], id=1), V('B', [u16], id=0x0100), V('C', [F(u8, bits=1), F(u8, bits=7)], id=0x8001), V('D', [F(u16), ], pat='_', mat='any')], ctx=ctx, **kw)
        if kind == 'ar': r = Struct(n, [F(vec(u8), count=f'x{b} & 3'), F(u16, bits=f'(x{b + 1} & 7) + 8' if not o else 16)], ctx=ctx + [('n', 'u8'), ('m', 'u16')], **kw)
        if kind == 'ow': r = Struct(n, [F(u16, **({} if not e else dict(endian='little')), **({} if not o else dict(order='lsb'))), F(u8, bits=2), F(u8, bits=6)], ctx=ctx, **kw)
        if kind == 'dp': r = Struct(n, [F(inner('st', e, o)), F(u16)], ctx=ctx, **kw)
        cache[k] = r
        return r
    def fattrs(fe, fo): return {**({'endian': fe} if fe else {}), **({'order': fo} if fo else {})}
    LEAF = {
        'u16': lambda e, o, fa: [F(u16, **fa)],
        'n35': lambda e, o, fa: [F(u8, bits=3, **fa), F(u8, bits=5, **fa)],
        'b16': lambda e, o, fa: [F(i16, bits=16, **fa)],
        'y3': lambda e, o, fa: [F(u32, bytes=3, **fa)] if e or not o else None,
        'f32': lambda e, o, fa: [F(f32, **fa)],
        'tup': lambda e, o, fa: [F(tup(u16, u8), **fa)],
        'st': lambda e, o, fa: [F(inner('st', e, o), **fa)],
        'tu': lambda e, o, fa: [F(inner('tu', e, o), **fa)],
        'en': lambda e, o, fa: [F(inner('en', e, o), **fa)],
        'ow': lambda e, o, fa: [F(inner('ow', e, o), **fa)],
        'dp': lambda e, o, fa: [F(inner('dp', e, o), **fa)],
        'ar': lambda e, o, fa: [F(inner('ar', e, o), ctx=[('1', 'u8'), ('2', 'u16')], **fa)],
        # containers: of numbers and of types that take arguments
        'vec': lambda e, o, fa: [F(vec(u16), count=2, **fa)], 'vecs': lambda e, o, fa: [F(vec(inner('st', e, o)), count=1, **fa)], 'vby': lambda e, o, fa: [F(vec(u16), bytes_read=4, **fa)],
        'vbi': lambda e, o, fa: [F(vec(u8), bits_read=8, bits=4, **fa)], 'vun': lambda e, o, fa: [F(vec(u16), until=('==', 0x0102), **fa)], 'vu8': lambda e, o, fa: [F(vec(u8), count=2, **fa)],
        'arr': lambda e, o, fa: [F(arr(u16, 2), **fa)], 'arrs': lambda e, o, fa: [F(arr(inner('tu', e, o), 2), **fa)], 'arrb': lambda e, o, fa: [F(arr(u8, 2), bits=4, **fa)],
        'opt': lambda e, o, fa: [F(opt(u16), **fa)], 'opts': lambda e, o, fa: [F(opt(inner('st', e, o)), cond='1 == 1', **fa)],
        'box': lambda e, o, fa: [F(box(u16), **fa)], 'boxs': lambda e, o, fa: [F(box(inner('st', e, o)), **fa)], 'bxs': lambda e, o, fa: [F(boxs(u16), count=2, **fa)],
        'arc': lambda e, o, fa: [F(arc(u16), **fa)], 'arcs': lambda e, o, fa: [F(arcs(inner('tu', e, o)), count=1, **fa)], 'cow': lambda e, o, fa: [F(cow(u16), **fa)],
        'map': lambda e, o, fa: [F(hmap(u16, u8), count=1, **fa)], 'set': lambda e, o, fa: [F(hset(u16), count=1, **fa)], 'voa': lambda e, o, fa: [F(vec(arr(tup(u16, u8), 1)), count=1, **fa)],
        'tups': lambda e, o, fa: [F(tup(inner('tu', e, o), inner('st', e, o)), **fa)], 'ens': lambda e, o, fa: [F(vec(inner('en', e, o)), count=1, **fa)],
        'ip': lambda e, o, fa: [F(Ip4, **fa)] if e and not o else None, 'nz': lambda e, o, fa: [F(NZ(u16), **fa)] if e and not o else None,
        'temp': lambda e, o, fa: [F(u16, temp=True, **fa), F(vec(u8), count='f0 & 1')], 'pad': lambda e, o, fa: [F(u8, bits=4, pad_bits_before=4, **fa)], 'pada': lambda e, o, fa: [F(u8, bits=4, pad_bits_after=4, **fa)], 'padm': lambda e, o, fa: [F(u8, bits=2, pad_bits_before=3, pad_bits_after=11, **fa)], 'padk': lambda e, o, fa: [F(u8, bits=4, **fa), F(u8, skip='all', default=3, pad_bits_before=2, pad_bits_after=2, **fa)],
        'padd': lambda e, o, fa: [F(u8, bits=3, pad_bits_after='f0 & 3', **fa), F(u8, bits='5 - (f0 & 3)', **fa)], 'cnd': lambda e, o, fa: [F(u8, bits=4, **fa), F(u8, cond='f0 == 1', default=0, skip='write', bits=4, **fa)], 'vecp': lambda e, o, fa: [F(vec(u8), count=1, bits=4, pad_bits_before=1, pad_bits_after=3, **fa)],
        'skip': lambda e, o, fa: [F(u16, skip='read', default=0x0102, **fa)],
        'tv': lambda e, o, fa: [F(u16, temp_value='len(f1)', **fa), F(vec(u8), count='f0 & 1')], 'asr': lambda e, o, fa: [F(u16, assert_='f0 != 258', **fa)], 'mag': lambda e, o, fa: [F(u16, magic=b'\x01\x02', **fa)], 'upd': lambda e, o, fa: [F(u16, update='7', **fa)],
        'end': lambda e, o, fa: [F(vec(u16), read_all=True, **fa)],
    }
    core = ('u16', 'st')
    N, B, L, X, M, S_ = None, 'big', 'little', 'x', 'msb', 'lsb'
    COVER = dict(S=[(B, N, N, N), (L, N, B, N), (N, N, B, N), (N, N, X, N), (N, S_, N, N), (N, M, N, S_), (N, N, N, S_), (N, N, N, X), (N, N, B, S_), (B, S_, X, X), (N, N, X, X), (L, S_, B, M), (N, N, N, N), (N, S_, B, N)],
                 T=[(N, N, B, S_), (B, N, X, N)], E=[(N, N, B, N), (L, N, B, N), (N, N, X, X), (N, S_, B, M)])
    nosym = ('skip', 'temp', 'tv', 'cnd')
    for ln, mk in LEAF.items():
        for fe in (None,) + ENV:
            for fo in (None,) + ODV:
                for te in (None, 'x') + ENV:
                    for to in (None, 'x') + ODV:
                        e, o = bool(fe or te), bool(fo or to)
                        for host in 'STE':
                            # thin the product of the rarer leaves to a covering list of levels of declaration
                            q = (fe, fo, te, to)
                            if not (q in COVER[host] or ln in core and host == 'S' and hash_(ln, *q) % 2 or THOROUGH and hash_('t' + ln, host, *q) % 6 == 0): continue
                            if ln in ('temp', 'tv', 'skip', 'asr', 'upd', 'end', 'padk', 'cnd', 'padd') and host != 'S': continue
                            fs = mk(e, o, fattrs(fe, fo))
                            if not fs: continue
                            if ln == 'n35' and not o and fe: pass
                            # a neighbour that declares nothing follows: it must not see the field's own orders
                            if ln != 'end': fs = fs + [F(u16)] if host != 'S' or hash_(ln, fe, to) % 2 else fs + [F(u8, bits=4), F(u8, bits=4)]
                            nm = f'H{host}_{ln}_{(fe or "n")[0]}{(fo or "n")[0]}{(te or "n")[0]}{(to or "n")[0]}'
                            ctx = ([CTXEN] if te == 'x' else []) + ([CTXOD] if to == 'x' else [])
                            kw = {}
                            if te: kw['endian'] = ('x', 0) if te == 'x' else te
                            if to: kw['order'] = ('x', int(te == 'x')) if to == 'x' else to
                            kw.update(tags=['ctx'], hints=H, maxlen=8 if ln in ('tups', 'dp') else 6, sym=ln not in nosym)
                            if host == 'S': mkh = lambda n, **k: Struct(n, fs, **k)
                            if host == 'T': mkh = lambda n, **k: Struct(n, fs, tuple=True, **k)
                            if host == 'E': mkh = lambda n, **k: Enum(n, u8, [V('A', fs, id=1), V('B', [u16] + shift(fs, 1), id=2, tuple=True), V('C', [u16], id=128)], **k)
                            if ctx:
                                h = mkh(nm + 'h', ctx=ctx, main=False, **kw)
                                # the arguments come from the parent's type or from the field itself
                                for pe in (('big', 'little') if te == 'x' else (None,)):
                                    for po in (('msb', 'lsb') if to == 'x' else (None,)):
                                        if not THOROUGH and hash_(nm, pe, po) % 2: continue
                                        onf = hash_(nm, pe, po, 'w') % 2
                                        if onf: w = Struct(f'{nm}_{(pe or "n")[0]}{(po or "n")[0]}', [F(h, **fattrs(pe, po))], tags=['ctx'], hints=H, maxlen=kw['maxlen'], sym=kw['sym'])
                                        else: w = Struct(f'{nm}_{(pe or "n")[0]}{(po or "n")[0]}', [F(h)], endian=pe, order=po, tags=['ctx'], hints=H, maxlen=kw['maxlen'], sym=kw['sym'])
                                        out.append(w)
                            else: out.append(mkh(nm, **kw))
    # argument lists: which arguments, in which order; constants, fields, arguments handed on
    for e in (0, 1):
        for o in (0, 1):
            for sz in ('', 'bits', 'bytes'):
                for args in (1, 2, 3):
                    tys = ['u8', 'u16', 'u32'][:args]
                    ctx = ([CTXEN] if e else []) + ([('sz', 'deku::ctx::BitSize' if sz == 'bits' else 'deku::ctx::ByteSize')] if sz else []) + ([CTXOD] if o else []) + [(f'a{i}', t) for i, t in enumerate(tys)]
                    b = e + (1 if sz else 0) + o
                    nm = f'HA_{e}{o}{sz}{args}'
                    kw = dict(main=False)
                    if e: kw['endian'] = ('x', 0)
                    if o: kw['order'] = ('x', e + (1 if sz else 0))
                    fs = [F(u16), F(vec(u8), count=f'x{b} & 3')]
                    if args > 1: fs.append(F(u8, cond=f'x{b + 1} != 5', default=9))
                    if args > 2: fs.append(F(u8, assert_=f'f{len(fs)} != x{b + 2}'))
                    if sz == 'bits': fs.append(F(u16, bits=f'x{e}'))
                    if sz == 'bytes': fs.append(F(u32, bytes=f'x{e}', **({} if e or not o else dict(endian='big'))))
                    h = Struct(nm + 'h', fs, ctx=ctx, **kw)
                    fa = {}
                    if e: fa['endian'] = 'big'
                    if o: fa['order'] = 'lsb'
                    if sz == 'bits': fa['bits'] = 8
                    if sz == 'bytes': fa['bytes'] = 3
                    src = ['f0', 'f1', '3']
                    F0 = [F(u8), F(u8)]
                    T = lambda n, f, **k: out.append(Struct(f'{nm}_{n}', f, tags=['ctx'], hints=[1, 0, 5, 3], maxlen=k.pop('maxlen', 9), sym=False, **k))
                    T('f', F0 + [F(h, ctx=list(zip(src, tys)), **fa)])
                    T('v', F0 + [F(vec(h), count=1, ctx=list(zip(src, tys)), **fa)])
                    T('r', F0 + [F(arr(h, 1), ctx=list(zip(['f1', 'f0', '5'], tys)), **fa)])
                    T('o', F0 + [F(opt(h), cond='f0 != 0', ctx=list(zip(['1', 'f0', 'f1'], tys)), **fa)])
                    T('b', F0 + [F(box(h), ctx=list(zip(['f1', '5', 'f0'], tys)), **fa)])
                    # handed on through one more level
                    m = Struct(nm + 'm', [F(u8), F(h, ctx=list(zip(['x0', 'f0', 'x1'], tys)), **fa)], ctx=[('p', 'u8'), ('q', 'u32')], main=False)
                    T('m', [F(u8), F(m, ctx=[('f0', 'u8'), ('4', 'u32')])])
                    T('mm', [F(u8), F(vec(m), count=1, ctx=[('f0', 'u8'), ('byteoff', 'u32')])])
                    ev = Enum(nm + 'e', u8, [V('A', [F(h, ctx=list(zip(['x0', '5', '2'], tys)), **fa)], id=1), V('B', [F(u8), F(vec(h), count=1, ctx=list(zip(['f0', 'x0', '2'], tys)), **fa)], id=0)], ctx=[('p', 'u8')], main=False)
                    T('e', [F(u8), F(ev, ctx=[('f0', 'u8')])])
    # defaults of arguments
    for en in ('big', 'little'):
        for od in ('msb', 'lsb'):
            for n in ((0, 1, 2) if THOROUGH else (1,) if (en, od) in (('big', 'msb'), ('little', 'lsb')) else (2,)):
                D = {'big': DEN, 'little': DENL}[en], {'msb': DODM, 'lsb': DOD}[od]
                nm = f'HD_{en[0]}{od[0]}{n}'
                k = dict(tags=['ctx'], hints=[1, 0, 5, 2], sym=True)
                d1 = Struct(nm + '_a', [F(u16), F(vec(u8), count='x1')], ctx=[CTXEN, ('n', 'u8')], endian=('x', 0), ctx_default=[D[0], (str(n), str(n))], maxlen=6, **k)
                d2 = Struct(nm + '_b', [F(u8, bits=3), F(u8, bits=5), F(vec(u16), count='x0')], ctx=[('n', 'u8'), CTXOD], order=('x', 1), ctx_default=[(str(n), str(n)), D[1]], maxlen=7, **k)
                d3 = Enum(nm + '_c', u16, [V('A', [F(u16), F(vec(u8), count='x1')], id=1), V('B', [F(u8, cond='x1 == 1', default=3)], id=0x100)], ctx=[CTXEN, ('n', 'u8'), CTXOD], endian=('x', 0), order=('x', 2), ctx_default=[D[0], (str(n), str(n)), D[1]], maxlen=7, tags=['ctx'], hints=[1, 0, 5, 2], sym=False)
                d4 = Enum(nm + '_d', None, [V('A', [F(u16)], id=0), V('B', [F(u8)], id=1), V('C', [F(u8), F(u16)], id=2)], idctx='x0', idctx_rust='n', ctx=[('n', 'u8')], ctx_default=[(str(n), str(n))], maxlen=5, **k)
                out += [d1, d2, d3, d4]
                # nested without and with arguments
                out.append(Struct(nm + '_e', [F(u8), F(d1), F(vec(d4), count=1), F(d2)], maxlen=9, **k))
                if n < 2: out.append(Struct(nm + '_f', [F(u8), F(d1, endian='big', ctx=[('f0', 'u8')]), F(d4, ctx=[('f0', 'u8')]), F(box(d1), endian='little', ctx=[('1', 'u8')])], maxlen=10, tags=['ctx'], hints=[1, 0, 5, 2], sym=False))
                if n < 2: out.append(Struct(nm + '_g', [F(d3), F(opt(d2), cond='1 == 1'), F(arr(d4, 2), ctx=[(str(n), 'u8')])], maxlen=10, tags=['ctx'], hints=[1, 0, 5, 2], sym=False))
    return out

def hostile():
    """every place a length, size, position or count can be taken from the input x every width and signedness of it"""
    out = []
    H = [0, 0xff, 1, 0x80, 0x7f, 2, 8]
    WS = [u8, u16, u32, u64, u128, i8, i16, i32, i64, USIZE]
    sb = lambda t: 8 if t in (USIZE, ISIZE) else int(t.rust[1:]) // 8
    rec = Struct('ZRec', [F(u8), F(u16)], hash=True, main=False)
    var = Struct('ZVar', [F(u8), F(vec(u8), count='f0', raw=True)], hash=True, main=False)
    var4 = Struct('ZVar4', [F(u32), F(vec(u8), count='f0', raw=True)], hash=True, main=False)
    big = Struct('ZBig', [F(arr(u64, 16))], main=False)
    nib = Struct('ZNib', [F(u8, bits=4)], hash=True, main=False)
    en = Enum('ZEn', u8, [V('A', [u8], id=1), V('B', [F(u32), F(vec(u16), count='f0', raw=True)], id=2), V('C', id=0)], hash=True, main=False)
    zst = Struct('ZZst', [], main=False)
    ctxn = Struct('ZCtx', [F(vec(u8), count='x0')], ctx=[('n', 'u64')], hash=True, main=False)
    ctxp = Struct('ZCtxP', [F(u8, pad_bytes_before='x0')], ctx=[('n', 'u64')], hash=True, main=False)
    CNT = {'u8': (vec(u8), {}), 'u8b': (vec(u8), dict(bits=4)), 'u16': (vec(u16), {}), 'u128': (vec(u128), {}), 'rec': (vec(rec), {}), 'var': (vec(var), {}), 'nib': (vec(nib), {}), 'en': (vec(en), {}), 'bxs': (boxs(u8), {}), 'bxr': (boxs(rec), {}), 'ars': (arcs(u16), {}),
           'map': (hmap(u8, u8), {}), 'mapr': (hmap(u16, var), {}), 'set': (hset(u16), {}), 'tup': (vec(tup(u8, u32)), {}), 'arr': (vec(arr(u8, 3)), {}), 'big': (vec(big), {}), 'opt': (vec(opt(u8)), {}), 'box': (vec(box(u8)), {}), 'bool': (vec(Bool), {}), 'cstr': (vec(CStr), {}), 'f64': (vec(f64), {}), 'vv4': (vec(var4), {}), 'nz': (vec(NZ(u16)), {}), 'ip': (vec(Ip6), {}), 'setn': (hset(nib), {}), 'u8l': (vec(u8), dict(order='lsb')), 'unit': (vec(Unit), {}), 'zst': (vec(zst), {}), 'arr0': (boxs(arr(u8, 0)), {})}
    def A(n, fs, t, extra=2, **k): out.append(Struct('Z_' + n, fs, tags=['hostile'] + k.pop('tags', []), hints=H, maxlen=k.pop('maxlen', sb(t) + extra), sym=False, **k))
    def pick(*a): return THOROUGH or hash_(*a) % 3 == 0
    for n in ('unit', 'zst', 'arr0'): # elements that take no room, however many there are
        A(f'all_{n}', [F(u8), F(CNT[n][0], read_all=True)], u8, 2)
        A(f'allf_{n}', [F(CNT[n][0], read_all=True), F(u8)], u8, 2)
    for w in WS:
        wn = w.rust
        for n, (ty, a) in CNT.items():
            if n in ('u8', 'u16', 'map', 'set', 'var') or pick('cnt', wn, n):
                A(f'cnt_{wn}_{n}', [F(w), F(ty, count='f0', raw=True, **a), F(u8)], w, 3)
            if n in ('u8', 'rec') or pick('cntu', wn, n):
                A(f'cntu_{wn}_{n}', [F(u8, bits=3), F(w), F(ty, count='f1', raw=True, **a), F(u8, bits=5)], w, 3)
            if n in ('u8', 'u16', 'map', 'rec') or pick('by', wn, n): A(f'by_{wn}_{n}', [F(w), F(ty, bytes_read='f0', raw=True, **a)], w, 3)
            if n in ('u8', 'u16', 'set', 'nib') or pick('bi', wn, n): A(f'bi_{wn}_{n}', [F(w), F(ty, bits_read='f0', raw=True, **a), F(u8)], w, 3)
        for t in (u8, u16, u32, u64, u128, i16, i64, i128, f32, f64, Bool, NZ(u32)):
            if t.rust.startswith('std'): en_ = dict(endian='big')
            else: en_ = {}
            if not t.rust.startswith('f'): A(f'sb_{wn}_{t.rust.split(":")[-1]}', [F(w), F(t, bits='f0', raw=True, **en_), F(u8)], w, 3)
            if not t.rust.startswith('f') and pick('sbl', wn, t.rust) and not t.rust.startswith('std'): A(f'sbl_{wn}_{t.rust}', [F(w), F(t, bits='f0', raw=True), F(u8)], w, 3, order='lsb')
            if t not in (Bool,): A(f'sy_{wn}_{t.rust.split(":")[-1]}', [F(w), F(t, bytes='f0', raw=True, **en_)], w, 3)
            if t not in (Bool,) and not t.rust.startswith('f') and pick('syl', wn, t.rust): A(f'syl_{wn}_{t.rust.split(":")[-1]}', [F(w), F(t, bytes='f0', raw=True), F(u8)], w, 3, endian='little', order='lsb')
        A(f'sbv_{wn}', [F(w), F(vec(u16), count=2, bits='f0', raw=True)], w, 3)
        A(f'syv_{wn}', [F(w), F(arr(u32, 2), bytes='f0', raw=True)], w, 3)
        A(f'cs_{wn}', [F(w), F(CStr, bytes='f0', raw=True), F(u8)], w, 3)
        for k in ('pad_bits_before', 'pad_bits_after', 'pad_bytes_before', 'pad_bytes_after'):
            A(f'{k}_{wn}', [F(w), F(u8, **{k: 'f0'}, raw=True), F(u8)], w, 3, tags=['nowrite'])
            A(f'{k}_l_{wn}', [F(w), F(u8, **{k: 'f0'}, raw=True, bits=3), F(u8, bits=5)], w, 3, order='lsb', tags=['nowrite'])
            A(f'{k}_u_{wn}', [F(u8, bits=4), F(w), F(u8, **{k: 'f1'}, raw=True, bits=4), F(u8)], w, 3, tags=['nowrite'])
            A(f'{k}_2_{wn}', [F(w), F(u8, **{k: 'f0'}, raw=True), F(u8, **{k: 'f0'}, raw=True)], w, 3, tags=['nowrite'])
            A(f'{k}_v_{wn}', [F(w), F(vec(u8), count=1, **{k: 'f0'}, raw=True), F(vec(u16), read_all=True)], w, 3, tags=['nowrite'])
        A(f'padboth_{wn}', [F(w), F(u8, pad_bits_before='f0', pad_bytes_before='f0', raw=True), F(u8, pad_bits_after='3', pad_bytes_after='f0', raw=True)], w, 3, tags=['nowrite'])
        for k in ('cur', 'start', 'end'):
            A(f'sk_{k}_{wn}', [F(w), F(u8, seek=(k, 'f0'), raw=True), F(u8)], w, 3, tags=['nowrite'])
            A(f'sk2_{k}_{wn}', [F(w), F(u8, seek=(k, 'f0'), raw=True, pad_bytes_before='f0'), F(u8, bits=4, seek=(k, 'f0'))], w, 3, tags=['nowrite'])
            A(f'skv_{k}_{wn}', [F(w), F(vec(u8), seek=(k, 'f0'), count='f0', raw=True), F(vec(u8), read_all=True)], w, 3, tags=['nowrite'])
        A(f'dbl_{wn}', [F(w), F(vec(u8), count='f0', raw=True, pad_bytes_before='f0'), F(vec(u16), bytes_read='f0', raw=True)], w, 4, tags=['nowrite'])
        if w not in (u128, USIZE):
            A(f'ctx_{wn}', [F(w), F(ctxn, ctx=[('f0', 'u64')])], w, 3)
            A(f'ctxv_{wn}', [F(w), F(vec(ctxn), count='f0', raw=True, ctx=[('f0', 'u64')])], w, 3)
            A(f'ctxp_{wn}', [F(w), F(ctxp, ctx=[('f0', 'u64')]), F(vec(u8), read_all=True)], w, 3, tags=['nowrite'])
            A(f'tsk_{wn}', [F(w), F(Struct(f'ZI_tsk_{wn}', [F(u8)], seek=('start', 'x0'), ctx=[('n', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)], w, 3, tags=['nowrite'])
            A(f'tsc_{wn}', [F(w), F(Struct(f'ZI_tsc_{wn}', [F(u8)], seek=('cur', 'x0'), ctx=[('n', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)], w, 3, tags=['nowrite'])
            A(f'tse_{wn}', [F(w), F(Struct(f'ZI_tse_{wn}', [F(u8)], seek=('end', 'x0'), ctx=[('n', 'i64')], main=False), ctx=[('f0', 'i64')]), F(u8)], w, 3, tags=['nowrite'])
        e = Enum(f'Z_en_{wn}', w if w is not USIZE else u64, [V('A', [F(u8), F(vec(u8), count='f0', raw=True)], id=1), V('B', [F(w), F(vec(u16), bytes_read='f0', raw=True)], id=0), V('C', [F(u64 if w is USIZE else w), F(u8, pad_bits_before='f0', raw=True)], pat='_', mat='any')], hints=H, maxlen=2 * sb(w) + 1, sym=False, tags=['nowrite', 'hostile'])
        if w not in (i8, i16, i32, i64): out.append(e)
    A('nest4', [F(u32), F(vec(Struct('ZN1', [F(u32), F(vec(Struct('ZN2', [F(u32), F(vec(u8), count='f0', raw=True)], main=False)), count='f0', raw=True)], main=False)), count='f0', raw=True)], u64, 6)
    A('nest1', [F(u8), F(vec(Struct('ZM1', [F(u8), F(vec(Struct('ZM2', [F(u8), F(boxs(u16), count='f0', raw=True)], main=False)), count='f0', raw=True)], main=False)), count='f0', raw=True)], u32, 4)
    A('tv', [F(u32, temp_value='len(f1)'), F(vec(u8), count='f0')], u32, 3)
    A('tmp', [F(u64, temp=True), F(vec(u64), count='f0'), F(u8, cond='f0 == 0', default=1)], u64, 3, tags=['nowrite'])
    return out

def features():
    """C18: a slice through every product, plus the constructs whose generated code depends on the library features"""
    out = []
    k = 1 if THOROUGH else 100
    for g, d in ((enums, k), (magics, k // 2), (asserts, k // 2), (controls, 2 * k), (updates, 2 * k), (sizes, k), (seeks, 2 * k), (inherits, 2 * k), (containers, 2 * k), (setmaps, k), (hostile, 2 * k)):
        d = max(d, 1)
        if d == 1 and g is hostile: d = 2
        out += [x for x in g() if x and hash_('c18', x.name) % d == 0]
    def A(n, fs, maxlen, **k): out.append(Struct('Q_' + n, fs, maxlen=maxlen, **k))
    for kk in ('pad_bytes_before', 'pad_bytes_after'):
        for m in ('0', '1', '2', '5', 'f0', 'f0 & 3'):
            A(f'{kk}_{m.replace(" & ", "m")}', [F(u8), F(u16, **{kk: m}), F(u8)], 7, hints=[0, 1, 2, 3, 0xff])
            A(f'{kk}_c{m.replace(" & ", "m")}', [F(u8), F(u8, cond='f0 == 1', **{kk: m}, default=9), F(u8)], 5, hints=[0, 1, 2, 3, 0xff])
            A(f'{kk}_s{m.replace(" & ", "m")}', [F(u8), F(u8, skip='all', **{kk: m}), F(u8)], 5, hints=[0, 1, 2, 3, 0xff])
            A(f'{kk}_m{m.replace(" & ", "m")}', [F(u8), F(u8, magic=b'\x01', **{kk: m}), F(u8)], 5, hints=[0, 1, 2, 3, 0xff])
            A(f'{kk}_v{m.replace(" & ", "m")}', [F(u8), F(vec(u16), count='f0', **{kk: m}), F(u8)], 7, hints=[0, 1, 2, 3, 0xff])
    A('pad_both', [F(u8, pad_bytes_before='1', pad_bytes_after='2'), F(u16, pad_bytes_after='f0 & 1')], 8, hints=[0, 1])
    for t in (u16, u32, u64, u128, i16, i32, i64, i128, f32, f64):
        w = int(t.rust[1:]) // 8
        for n in range(1, w + 1):
            for e in ('big', 'little'):
                if n in (1, 2, 3, w // 2 + 1, w - 1, w): A(f'by_{t.rust}_{n}_{e}', [F(u8), F(t, bytes=n, endian=e), F(u8)], n + 3)
                if n in (1, 3, w): A(f'bys_{t.rust}_{n}_{e}', [F(t, bytes=n), F(arr(t, 2), bytes=n)], 3 * n + 1, endian=e)
                if n in (1, 3, w) and (THOROUGH or e == 'big'): A(f'byv_{t.rust}_{n}_{e}', [F(u8), F(vec(t), bytes=n, count='f0'), F(box(t), bytes=n)], 3 * n + 2, endian=e, hints=[0, 1, 2, 0xff])
    for t in (NZ(u8), NZ(u16), NZ(u32), NZ(u64), NZ(u128), NZ(i16), NZ(i64)):
        for e in ('big', 'little'): A(f'nz_{t.rust.split("<")[-1].strip(">").split(":")[-1]}_{e}', [F(u8), F(t), F(u8)], 6 if '16' in t.rust else 18, endian=e)
    A('cs', [F(CStr), F(u8)], 4, hints=[0, 1]); A('csb', [F(u8), F(CStr, bytes='f0')], 5, hints=[0, 1, 2, 3]); A('ip', [F(Ip4), F(Ip6)], 21, endian='little'); A('ipb', [F(vec(Ip4), count=2)], 9, endian='big')
    A('off', [F(u8), F(u16, cond='byteoff < 2'), F(u8, cond='byteoff < 2', default=3), F(u8, pad_bytes_before='byteoff')], 10, tags=['nowrite'])
    A('unit', [F(u8), F(Unit), F(tup(u8, u16)), F(arr(tup(u8, Bool), 2))], 8, endian='big', hints=[0, 1])
    return out
