"""DSL describing deku programs once; emits the Rust declaration (derive input), the value
bridge and the reference-model record for each."""
import ast

class T:
    def __init__(s, rust, sx, **k):
        s.rust, s.sx = rust, sx
        s.inner = k.get('inner'); s.rec = k.get('rec'); s.deps = k.get('deps', [])
def U(w): return T(f'u{w}', f'(u {w})')
def I(w): return T(f'i{w}', f'(i {w})')
def Fl(w): return T(f'f{w}', f'(f {w})')
USIZE = T('usize', '(u 64)'); ISIZE = T('isize', '(i 64)')
u8, u16, u32, u64, u128 = [U(w) for w in (8, 16, 32, 64, 128)]
i8, i16, i32, i64, i128 = [I(w) for w in (8, 16, 32, 64, 128)]
f32, f64 = Fl(32), Fl(64)
Bool = T('bool', 'bool'); Unit = T('()', 'unit'); CStr = T('std::ffi::CString', 'cstr'); Str = T('String', '(u 8)')
def NZ(t):
    sgn, w = t.rust[0], t.rust[1:]
    return T(f'std::num::NonZero{sgn.upper()}{w}', f'(nz{sgn} {w})')
Ip4 = T('std::net::Ipv4Addr', '(u 32)'); Ip6 = T('std::net::Ipv6Addr', '(u 128)')
def arr(t, n): return T(f'[{t.rust}; {n}]', f'(arr {t.sx} {n})', deps=[t])
def tup(*ts): return T('(' + ''.join(t.rust + ', ' for t in ts) + ')', '(tup ' + ' '.join(t.sx for t in ts) + ')', deps=list(ts))
def opt(t): return T(f'Option<{t.rust}>', f'(opt {t.sx})', deps=[t])
def vec(t): return T(f'Vec<{t.rust}>', f'(vec {t.sx})', deps=[t])
def hset(t): return T(f'std::collections::HashSet<{t.rust}>', f'(set {t.sx})', deps=[t])
def hmap(k, v): return T(f'std::collections::HashMap<{k.rust}, {v.rust}>', f'(map {k.sx} {v.sx})', deps=[k, v])
def box(t): return T(f'Box<{t.rust}>', f'(wrap {t.sx})', deps=[t])
def boxs(t): return T(f'Box<[{t.rust}]>', f'(wrap (vec {t.sx}))', deps=[t])
def arc(t): return T(f'std::sync::Arc<{t.rust}>', f'(wrap {t.sx})', deps=[t])
def arcs(t): return T(f'std::sync::Arc<[{t.rust}]>', f'(wrap (vec {t.sx}))', deps=[t])
def cow(t): return T(f"std::borrow::Cow<'static, {t.rust}>", f'(wrap {t.sx})', deps=[t])

# ------------------------------------------------------------------ expressions
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.BitAnd: '&'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<'}
class Ex:
    """integer/boolean expression over f<i> (fields), x<i> (ctx arguments), len(f), sum(f), byteoff, bitoff"""
    def __init__(s, src): s.src = str(src); s.t = ast.parse(s.src, mode='eval').body
    def const(s): return s.src.lstrip('-').isdigit()
    def sx(s): return sx(s.t)
    def rust(s, env): return rs(s.t, env)
def sx(n):
    if isinstance(n, ast.Constant): return str(int(n.value))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return '-' + sx(n.operand)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): return f'(not {sx(n.operand)})'
    if isinstance(n, ast.Name):
        if n.id in ('byteoff', 'bitoff'): return n.id
        return f'({n.id[0]} {n.id[1:]})'
    if isinstance(n, ast.BinOp): return f'({OPS[type(n.op)]} {sx(n.left)} {sx(n.right)})'
    if isinstance(n, ast.Compare): return f'({CMP[type(n.ops[0])]} {sx(n.left)} {sx(n.comparators[0])})'
    if isinstance(n, ast.BoolOp): return f'(and {sx(n.values[0])} {sx(n.values[1])})'
    if isinstance(n, ast.Call): return f'({n.func.id} {n.args[0].id[1:]})'
    raise Exception(ast.dump(n))
def rs(n, env):
    r = lambda m: rs(m, env)
    if isinstance(n, ast.Constant): return f'{int(n.value)}i64'
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return f'(-{r(n.operand)})'
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): return f'(!{r(n.operand)})'
    if isinstance(n, ast.Name):
        if n.id == 'byteoff': return '(deku::byte_offset as i64)'
        if n.id == 'bitoff': return '(deku::bit_offset as i64)'
        if n.id[0] == 'x': return env['ctx'](int(n.id[1:]))
        return env['field'](int(n.id[1:]))
    if isinstance(n, ast.BinOp): return f'({r(n.left)} {OPS[type(n.op)]} {r(n.right)})'
    if isinstance(n, ast.Compare): return f'({r(n.left)} {CMP[type(n.ops[0])]} {r(n.comparators[0])})'
    if isinstance(n, ast.BoolOp): return f'({r(n.values[0])} && {r(n.values[1])})'
    if isinstance(n, ast.Call):
        f = env['name'](int(n.args[0].id[1:]))
        if n.func.id == 'len': return f'({f}.len() as i64)'
        if n.func.id == 'sum': return f'({f}.iter().map(|q| *q as i64).sum::<i64>())'
    raise Exception(ast.dump(n))

# ------------------------------------------------------------------ values
def val_sx(t, v):
    """python literal -> model value, guided by the sx type"""
    h = t.sx.strip('()').split()[0]
    if v is None: return 'none'
    if h == 'opt': return f'(some {val_sx(t.deps[0], v)})'
    if h == 'bool': return 'true' if v else 'false'
    if h in ('u', 'nzu', 'f'): return f'(u {v})'
    if h in ('i', 'nzi'): return f'(i {v})'
    if h == 'wrap': return val_sx(t.deps[0], v) if not t.rust.endswith(']>') else '(l ' + ' '.join(val_sx(t.deps[0], x) for x in v) + ')'
    if h in ('vec', 'arr', 'set'): return '(l ' + ' '.join(val_sx(t.deps[0], x) for x in v) + ')'
    if h == 'tup': return '(l ' + ' '.join(val_sx(d, x) for d, x in zip(t.deps, v)) + ')'
    raise Exception(h)
def val_rs(t, v):
    h = t.sx.strip('()').split()[0]
    if v is None: return 'None'
    if h == 'opt': return f'Some({val_rs(t.deps[0], v)})'
    if h == 'bool': return 'true' if v else 'false'
    if h in ('u', 'i'): return f'{v}'
    if h == 'vec': return 'vec![' + ', '.join(val_rs(t.deps[0], x) for x in v) + ']'
    if h == 'arr': return '[' + ', '.join(val_rs(t.deps[0], x) for x in v) + ']'
    if h == 'tup': return '(' + ', '.join(val_rs(d, x) for d, x in zip(t.deps, v)) + ',)'
    raise Exception(h)

def bstr(b): return ''.join('\\x%02x' % x for x in b)
def hexs(b): return '#' + ''.join('%02x' % x for x in b)
EN = {'big': 'big', 'little': 'little'}
OD = {'msb': 'msb', 'lsb': 'lsb'}

class F:
    """field. attrs: endian, order, bits, bytes, count, bytes_read, bits_read, until, read_all, cond, skip,
    default, pad_bits_before/after, pad_bytes_before/after, seek=('cur',e), magic, assert_, assert_eq, temp,
    temp_value, update, ctx=[exprs], map"""
    def __init__(s, ty, **a): s.ty, s.a = ty, a
    def deps(s): return [s.ty]

def cast(e, env, ty='usize'):
    if env.get('raw') and e.src[0] == 'f' and e.src[1:].isdigit(): return f'*{env["name"](int(e.src[1:]))}'
    return e.src if e.const() else f'({e.rust(env)}) as {ty}'

def field_attrs(f, i, env, uenv, ctxargs):
    a, o = f.a, []
    if a.get('raw'): env = {**env, 'raw': True} # the expression is the field itself, of its own type
    E = lambda k: Ex(a[k])
    src = lambda v, kinds: v
    if 'endian' in a:
        o.append(f'endian = "{a["endian"] if isinstance(a["endian"], str) else ctxargs[a["endian"][1]][0]}"')
    if 'order' in a:
        o.append(f'bit_order = "{a["order"] if isinstance(a["order"], str) else ctxargs[a["order"][1]][0]}"')
    for k in ('bits', 'bytes'):
        if k in a:
            e = E(k)
            o.append(f'{k} = {e.src}' if e.const() else f'{k} = "{cast(e, {**env, "raw": False})}"')
    for k in ('count', 'bytes_read', 'bits_read', 'pad_bits_before', 'pad_bits_after', 'pad_bytes_before', 'pad_bytes_after'):
        if k in a: o.append(f'{k} = "{cast(E(k), env)}"')
    if 'until' in a:
        op, k = a['until']
        o.append(f'until = "|v: &{f.ty.deps[0].rust}| {pred(f.ty.deps[0], "v", op, k)}"')
    if 'read_all' in a: o.append('read_all')
    if 'cond' in a: o.append(f'cond = "{E("cond").rust(env)}"')
    if 'skip' in a: o.append('skip' if a['skip'] == 'all' else f'skip({a["skip"]})')
    if 'default' in a: o.append(f'default = "{val_rs(f.ty, a["default"])}"')
    if 'seek' in a:
        if a['seek'] == 'rewind': o.append('seek_rewind')
        else:
            n = {'cur': 'seek_from_current', 'start': 'seek_from_start', 'end': 'seek_from_end'}[a['seek'][0]]
            o.append(f'{n} = "{cast(Ex(a["seek"][1]), env) if env.get("raw") else Ex(a["seek"][1]).rust(env)}"')
    if 'magic' in a: o.append(f'magic = b"{bstr(a["magic"])}"')
    if 'assert_' in a: o.append(f'assert = "{E("assert_").rust(env)}"')
    if 'assert_eq' in a: o.append(f'assert_eq = "({E("assert_eq").rust(env)}) as {f.ty.rust}"')
    if a.get('temp'): o.append('temp')
    if 'temp_value' in a: o.append(f'temp, temp_value = "({E("temp_value").rust(env)}) as {f.ty.rust}"')
    if 'update' in a: o.append(f'update = "{E("update").rust(uenv)}"')
    if 'ctx' in a: o.append('ctx = "' + ', '.join(f'({Ex(e).rust(env)}) as {t}' if t not in ('en', 'od', 'raw') else e for e, t in a['ctx']) + '"')
    m = a.get('map')
    if m == 'addone': o.append('map = "|v: u8| -> Result<_, DekuError> { Ok(v.wrapping_add(1)) }"')
    if m == 'tostr': o += ['map = "|v: u8| -> Result<_, DekuError> { Ok(v.to_string()) }"', f'writer = "{env["name"](i)}.parse::<u8>().unwrap().to_writer(deku::writer, ())"']
    if m == 'fail': o.append('map = "|v: u8| -> Result<_, DekuError> { if v % 2 == 1 { Err(DekuError::Parse(\\"o\\".into())) } else { Ok(v) } }"')
    if m == 'xor': o += ['reader = "xor_read(deku::reader)"', f'writer = "xor_write(deku::writer, {env["name"](i)})"']
    return ['#[deku(' + ', '.join(o) + ')]'] if o else []
def pred(t, v, op, k):
    h = t.sx.strip('()').split()[0]
    if h == 'rec': return f'{v}.f0 as i64 {op} {k}'
    if h == 'tup': return f'{v}.0 as i64 {op} {k}'
    if h in ('nzu', 'nzi'): return f'{v}.get() as i64 {op} {k}'
    if h == 'wrap': return f'**{v} as i64 {op} {k}'
    return f'*{v} as i64 {op} {k}'

def field_sx(f, i):
    a, o = f.a, []
    E = lambda k: Ex(a[k]).sx()
    def us(e): # what the generated program does with the expression, see cast
        e = Ex(e)
        return e.sx() if e.const() or a.get('raw') and e.src[0] == 'f' and e.src[1:].isdigit() else f'(us {e.sx()})'
    if 'endian' in a: o.append(f'(endian {a["endian"]})' if isinstance(a['endian'], str) else f'(endian (x {a["endian"][1]}))')
    if 'order' in a: o.append(f'(order {a["order"]})' if isinstance(a['order'], str) else f'(order (x {a["order"][1]}))')
    for k, n in (('bits', 'bits'), ('bytes', 'bytes'), ('count', 'count'), ('bytes_read', 'nbytes'), ('bits_read', 'nbits'), ('cond', 'cond'),
                 ('assert_', 'assert'), ('assert_eq', 'asserteq'), ('temp_value', 'tempv'), ('update', 'update')):
        if k in a: o.append(f'({n} {us(a[k]) if k in ("count", "bytes_read", "bits_read") else E(k)})')
    if 'until' in a: o.append(f'(until {a["until"][0]} {a["until"][1]})')
    if 'read_all' in a: o.append('(all)')
    if 'skip' in a: o.append(f'(skip {a["skip"]})')
    if 'default' in a: o.append(f'(default {val_sx(f.ty, a["default"])})')
    for side, n in (('before', 'padb'), ('after', 'pada')):
        b, y = a.get(f'pad_bits_{side}'), a.get(f'pad_bytes_{side}')
        if b is not None or y is not None: o.append(f'({n} (+ {us(b or 0)} (* {us(y or 0)} 8)))')
    if 'seek' in a: o.append(f'(seek rewind)' if a['seek'] == 'rewind' else f'(seek ({a["seek"][0]} {Ex(a["seek"][1]).sx()}))')
    if 'magic' in a: o.append(f'(magic {hexs(a["magic"])})')
    if a.get('temp'): o.append('temp')
    if 'ctx' in a: o.append('(ctx ' + ' '.join(Ex(e).sx() for e, t in a['ctx'] if t not in ('en', 'od', 'raw')) + ')')
    if 'map' in a: o.append(f'(map {a["map"]})')
    return f'(fd f{i} {f.ty.sx} ' + ' '.join(o) + ')'

def mkenv(ctxargs, fname, ref):
    def ctx(i):
        n, t = ctxargs[i]
        return f'({n}.0 as i64)' if t.endswith('BitSize') or t.endswith('ByteSize') else f'({n} as i64)'
    return dict(ctx=ctx, field=(lambda i: f'(*{fname(i)} as i64)') if ref else (lambda i: f'({fname(i)} as i64)'), name=fname)

def top_attrs(k, ctxargs, o=None):
    o = [] if o is None else o
    env = mkenv(ctxargs, None, False)
    if k.get('endian'): o.append(f'endian = "{k["endian"] if isinstance(k["endian"], str) else ctxargs[k["endian"][1]][0]}"')
    if k.get('order'): o.append(f'bit_order = "{k["order"] if isinstance(k["order"], str) else ctxargs[k["order"][1]][0]}"')
    if k.get('magic'): o.append(f'magic = b"{bstr(k["magic"])}"')
    if k.get('seek'):
        if k['seek'] == 'rewind': o.append('seek_rewind')
        else: o.append({'cur': 'seek_from_current', 'start': 'seek_from_start', 'end': 'seek_from_end'}[k['seek'][0]] + f' = "{Ex(k["seek"][1]).rust(env)}"')
    if ctxargs: o.append('ctx = "' + ', '.join(f'{n}: {t}' for n, t in ctxargs) + '"')
    if k.get('ctx_default'): o.append('ctx_default = "' + ', '.join(x[0] for x in k['ctx_default']) + '"')
    return o
def top_sx(k):
    o = []
    if k.get('endian'): o.append(f'(endian {k["endian"]})' if isinstance(k['endian'], str) else f'(endian (x {k["endian"][1]}))')
    if k.get('order'): o.append(f'(order {k["order"]})' if isinstance(k['order'], str) else f'(order (x {k["order"][1]}))')
    if k.get('magic'): o.append(f'(magic {hexs(k["magic"])})')
    if k.get('seek'): o.append('(seek rewind)' if k['seek'] == 'rewind' else f'(seek ({k["seek"][0]} {Ex(k["seek"][1]).sx()}))')
    if k.get('ctx_default'): o.append('(ctxdefault ' + ' '.join(x[1] for x in k['ctx_default']) + ')')
    return o

CTXEN = ('endian', 'deku::ctx::Endian'); CTXOD = ('order', 'deku::ctx::Order')

class Prog(T):
    """a program: struct or enum type; usable as a field type"""
    def __init__(s, name, kw, derives=''):
        s.name = name; s.rust = name; s.kw = kw
        s.sym = kw.get('sym', True); s.maxlen = kw.get('maxlen', 4); s.hints = kw.get('hints', []); s.tags = list(kw.get('tags', []))
        s.main = kw.get('main', True); s.size = kw.get('size', False); s.gen = kw.get('gen', ''); s.inner = None; s.fields_ = []
        s.dirs = kw.get('dirs', 'rw')
def uses_temp(fs): return any(f.a.get('temp') or 'temp_value' in f.a for f in fs)
def derive_line(fs, size, hashable, extra=''):
    std = 'Debug, Clone, PartialEq' + (', Eq, Hash' if hashable else '') + extra
    dk = 'DekuRead, DekuWrite' + (', DekuSize' if size else '')
    if uses_temp(fs): return (['#[derive(DekuSize)]'] if size else []) + ['#[deku_derive(DekuRead, DekuWrite)]', f'#[derive({std})]']
    return [f'#[derive({std}, {dk})]']

class Struct(Prog):
    def __init__(s, name, fields, **kw):
        super().__init__(name, kw)
        fields = [f if isinstance(f, F) else F(f) for f in fields]
        s.fields_ = fields
        s.deps = [f.ty for f in fields]
        ctx = kw.get('ctx', [])
        tuple_ = kw.get('tuple', False)
        fn = (lambda i: f'field_{i}') if tuple_ else (lambda i: f'f{i}')
        env = mkenv(ctx, fn, True)
        keep = [i for i, f in enumerate(fields) if not (f.a.get('temp') or 'temp_value' in f.a)]
        un = (lambda i: f'self.{keep.index(i)}') if tuple_ else (lambda i: f'self.f{i}')
        uenv = mkenv(ctx, un, False)
        L = derive_line(fields, s.size, kw.get('hash'), ', Default' if kw.get('deflt') else '')
        ta = top_attrs(kw, ctx)
        if ta: L.append('#[deku(' + ', '.join(ta) + ')]')
        body = []
        for i, f in enumerate(fields):
            body += ['    ' + x for x in field_attrs(f, i, env, uenv, ctx)]
            body.append(f'    pub {f.ty.rust},' if tuple_ else f'    pub f{i}: {f.ty.rust},')
        if tuple_: L += [f'pub struct {name}(', *body, ');']
        elif body: L += [f'pub struct {name} {{', *body, '}']
        else: L += [f'pub struct {name} {{}}']
        s.decl = L
        acc = (lambda i, k: k) if tuple_ else (lambda i, k: f'f{i}')
        tv = ', '.join(f'Dyn::to_val(&self.{acc(i, k)})' for k, i in enumerate(keep))
        fv = ', '.join(f'{acc(i, k)}: Dyn::from_val(&l[{k}])' for k, i in enumerate(keep))
        s.dyn = [f'impl Dyn for {name} {{ fn to_val(&self) -> Val {{ Val::R(0, vec![{tv}]) }}',
                 f'  fn from_val(v: &Val) -> Self {{ let Val::R(_, l) = v else {{ panic!() }}; let _ = l; {name} {{ {fv} }} }} }}']
        s.sx = f'(rec {name} ' + ' '.join(top_sx(kw) + ['(struct ' + ' '.join(field_sx(f, i) for i, f in enumerate(fields)) + ')']) + ')'

class V:
    """enum variant. id=int | pat=rust pattern; disc=discriminant; mat/oneof/range for the model; stores: first field is the id"""
    def __init__(s, name, fields=(), **a):
        s.name, s.a = name, a
        s.fields = [f if isinstance(f, F) else F(f) for f in fields]
class Enum(Prog):
    """idty: T or None with idctx expr; variants"""
    def __init__(s, name, idty, variants, **kw):
        super().__init__(name, kw)
        s.idty, s.variants = idty, list(variants)
        ctx = kw.get('ctx', [])
        allf = [f for v in variants for f in v.fields]
        s.fields_ = allf
        s.deps = ([idty] if idty is not None else []) + [f.ty for f in allf]
        disc = any('disc' in v.a for v in variants)
        L = []
        if disc or kw.get('repr'): L.append(f'#[repr({idty.rust})]')
        L += derive_line(allf, s.size, kw.get('hash'))
        o = []
        if idty is None: o.append('id = "%s"' % kw['idctx_rust'])
        else: o.append(f'id_type = "{idty.rust}"')
        if 'id_endian' in kw: o.append(f'id_endian = "{kw["id_endian"]}"')
        if 'bits' in kw: o.append(f'bits = {kw["bits"]}')
        if 'bytes' in kw: o.append(f'bytes = {kw["bytes"]}')
        ta = top_attrs(kw, ctx, o)
        L.append('#[deku(' + ', '.join(ta) + ')]')
        L.append(f'pub enum {name} {{')
        vs, tvs, fvs = [], [], []
        for n, v in enumerate(variants):
            va, m = [], []
            tuple_ = v.a.get('tuple', False)
            fn = (lambda i: f'field_{i}') if tuple_ else (lambda i: f'f{i}')
            env = mkenv(ctx, fn, True)
            if 'id' in v.a:
                k = v.a['id']
                va.append(f'id = {k}' if isinstance(k, int) and not isinstance(k, bool) else f'id = {str(k).lower()}' if isinstance(k, bool) else f'id = b"{bstr(k)}"' if isinstance(k, bytes) else f'id = "{k}"')
                num = v.a.get('num', int.from_bytes(k, 'big') if isinstance(k, bytes) else k if isinstance(k, int) else None)
                m.append(f'(lit {int(num)})'); m.append(f'(wid {int(num)})'); m.append(f'(did {int(num)})')
            if 'pat' in v.a:
                va.append(f'id_pat = "{v.a["pat"]}"')
                m.append(v.a['mat'])
                if v.fields and idty is not None: m.append('stores')
                if 'wid' in v.a: m.append(f'(wid {v.a["wid"]})')
            if 'disc' in v.a:
                if 'id' not in v.a and 'pat' not in v.a: m.append(f'(lit {v.a["disc"]})')
                if 'id' not in v.a: m.append(f'(wid {v.a["disc"]})')
            if v.a.get('default'): va.append('default'); m.append('default')
            if va: L.append('    #[deku(' + ', '.join(va) + ')]')
            d = f' = {v.a["disc"]}' if 'disc' in v.a and not v.a.get('implicit') else ''
            body = []
            for i, f in enumerate(v.fields):
                body += ['        ' + x for x in field_attrs(f, i, env, env, ctx)]
                body.append(f'        {f.ty.rust},' if tuple_ else f'        f{i}: {f.ty.rust},')
            if not v.fields and not v.a.get('braces'): L.append(f'    {v.name}{d},')
            elif tuple_: L += [f'    {v.name}('] + body + [f'    ){d},']
            else: L += [f'    {v.name} {{'] + body + [f'    }}{d},']
            keep = [i for i, f in enumerate(v.fields) if not (f.a.get('temp') or 'temp_value' in f.a)]
            acc = (lambda i, k: k) if tuple_ else (lambda i, k: f'f{i}')
            pat = '{ ' + ', '.join(f'{acc(i, k)}: b{k}' for k, i in enumerate(keep)) + ' }'
            tvs.append(f'{name}::{v.name} {pat} => Val::R({n}, vec![' + ', '.join(f'Dyn::to_val(b{k})' for k in range(len(keep))) + ']),')
            fvs.append(f'{n} => {name}::{v.name} {{ ' + ', '.join(f'{acc(i, k)}: Dyn::from_val(&l[{k}])' for k, i in enumerate(keep)) + ' },')
            vs.append('(v ' + ' '.join(m) + ' ' + ' '.join(field_sx(f, i) for i, f in enumerate(v.fields)) + ')')
        L.append('}')
        s.decl = L
        s.dyn = [f'impl Dyn for {name} {{ fn to_val(&self) -> Val {{ match self {{ ' + ' '.join(tvs) + ' } }',
                 '  fn from_val(v: &Val) -> Self { let Val::R(n, l) = v else { panic!() }; let _ = l; match n { ' + ' '.join(fvs) + ' _ => panic!() } } }']
        if idty is None: idsx = f'(idctx {Ex(kw["idctx"]).sx()})'
        else:
            x = ''
            if 'id_endian' in kw: x += f' (endian {kw["id_endian"]})'
            if 'bits' in kw: x += f' (bits {kw["bits"]})'
            if 'bytes' in kw: x += f' (bytes {kw["bytes"]})'
            idsx = f'(idty {idty.sx}{x})'
        s.sx = f'(rec {name} ' + ' '.join(top_sx(kw) + [f'(enum {idsx} ' + ' '.join(vs) + ')']) + ')'

def auto_tags(t, seen=None):
    """attributes used anywhere inside a program"""
    out = set()
    if isinstance(t, Prog):
        k = t.kw
        if k.get('seek'): out |= {'x:seek'} | ({'x:end'} if k['seek'][0] == 'end' else set())
        if k.get('magic'): out.add('x:magic')
        fields = t.fields_
        for f in fields:
            a = f.a
            if 'seek' in a: out |= {'x:seek'} | ({'x:end'} if a['seek'][0] == 'end' else set())
            if 'read_all' in a: out |= {'x:all'}
            if any(x.startswith('pad_') for x in a): out.add('x:pad')
            if 'order' in a or k.get('order') : out.add('x:order')
            if any(Ex(v).src.find('off') >= 0 for n, v in a.items() if isinstance(v, str) and n in ('count', 'cond', 'bytes_read', 'bits_read', 'bits', 'bytes')): out.add('x:off')
            if any(e in ('byteoff', 'bitoff') for e, _ in a.get('ctx', [])): out.add('x:off')
            for n in ('magic', 'temp', 'temp_value', 'update', 'cond', 'skip', 'assert_', 'assert_eq', 'map'):
                if n in a: out.add('x:' + n)
    if t.rust.startswith('std::collections::Hash'): out.add('x:unord')
    for d in t.deps: out |= auto_tags(d)
    return out
def feats(t):
    """optional library features a program needs"""
    r, out = t.rust, set()
    if any(x in r for x in ('HashMap', 'HashSet', 'CString')): out.add('std')
    if any(x in r for x in ('Vec<', 'Box<', 'Arc<', 'Rc<', 'Cow<')): out.add('alloc')
    if isinstance(t, Prog):
        k = t.kw
        if k.get('bits') or k.get('order') or any(ty.endswith('BitSize') or ty.endswith('Order') for _, ty in k.get('ctx', [])): out.add('bits')
        for f in t.fields_:
            a = f.a
            if any(x in a for x in ('bits', 'bits_read', 'order', 'pad_bits_before', 'pad_bits_after')): out.add('bits')
            if any(ty == 'od' for _, ty in a.get('ctx', [])): out.add('bits')
            if any(isinstance(v, str) and 'bitoff' in v for v in a.values()): out.add('bits')
            if any('bitoff' in str(e) or 'BitSize' in str(e) or 'Order' in str(e) for e, _ in a.get('ctx', [])): out.add('bits')
    for d in t.deps: out |= feats(d)
    if 'NonZero' in ' '.join([r] + [d.rust for d in t.deps]) and 'bits' in out: out.add('alloc') # their bit sizes need both
    return out
PRELUDE = '''// GENERATED by gen/ - do not edit
#[allow(unused_imports)]
use deku::prelude::*;
#[allow(unused_imports)]
use deku_mc::{dynv::Dyn, model::Val, drive::{Meta, Visitor}, sexp};
#[allow(dead_code)]
fn xor_read<R: deku::no_std_io::Read + deku::no_std_io::Seek>(reader: &mut deku::reader::Reader<R>) -> Result<u8, DekuError> {
    use deku::DekuReader;
    Ok(u8::from_reader_with_ctx(reader, ())? ^ 0x55)
}
#[allow(dead_code)]
fn xor_write<W: deku::no_std_io::Write + deku::no_std_io::Seek>(writer: &mut deku::writer::Writer<W>, v: &u8) -> Result<(), DekuError> {
    use deku::DekuWriter;
    (*v ^ 0x55).to_writer(writer, ())
}
'''
def emit(progs, sizes=False):
    out = [PRELUDE]; seen = {}; order = []; main = {}
    def visit(t):
        for d in t.deps: visit(d)
        if isinstance(t, Prog) and t.name not in seen: seen[t.name] = t; order.append(t)
        elif isinstance(t, Prog): assert seen[t.name] is t, f'duplicate {t.name}'
    for p in progs: visit(p)
    for p in order: out += p.decl + p.dyn + ['']
    out.append('#[allow(unused_variables)]\npub fn visit<V: Visitor>(v: &mut V) {')
    for p in order:
        p.tags = p.tags + sorted(auto_tags(p) - set(p.tags))
        if sizes is True and not p.size: continue
        if not p.main or (p.kw.get('ctx') and not p.kw.get('ctx_default')): continue
        decl = '\n'.join(p.decl)
        ids = 'None'
        if p.kw.get('idof'):
            k, ty = p.kw['idof']
            x = f'{p.name}::from_val(v)' + ('' if k is None else f'.f{k}')
            ids = f'Some(({"usize::MAX" if k is None else k}, |v: &Val| deku::DekuEnumExt::<\'_, {ty.rust}>::deku_id(&{x}).map(|q| Dyn::to_val(&q))))'
        tags = ', '.join(f'"{t}"' for t in p.tags)
        main[p.name] = (f'''    v.prog::<{p.name}>(Meta {{ name: "{p.name}", decl: r##"{decl}"##, rec: std::sync::Arc::new(sexp::rec(&sexp::parse("{p.sx}"))), sym: {str(p.sym).lower()}, maxlen: {p.maxlen}, hints: &{list(p.hints)}, tags: &[{tags}], id: {ids} }});''')
        out.append(main[p.name])
    out.append('}')
    if sizes is True:
        k = out.index('#[allow(unused_variables)]\npub fn visit<V: Visitor>(v: &mut V) {')
        out[k] = out[k].replace('V: Visitor', 'V: deku_mc::drive::SizeVisitor')
    if sizes == 'both':
        out.append('#[allow(unused_variables)]\npub fn visit_sizes<V: deku_mc::drive::SizeVisitor>(v: &mut V) {')
        out += [main[p.name] for p in order if p.size and p.name in main]
        out.append('}')
    return '\n'.join(out) + '\n'
