"""The same format written down differently: names, order and grouping of attributes, aliases, field form, macros, doc comments.
A styled program keeps the model record of the program it was made from."""
import re
from dsl import *
from prod import hash_

RAW = 'r#type r#match r#fn r#in r#if r#loop r#move r#ref r#mut r#struct r#enum r#use r#mod r#let r#for r#where r#as r#dyn'.split()
LIB = 'reader writer value rest input deku bits pad ret core std alloc id i e ctx endian res cursor total_len variant_id magic end buf inner'.split()
ODD = '_a __b c1 A B_ ZZ été Ωmega field_0 field_10 f x1y2 this_is_a_rather_long_name_for_a_field_of_a_format_description r w n _0 _1'.split()
CAP = 'u8 usize Result_ Vec Box Read Write Seek Reader Writer SeekFrom DekuError String Self_ Option_ Default bool_ str'.split()
CLOSE = 'a ra rra _a a_ A aa a1 a11 __deku_a deku_a r#a_ __a aA Aa a_1 ref_a a_ref'.split() # easily taken for one another
NAMES = [None, RAW, LIB, ODD, CAP, CLOSE]
TYNAMES = 'R W T E S Reader Writer Read Write Seek SeekFrom Cursor Endian Limit Order Error Option Vec String Result Box DekuError Default From Into Cow'.split()
VNAMES = ['Ok Err Some None'.split(), 'r#Type r#type r#fn A_'.split(), 'Self_ Error Vec String R W T'.split()]

def split_top(s):
    """comma separated list, commas inside strings and parentheses kept"""
    out, cur, d, q, i = [], '', 0, False, 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\': cur += s[i + 1]; i += 1
            elif c == '"': q = False
        elif c == '"': q = True; cur += c
        elif c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: d += c in '([{'; d -= c in ')]}'; cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

ATTR = re.compile(r'^(\s*)#\[deku\((.*)\)\]$')
FIELD = re.compile(r'^(\s+)(pub )?((?:r#)?\w+: )?([^#].*),$')
def words(s): return set(re.findall(r'\w+', s))

def attr_style(lines, how, temp):
    out = []
    for l in lines:
        m = ATTR.match(l)
        if not m: out.append(l); continue
        ind, items = m.group(1), split_top(m.group(2))
        if how & 8: # flags spelled out, numbers as strings, an explicit "no"
            items = [x + ' = true' if x in ('temp', 'read_all', 'seek_rewind', 'default') and not (x == 'default' and ind == '') else x for x in items]
            items = [re.sub(r'^(bits|bytes|id) = (-?\d+)$', r'\1 = "\2"', x) for x in items]
        if how & 1: items.reverse()
        if how & 2: # one attribute each, other attributes between them
            for k, x in enumerate(items): out += [f'{ind}/// line {k}: "{x[0]}"', f'{ind}#[deku({x},)]', f'{ind}#[allow(unused)]']
        elif how & 4 and not temp: out += [f'{ind}#[cfg_attr(all(), deku({", ".join(items)}), allow(dead_code))]']
        else: out.append(f'{ind}#[deku({", ".join(items)})]')
    return out

def rename_fields(lines, names, avoid):
    """f<i> -> names, skipping names that mean something in this declaration"""
    pool = [n for n in names if n.replace('r#', '') not in avoid]
    idx = sorted({int(x) for l in lines for x in re.findall(r'\bf(\d+)\b', l) if x not in ('32', '64')})
    if len(pool) < len(idx): return None
    mp = {i: pool[k] for k, i in enumerate(idx)}
    return lambda ls: [re.sub(r'(?<!\\)\bf(\d+)\b', lambda m: mp.get(int(m.group(1)), m.group(0)) if m.group(1) not in ('32', '64') else m.group(0), l) for l in ls]

def field_lines(p, lines):
    """indices of the lines that declare fields"""
    ind = 8 if isinstance(p, Enum) else 4
    out = []
    for k, l in enumerate(lines):
        if l.startswith(' ' * ind) and not l.startswith(' ' * (ind + 1)) and '#[' not in l and '///' not in l and l.endswith(',') and FIELD.match(l): out.append(k)
    return out

def flip(p):
    """named fields <-> tuple fields"""
    kw = dict(p.kw)
    if any(k in str(f.a) for f in p.fields_ for k in ("'map'",)): return None
    if isinstance(p, Struct):
        if kw.get('idof', [None])[0] is not None or not p.fields_: return None
        kw['tuple'] = not kw.get('tuple', False)
        return Struct(p.name, p.fields_, **kw)
    vs = []
    for v in p.variants:
        w = V(v.name, v.fields, **v.a)
        if v.fields: w.a['tuple'] = not v.a.get('tuple', False)
        vs.append(w)
    return Enum(p.name, p.idty, vs, **kw)

def styled(p, n, ren):
    """the n-th way of writing p: (module text, type name, shown declaration)"""
    h = lambda k, m: hash_(f'sty{k}.{n}', p.name) % m
    temp = uses_temp(p.fields_)
    q = p
    if h('flip', 3) == 0: q = flip(p) or p
    decl, dyn = list(q.decl), list(q.dyn)
    text = '\n'.join(decl)
    # ---- attributes
    decl = attr_style(decl, h('attr', 16), temp)
    pre = []
    # ---- aliases for field types
    if h('alias', 3) == 0:
        for k in field_lines(q, decl):
            m = FIELD.match(decl[k])
            pre.append(f'type Alias{k} = {m.group(4)};')
            decl[k] = f'{m.group(1)}{m.group(2) or ""}{m.group(3) or ""}Alias{k},'
    elif h('alias', 3) == 1: # without pub, no trailing comma after the last field
        fl = field_lines(q, decl)
        for k in fl: decl[k] = decl[k].replace('pub ', '', 1)
    # ---- field names
    names = NAMES[h('names', len(NAMES))]
    if names and not re.search(r'\bv\.f\d', text): # a predicate over a nested program's field
        f = rename_fields(decl, names, words(text))
        if f: decl, dyn = f(decl), f(dyn)
    # ---- variant names
    if isinstance(q, Enum) and h('vn', 2) == 0:
        vn = [v.name for v in q.variants]
        pool = [x for x in VNAMES[h('vns', len(VNAMES))] if x not in vn]
        mp = dict(zip(vn, pool))
        for a, b in mp.items():
            decl = [re.sub(rf'^(    ){a}\b', rf'\g<1>{b}', l) for l in decl]
            dyn = [re.sub(rf'\b{q.name}::{a}\b', f'{q.name}::{b}', l) for l in dyn]
    # ---- type name
    name = q.name
    if h('tn', 2) == 0:
        c = TYNAMES[h('tns', len(TYNAMES))]
        if c not in words('\n'.join(decl + dyn + pre)): 
            decl = [re.sub(rf'\b{name}\b', c, l) for l in decl]; dyn = [re.sub(rf'\b{name}\b', c, l) for l in dyn]; name = c
    # ---- methods of the same names as the library's
    if h('meth', 3) == 0:
        pre += [f'impl {name} {{'] + [f'    pub fn {m}(&self) -> u8 {{ 0 }}' for m in 'to_bits to_bytes to_slice to_writer update deku_id into'.split()]
        pre += [f'    pub fn {m}() -> u8 {{ 0 }}' for m in 'from_bytes from_reader try_from new'.split()] + ['    pub const SIZE_BITS: u8 = 1;', '    pub const SIZE_BYTES: u8 = 1;', '}']
    # ---- a field's type, or an array length, as a parameter of the type
    inst = name
    if h('gen', 3) == 0 and not any('cfg_attr' in l for l in decl):
        decl, inst = generic(q, decl, name, h('gen2', 2), h('gen3', 5))
        dyn = [l.replace(f'impl Dyn for {name} ', f'impl Dyn for {inst} ') for l in dyn]
        pre = [l.replace(f'impl {name} {{', f'impl {inst} {{') for l in pre]
        if inst != name: return [crate(l, ren) for l in pre + decl], dyn, inst.replace('<', '::<')
    # ---- the whole declaration from a macro, everything the user writes passed as a fragment
    if h('mac', 3) == 0 and not temp and not any('cfg_attr' in l for l in decl): decl = macro(q, decl, name)
    decl = [crate(l, ren) for l in decl]; pre = [crate(l, ren) for l in pre]
    if pre or decl != p.decl or name != p.name: return pre + decl, dyn, name
    return decl, dyn, name

def crate(l, ren): return re.sub(r'\bdeku::(?!reader\b|writer\b|bit_offset\b|byte_offset\b)', ren + '::', l) if ren != 'deku' else l

def generic(q, decl, name, where, pick):
    """the first field types no attribute says anything about become parameters"""
    plainsx = not ('id_pat' in ' '.join(decl) or q.kw.get('endian') or q.kw.get('order') or q.kw.get('ctx')) # the context such a field is given is ()
    ps, inst, out, bare = [], [], list(decl), True
    for k in field_lines(q, decl):
        m = FIELD.match(decl[k])
        prev = decl[k - 1].strip() if k else ''
        attr = prev.startswith('#[')
        a = re.match(r'^\[(u8|u16|bool); (\d+)\]$', m.group(4))
        if a and len(ps) <= pick:
            ps.append((f'const N{len(ps)}: usize', '')); inst.append(a.group(2))
            out[k] = f'{m.group(1)}{m.group(2) or ""}{m.group(3) or ""}[{a.group(1)}; N{len(ps) - 1}],'
        elif plainsx and not attr and re.match(r'^[ui](8|16|32|64)$', m.group(4)) and not re.search(rf'\b{(m.group(3) or "")[:-2] or "field_"}\b' if m.group(3) else 'field_|self', ' '.join(l for l in decl if '"' in l)) and len(ps) <= pick:
            ps.append((f'G{len(ps)}', f"G{len(ps)}: for<'q> DekuReader<'q> + DekuWriter")); inst.append(m.group(4))
            out[k] = f'{m.group(1)}{m.group(2) or ""}{m.group(3) or ""}G{len(ps) - 1},'
    if not ps: return decl, name
    wh = [w for _, w in ps if w]
    params = ', '.join(p for p, _ in ps) if where or not wh else ', '.join(w or p for p, w in ps)
    cl = ' where ' + ', '.join(wh) if where and wh else ''
    for j, l in enumerate(out):
        if re.match(rf'^pub (struct|enum) {name}\b', l):
            tup = l.endswith('(')
            out[j] = re.sub(rf'{name}\b', f'{name}<{params}>', l) if tup else re.sub(rf'{name}\b', f'{name}<{params}>{cl}', l)
            if tup: out[-1] = out[-1].replace(');', ')' + cl + ';')
    # parameters are declared lifetimes, types, consts in any order
    return out, f'{name}<{", ".join(inst)}>'

def macro(q, decl, name):
    """macro hygiene: expressions and the fields they mention come from the same place, so field names are only passed in
    when nothing mentions them"""
    args, body = [], []
    def arg(kind, text):
        for a, (kd, tx) in enumerate(args):
            if (kd, tx) == (kind, text): return f'$a{a}'
        args.append((kind, text)); return f'$a{len(args) - 1}'
    fl = set(field_lines(q, decl))
    plain = any(re.search(r'\b(f(ield_)?\d+|self|[a-z]\w*\(|\|)', x.split('"', 1)[1]) or '*' in x for l in decl if ATTR.match(l) for x in split_top(ATTR.match(l).group(2)) if '"' in x and ' = b"' not in x)
    for j, l in enumerate(decl):
        m = ATTR.match(l)
        if m:
            items = []
            for x in split_top(m.group(2)):
                y = re.match(r'^(\w+) = (.*)$', x)
                items.append(f'{y.group(1)} = {arg("literal", y.group(2))}' if y and re.match(r'^(-?\d+|"-?\d+"|b".*"|"(big|little|msb|lsb)")$', y.group(2)) else x)
            body.append(f'{m.group(1)}#[deku({", ".join(items)})]')
        elif j in fl:
            m = FIELD.match(l)
            n = (m.group(3) if plain else arg('ident', m.group(3)[:-2]) + ': ') if m.group(3) else ''
            body.append(f'{m.group(1)}{m.group(2) or ""}{n}{arg("ty", m.group(4))},')
        else: body.append(re.sub(rf'^pub (struct|enum) {name}\b', lambda m: f'pub {m.group(1)} {arg("ident", name)}', l))
    pat = ', '.join(f'$a{i}:{kd}' for i, (kd, _) in enumerate(args))
    return [f'macro_rules! declare {{ ({pat}) => {{'] + body + ['} }', 'declare!(' + ', '.join(t for _, t in args) + ');']

def emit_styled(progs, per, ren, prelude):
    """progs: list of programs; per: how many ways each"""
    out = [prelude.replace('deku::', ren + '::').replace(f'use {ren}::prelude', f'use {ren}::prelude')]
    seen, order = {}, []
    def visit(t, top):
        for d in t.deps: visit(d, False)
        if isinstance(t, Prog) and t.name not in seen and not top: seen[t.name] = t; order.append(t)
    for p in progs: visit(p, True)
    for p in order: out += [crate(l, ren) for l in p.decl] + p.dyn + ['']
    calls = {'v': [], 's': []}
    for p in progs:
        p.tags = p.tags + sorted(auto_tags(p) - set(p.tags))
        for n in range(per):
            decl, dyn, name = styled(p, n, ren)
            mod = f's{n}_{p.name}'
            out += [f'pub mod {mod} {{', 'use super::*;'] + decl + [d.replace('deku::', ren + '::') for d in dyn] + ['}']
            show = '\n'.join(decl)
            tags = ', '.join(f'"{t}"' for t in p.tags)
            call = f'    v.prog::<{mod}::{name}>(Meta {{ name: "{mod}", decl: r###"{show}"###, rec: std::sync::Arc::new(sexp::rec(&sexp::parse("{p.sx}"))), sym: {str(p.sym).lower()}, maxlen: {p.maxlen}, hints: &{list(p.hints)}, tags: &[{tags}], id: None }});'
            calls['v'].append(call)
            if p.size: calls['s'].append(call)
    out += ['#[allow(unused_variables)]', 'pub fn visit<V: Visitor>(v: &mut V) {'] + calls['v'] + ['}']
    out += ['#[allow(unused_variables)]', 'pub fn visit_sizes<V: deku_mc::drive::SizeVisitor>(v: &mut V) {'] + calls['s'] + ['}']
    return '\n'.join(out) + '\n'
