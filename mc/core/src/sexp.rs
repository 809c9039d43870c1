//! Textual form of model records (emitted by the generator next to each derived type).
use crate::model::*;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub enum S { A(String), Q(Vec<u8>), L(Vec<S>) }
impl S {
    fn atom(&self) -> &str { match self { S::A(a) => a, x => panic!("atom {x:?}") } }
    fn list(&self) -> &[S] { match self { S::L(l) => l, x => panic!("list {x:?}") } }
    fn head(&self) -> &str { match self { S::A(a) => a, S::L(l) => l[0].atom(), S::Q(_) => panic!() } }
    fn int(&self) -> i128 { self.atom().parse().or_else(|_| self.atom().parse::<u128>().map(|u| u as i128)).unwrap_or_else(|_| panic!("int {self:?}")) }
    fn us(&self) -> usize { self.int() as usize }
}
pub fn parse(s: &str) -> S {
    let mut st: Vec<Vec<S>> = vec![vec![]];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '(' => st.push(vec![]),
            ')' => { let l = st.pop().unwrap(); st.last_mut().unwrap().push(S::L(l)); }
            c if c.is_whitespace() => {}
            c => {
                let mut a = c.to_string();
                while let Some(n) = it.peek() { if n.is_whitespace() || *n == '(' || *n == ')' { break; } a.push(*n); it.next(); }
                let v = if let Some(h) = a.strip_prefix('#') { S::Q((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()) } else { S::A(a) };
                st.last_mut().unwrap().push(v);
            }
        }
    }
    assert_eq!(st.len(), 1, "unbalanced {s}");
    st.pop().unwrap().into_iter().next().unwrap()
}
pub fn expr(s: &S) -> E {
    if let S::A(a) = s {
        return match a.as_str() { "bitoff" => E::BitOff, "byteoff" => E::ByteOff, _ => E::C(s.int() as i64) };
    }
    let l = s.list();
    let b = |i: usize| Box::new(expr(&l[i]));
    match s.head() {
        "f" => E::F(l[1].us()), "len" => E::Len(l[1].us()), "sum" => E::Sum(l[1].us()), "x" => E::X(l[1].us()),
        "+" => E::Add(b(1), b(2)), "-" => E::Sub(b(1), b(2)), "*" => E::Mul(b(1), b(2)),
        "==" => E::Eq(b(1), b(2)), "!=" => E::Ne(b(1), b(2)), "<" => E::Lt(b(1), b(2)),
        "us" => E::Us(b(1)), "and" => E::And(b(1), b(2)), "&" => E::BitAnd(b(1), b(2)), "not" => E::Not(b(1)),
        h => panic!("expr {h}"),
    }
}
pub fn ty(s: &S) -> Ty {
    let l: &[S] = if let S::L(l) = s { l } else { &[] };
    let t = |i: usize| Box::new(ty(&l[i]));
    match s.head() {
        "u" => Ty::U(l[1].us() as u32), "i" => Ty::I(l[1].us() as u32), "f" => Ty::F(l[1].us() as u32),
        "bool" => Ty::Bool, "nzu" => Ty::NzU(l[1].us() as u32), "nzi" => Ty::NzI(l[1].us() as u32),
        "unit" => Ty::Unit, "cstr" => Ty::CStr, "arr" => Ty::Arr(t(1), l[2].us()),
        "tup" => Ty::Tup(l[1..].iter().map(ty).collect()), "opt" => Ty::Opt(t(1)), "vec" => Ty::Vec(t(1)),
        "set" => Ty::Set(t(1)), "map" => Ty::Map(t(1), t(2)), "wrap" => Ty::Wrap(t(1)),
        "rec" => Ty::Rec(Arc::new(rec(s))),
        h => panic!("ty {h}"),
    }
}
fn en(s: &S) -> EnSrc {
    match s { S::A(a) => match a.as_str() { "big" => EnSrc::Is(En::Big), "little" => EnSrc::Is(En::Little), _ => panic!() }, S::L(l) => EnSrc::Ctx(l[1].us()), _ => panic!() }
}
fn od(s: &S) -> OdSrc {
    match s { S::A(a) => match a.as_str() { "msb" => OdSrc::Is(Od::Msb), "lsb" => OdSrc::Is(Od::Lsb), _ => panic!() }, S::L(l) => OdSrc::Ctx(l[1].us()), _ => panic!() }
}
pub fn val(s: &S) -> Val {
    if let S::A(a) = s { return match a.as_str() { "unit" => Val::Unit, "none" => Val::O(None), "true" => Val::B(true), "false" => Val::B(false), _ => panic!("val {a}") }; }
    let l = s.list();
    match s.head() {
        "u" => Val::U(l[1].atom().parse().unwrap()), "i" => Val::I(l[1].int()),
        "some" => Val::O(Some(Box::new(val(&l[1])))), "l" => Val::L(l[1..].iter().map(val).collect()),
        "r" => Val::R(l[1].us() as u16, l[2..].iter().map(val).collect()),
        "s" => match &l[1] { S::Q(q) => Val::S(q.clone()), _ => panic!() },
        h => panic!("val {h}"),
    }
}
fn seek(s: &S) -> Seek {
    match s { S::A(_) => Seek::Rewind, S::L(l) => match l[0].atom() { "cur" => Seek::Cur(expr(&l[1])), "start" => Seek::Start(expr(&l[1])), "end" => Seek::End(expr(&l[1])), _ => panic!() }, _ => panic!() }
}
fn field(s: &S) -> Field {
    let l = s.list();
    assert_eq!(l[0].atom(), "fd");
    let mut f = Field {
        name: Box::leak(l[1].atom().to_string().into_boxed_str()), ty: ty(&l[2]), endian: EnSrc::None, order: OdSrc::None, bits: None, bytes: None, limit: None,
        cond: None, skip: None, default: None, pad_before: None, pad_after: None, seek: None, magic: vec![], assert: None, assert_eq: None,
        temp: false, temp_value: None, update: None, ctx: vec![], map: None,
    };
    for a in &l[3..] {
        let x: &[S] = if let S::L(l) = a { l } else { &[] };
        match a.head() {
            "endian" => f.endian = en(&x[1]), "order" => f.order = od(&x[1]),
            "bits" => f.bits = Some(expr(&x[1])), "bytes" => f.bytes = Some(expr(&x[1])),
            "count" => f.limit = Some(Limit::Count(expr(&x[1]))), "nbytes" => f.limit = Some(Limit::Bytes(expr(&x[1]))), "nbits" => f.limit = Some(Limit::Bits(expr(&x[1]))),
            "until" => f.limit = Some(Limit::Until(match x[1].atom() { "==" => Pred::NumEq(x[2].int() as i64), ">" => Pred::NumGt(x[2].int() as i64), _ => panic!() })),
            "all" => f.limit = Some(Limit::All),
            "cond" => f.cond = Some(expr(&x[1])),
            "skip" => f.skip = Some(match x[1].atom() { "all" => Skip::All, "read" => Skip::Read, "write" => Skip::Write, _ => panic!() }),
            "default" => f.default = Some(val(&x[1])),
            "padb" => f.pad_before = Some(expr(&x[1])), "pada" => f.pad_after = Some(expr(&x[1])),
            "seek" => f.seek = Some(seek(&x[1])),
            "magic" => f.magic = match &x[1] { S::Q(q) => q.clone(), _ => panic!() },
            "assert" => f.assert = Some(expr(&x[1])), "asserteq" => f.assert_eq = Some(expr(&x[1])),
            "temp" => f.temp = true, "tempv" => { f.temp = true; f.temp_value = Some(expr(&x[1])) }
            "update" => f.update = Some(expr(&x[1])),
            "ctx" => f.ctx = x[1..].iter().map(expr).collect(),
            "map" => f.map = Some(match x[1].atom() { "addone" => MapK::AddOne, "tostr" => MapK::ToStr, "fail" => MapK::Fail, "xor" => MapK::Xor, _ => panic!() }),
            h => panic!("field attr {h}"),
        }
    }
    f
}
pub fn rec(s: &S) -> Rec {
    let l = s.list();
    assert_eq!(l[0].atom(), "rec");
    let mut r = Rec { name: Box::leak(l[1].atom().to_string().into_boxed_str()), endian: EnSrc::None, order: OdSrc::None, magic: vec![], seek: None, ctx_default: vec![], kind: Kind::Struct(vec![]) };
    for a in &l[2..] {
        let x = a.list();
        match a.head() {
            "endian" => r.endian = en(&x[1]), "order" => r.order = od(&x[1]),
            "magic" => r.magic = match &x[1] { S::Q(q) => q.clone(), _ => panic!() },
            "seek" => r.seek = Some(seek(&x[1])),
            "ctxdefault" => r.ctx_default = x[1..].iter().map(|a| match a {
                S::A(s) => match s.as_str() { "big" => Arg::En(En::Big), "little" => Arg::En(En::Little), "msb" => Arg::Od(Od::Msb), "lsb" => Arg::Od(Od::Lsb), _ => Arg::N(a.int() as i64) },
                S::L(l) => match l[0].atom() { "bits" => Arg::Bits(l[1].int() as i64), "bytes" => Arg::Bytes(l[1].int() as i64), _ => panic!() },
                _ => panic!(),
            }).collect(),
            "struct" => r.kind = Kind::Struct(x[1..].iter().map(field).collect()),
            "enum" => {
                let i = x[1].list();
                let id = match i[0].atom() {
                    "idctx" => IdK::Ctx(expr(&i[1])),
                    "idty" => {
                        let (mut e, mut b, mut by, mut o) = (EnSrc::None, None, None, OdSrc::None);
                        for a in &i[2..] { let y = a.list(); match a.head() { "endian" => e = en(&y[1]), "bits" => b = Some(expr(&y[1])), "bytes" => by = Some(expr(&y[1])), "order" => o = od(&y[1]), _ => panic!() } }
                        IdK::Ty { ty: ty(&i[1]), endian: e, bits: b, bytes: by, order: o }
                    }
                    _ => panic!(),
                };
                let variants = x[2..].iter().map(|v| {
                    let v = v.list();
                    let mut o = Variant { mat: Mat::None_, stores: false, wid: None, did: None, default: false, fields: vec![] };
                    for a in &v[1..] {
                        let y: &[S] = if let S::L(l) = a { l } else { &[] };
                        match a.head() {
                            "lit" => { o.mat = Mat::Lit(y[1].int()); }
                            "range" => o.mat = Mat::Range(y[1].int(), y[2].int()),
                            "oneof" => o.mat = Mat::OneOf(y[1..].iter().map(|k| k.int()).collect()),
                            "any" => o.mat = Mat::Any,
                            "stores" => o.stores = true, "default" => o.default = true,
                            "wid" => o.wid = Some(y[1].int()), "did" => o.did = Some(y[1].int()),
                            "fd" => o.fields.push(field(a)),
                            h => panic!("variant {h}"),
                        }
                    }
                    o
                }).collect();
                r.kind = Kind::Enum { id, variants };
            }
            h => panic!("rec attr {h}"),
        }
    }
    r
}
