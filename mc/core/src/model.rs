//! Reference model: a small, independent interpreter of deku formats.
//!
//! The reader is a cursor over an immutable bit string: the stream of bytes plus a
//! *window* of not-yet-consumed bits of the current byte.  Msb0 requests take bits
//! from the top of the window, Lsb0 requests from the bottom.  The writer is the
//! dual machine.  Nothing here is derived from deku's own code.
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum En { Little, Big }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Od { Msb, Lsb }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    U(u128),
    I(i128),
    B(bool),
    L(Vec<Val>),
    R(u16, Vec<Val>),
    O(Option<Box<Val>>),
    S(Vec<u8>),
    Unit,
}
impl Val {
    pub fn num(&self) -> i128 {
        match self {
            Val::U(u) => *u as i128,
            Val::I(i) => *i,
            Val::B(b) => *b as i128,
            Val::O(Some(v)) => v.num(),
            // number of a record used in an expression: its first field
            Val::R(_, f) => f.first().map_or(0, |v| v.num()),
            Val::L(f) => f.first().map_or(0, |v| v.num()),
            _ => 0,
        }
    }
    pub fn len(&self) -> usize {
        match self { Val::L(v) => v.len(), Val::S(v) => v.len(), _ => 0 }
    }
}

/// Error classes (payloads are not modelled).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Er { Incomplete, Parse, InvalidParam, Assertion, IdNotFound, Io, Other, /// model declines to predict
    Unspec }

// ---------------------------------------------------------------- expressions
#[derive(Clone, Debug)]
pub enum E {
    C(i64),
    /// field of the current record
    F(usize),
    Len(usize),
    /// integer ctx argument
    X(usize),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Eq(Box<E>, Box<E>),
    Ne(Box<E>, Box<E>),
    Lt(Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Not(Box<E>),
    BitAnd(Box<E>, Box<E>),
    BitOff,
    ByteOff,
    /// `(expr as i64) as usize`
    Us(Box<E>),
    /// sum of a list field
    Sum(usize),
}

#[derive(Clone, Debug)]
pub enum Ty {
    U(u32), I(u32), F(u32),
    Bool, NzU(u32), NzI(u32), Unit, CStr,
    Arr(Box<Ty>, usize), Tup(Vec<Ty>), Opt(Box<Ty>), Vec(Box<Ty>),
    Set(Box<Ty>), Map(Box<Ty>, Box<Ty>), Wrap(Box<Ty>),
    Rec(Arc<Rec>),
}
#[derive(Clone, Debug)]
pub enum EnSrc { None, Is(En), Ctx(usize) }
#[derive(Clone, Debug)]
pub enum OdSrc { None, Is(Od), Ctx(usize) }
#[derive(Clone, Debug)]
pub enum Limit { Count(E), Bytes(E), Bits(E), Until(Pred), All }
#[derive(Clone, Debug)]
pub enum Pred { NumEq(i64), NumGt(i64) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Skip { All, Read, Write }
#[derive(Clone, Debug)]
pub enum Seek { Cur(E), Start(E), End(E), Rewind }
/// resolved seek
#[derive(Clone, Copy, Debug)]
pub enum Sk { Cur(i128), Start(i128), End(i128) }
impl Sk {
    /// the amount does not fit the type of a seek offset
    fn invalid(self) -> bool { match self { Sk::Cur(d) | Sk::End(d) => i64::try_from(d).is_err(), Sk::Start(p) => u64::try_from(p).is_err() } }
}
pub fn sk(s: &Seek, env: &Env) -> Sk { match s { Seek::Cur(e) => Sk::Cur(ev(e, env)), Seek::Start(e) => Sk::Start(ev(e, env)), Seek::End(e) => Sk::End(ev(e, env)), Seek::Rewind => Sk::Start(0) } }
/// `map`/`reader`/`writer` user hooks used by the zoo
#[derive(Clone, Debug)]
pub enum MapK { AddOne, ToStr, Fail, /// custom reader/writer pair
    Xor }

#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub endian: EnSrc,
    pub order: OdSrc,
    pub bits: Option<E>,
    pub bytes: Option<E>,
    pub limit: Option<Limit>,
    pub cond: Option<E>,
    pub skip: Option<Skip>,
    pub default: Option<Val>,
    pub pad_before: Option<E>, // bits
    pub pad_after: Option<E>,
    pub seek: Option<Seek>,
    pub magic: Vec<u8>,
    pub assert: Option<E>,
    pub assert_eq: Option<E>,
    pub temp: bool,
    pub temp_value: Option<E>,
    pub update: Option<E>,
    pub ctx: Vec<E>,
    pub map: Option<MapK>,
}
#[derive(Clone, Debug)]
pub enum Mat { Lit(i128), Range(i128, i128), Any, OneOf(Vec<i128>) , None_}
#[derive(Clone, Debug)]
pub struct Variant {
    pub mat: Mat,
    /// first field stores the id (id_pat with a field and own id)
    pub stores: bool,
    /// id written when the variant does not store it
    pub wid: Option<i128>,
    /// id reported by deku_id()
    pub did: Option<i128>,
    pub default: bool,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Vec<Field>),
    Enum { id: IdK, variants: Vec<Variant> },
}
#[derive(Clone, Debug)]
pub enum IdK {
    /// id expression over ctx
    Ctx(E),
    /// id type with its own args
    Ty { ty: Ty, endian: EnSrc, bits: Option<E>, bytes: Option<E>, order: OdSrc },
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub name: &'static str,
    pub endian: EnSrc,
    pub order: OdSrc,
    pub magic: Vec<u8>,
    pub seek: Option<Seek>,
    /// ctx_default used when called with ()
    pub ctx_default: Vec<Arg>,
    pub kind: Kind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg { En(En), Bits(i64), Bytes(i64), Od(Od), N(i64) }

#[derive(Clone, Debug, Default)]
pub struct Args { pub endian: Option<En>, pub bits: Option<i64>, pub bytes: Option<i64>, pub order: Option<Od>, pub ctx: Vec<i64> }
impl Args {
    fn list(&self) -> Vec<Arg> {
        let mut v = vec![];
        if let Some(e) = self.endian { v.push(Arg::En(e)); }
        if let Some(e) = self.bits { v.push(Arg::Bits(e)); }
        if let Some(e) = self.bytes { v.push(Arg::Bytes(e)); }
        if let Some(e) = self.order { v.push(Arg::Od(e)); }
        v.extend(self.ctx.iter().map(|c| Arg::N(*c)));
        v
    }
}

pub struct Env<'a> { pub fields: &'a [Val], pub ctx: &'a [Arg], pub bitpos: usize }
pub fn ev(e: &E, v: &Env) -> i128 {
    let b = |a: &E, c: &E| (ev(a, v), ev(c, v));
    match e {
        E::C(c) => *c as i128,
        E::F(i) => match &v.fields[*i] { Val::U(x) => i128::try_from(*x).unwrap_or(i128::MAX - (u64::MAX - *x as u64) as i128), x => x.num() },
        E::Len(i) => v.fields[*i].len() as i128,
        E::Sum(i) => match &v.fields[*i] { Val::L(l) => l.iter().map(|x| x.num()).sum(), _ => 0 },
        E::X(i) => match v.ctx[*i] { Arg::N(n) | Arg::Bits(n) | Arg::Bytes(n) => n as i128, _ => 0 },
        E::Us(a) => ev(a, v) as i64 as u64 as i128,
        E::Add(a, c) => { let (x, y) = b(a, c); x.saturating_add(y) }
        E::Sub(a, c) => { let (x, y) = b(a, c); x.saturating_sub(y) }
        E::Mul(a, c) => { let (x, y) = b(a, c); x.saturating_mul(y) }
        E::Eq(a, c) => { let (x, y) = b(a, c); (x == y) as i128 }
        E::Ne(a, c) => { let (x, y) = b(a, c); (x != y) as i128 }
        E::Lt(a, c) => { let (x, y) = b(a, c); (x < y) as i128 }
        E::And(a, c) => { let (x, y) = b(a, c); (x != 0 && y != 0) as i128 }
        E::BitAnd(a, c) => { let (x, y) = b(a, c); x & y }
        E::Not(a) => (ev(a, v) == 0) as i128,
        E::BitOff => v.bitpos as i128,
        E::ByteOff => (v.bitpos / 8) as i128,
    }
}
pub fn mask(n: usize) -> u128 { if n >= 128 { u128::MAX } else { (1u128 << n) - 1 } }

// ---------------------------------------------------------------- reader cursor
/// Cursor: `pos` = next byte not yet fetched, window = bits `lo..hi` of the byte before it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rd<'a> { pub data: &'a [u8], pub pos: usize, pub cur: u8, pub lo: u8, pub hi: u8, pub steps: u64, /// the stream refuses every seek that moves
    pub fixed: bool }
impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8]) -> Self { Rd { data, pos: 0, cur: 0, lo: 0, hi: 0, steps: 0, fixed: false } }
    pub fn win(&self) -> usize { (self.hi - self.lo) as usize }
    pub fn bitpos(&self) -> usize { self.pos.saturating_mul(8) - self.win() }
    pub fn avail(&self) -> usize { self.win() + self.data.len().saturating_sub(self.pos) * 8 }
    pub fn end(&self) -> bool { self.avail() == 0 }
    /// n <= 128 bits.  Msb: first bit taken is the most significant of the result.
    /// Lsb: first bit taken is the least significant.
    pub fn take(&mut self, n: usize, od: Od) -> Result<u128, Er> {
        if self.avail() < n { return Err(Er::Incomplete); }
        self.steps += 1;
        let mut r = 0u128;
        for i in 0..n {
            if self.win() == 0 { self.cur = self.data[self.pos]; self.pos += 1; self.lo = 0; self.hi = 8; }
            match od {
                Od::Msb => { self.hi -= 1; r = (r << 1) | ((self.cur >> self.hi) & 1) as u128; }
                Od::Lsb => { r |= (((self.cur >> self.lo) & 1) as u128) << i; self.lo += 1; }
            }
        }
        Ok(r)
    }
    pub fn skip(&mut self, mut n: usize, od: Od) -> Result<(), Er> {
        self.steps += 1;
        let k = n.min(self.win());
        self.take(k, od)?;
        n -= k;
        if self.fixed && n >= 8 { return Err(Er::Io); }
        self.pos = self.pos.saturating_add(n / 8); // padding may be skipped past the end
        self.take(n % 8, od)?;
        Ok(())
    }
    pub fn seek(&mut self, s: Sk) -> Result<(), Er> {
        self.steps += 1;
        if s.invalid() { return Err(Er::Parse); }
        self.lo = 0; self.hi = 0;
        if self.fixed { match s { Sk::Cur(0) => return Ok(()), Sk::Start(p) if p == self.pos as i128 => return Ok(()), _ => return Err(Er::Io) } }
        let p = match s {
            Sk::Cur(d) => self.pos as i128 + d,
            Sk::Start(p) => p,
            Sk::End(d) => self.data.len() as i128 + d,
        };
        if p < 0 || p > u64::MAX as i128 { return Err(Er::Io); }
        self.pos = p as usize;
        Ok(())
    }
    pub fn rest_bits(&self) -> Vec<bool> { (self.lo..self.hi).rev().map(|b| (self.cur >> b) & 1 == 1).collect() }
}
/// documented meaning of an `n` bit raw number
pub fn decode(r: u128, n: usize, en: En, od: Od) -> u128 {
    let k = n.div_ceil(8);
    match (en, od) {
        (En::Big, Od::Msb) | (En::Little, Od::Lsb) => r,
        (En::Little, Od::Msb) => {
            let mut v = 0u128; let mut left = n;
            for i in 0..k { let t = left.min(8); left -= t; v |= ((r >> left) & mask(t)) << (8 * i); }
            v
        }
        (En::Big, Od::Lsb) => {
            let mut v = 0u128;
            for i in 0..k { let b = (r >> (8 * i)) & 0xff; v |= b << (8 * (k - 1 - i)); }
            v
        }
    }
}
/// inverse of `decode`
pub fn encode(v: u128, n: usize, en: En, od: Od) -> u128 {
    let k = n.div_ceil(8);
    match (en, od) {
        (En::Big, Od::Msb) | (En::Little, Od::Lsb) => v,
        (En::Little, Od::Msb) => {
            let mut r = 0u128; let mut left = n;
            for i in 0..k { let t = left.min(8); left -= t; r |= ((v >> (8 * i)) & mask(t)) << left; }
            r
        }
        (En::Big, Od::Lsb) => {
            let mut r = 0u128;
            for i in 0..k { r |= ((v >> (8 * (k - 1 - i))) & 0xff) << (8 * i); }
            r
        }
    }
}
pub fn sext(v: u128, n: usize) -> i128 {
    if n == 0 { return 0; }
    if n >= 128 { return v as i128; }
    let v = v & mask(n);
    if v >> (n - 1) & 1 == 1 { (v | !mask(n)) as i128 } else { v as i128 }
}

/// `u8` is documented to ignore the `bytes` attribute
fn odd_u8(w: u32, a: &Args) -> bool { w == 8 && a.bits.is_none() && a.bytes.is_some_and(|b| b != 1) }
fn size_of(ty_w: u32, a: &Args) -> Result<usize, ()> {
    let w = ty_w as i64;
    let n = if let Some(b) = a.bits { b } else if let Some(b) = a.bytes { b.saturating_mul(8) } else { w };
    if n > w || n < 0 { Err(()) } else { Ok(n as usize) }
}
fn read_num(w: u32, a: &Args, rd: &mut Rd) -> Result<(u128, usize), Er> {
    if odd_u8(w, a) { return Err(Er::Unspec); }
    let n = size_of(w, a).map_err(|_| Er::Parse)?;
    let (en, od) = (a.endian.unwrap_or(En::Little), a.order.unwrap_or(Od::Msb));
    let r = rd.take(n, od)?;
    Ok((decode(r, n, en, od), n))
}

pub fn read(ty: &Ty, a: &Args, limit: Option<(&Limit, &Env)>, rd: &mut Rd) -> Result<Val, Er> {
    match ty {
        Ty::U(w) | Ty::F(w) => Ok(Val::U(read_num(*w, a, rd)?.0)),
        Ty::I(w) => {
            let (v, n) = read_num(*w, a, rd)?;
            Ok(Val::I(sext(v, n)))
        }
        Ty::NzU(w) => { let v = read_num(*w, a, rd)?.0; if v == 0 { Err(Er::Parse) } else { Ok(Val::U(v)) } }
        Ty::NzI(w) => { let (v, n) = read_num(*w, a, rd)?; let v = sext(v, n); if v == 0 { Err(Er::Parse) } else { Ok(Val::I(v)) } }
        Ty::Bool => match read_num(8, a, rd)?.0 { 0 => Ok(Val::B(false)), 1 => Ok(Val::B(true)), _ => Err(Er::Parse) },
        Ty::Unit => Ok(Val::Unit),
        Ty::CStr => {
            let mut s = vec![];
            if let Some(n) = a.bytes {
                for _ in 0..n as u64 { s.push(rd.take(8, Od::Msb)? as u8); }
            } else {
                loop { let b = rd.take(8, Od::Msb)? as u8; s.push(b); if b == 0 { break; } }
            }
            // must contain exactly one nul, at the end
            if s.iter().position(|b| *b == 0) != s.len().checked_sub(1) || s.is_empty() { return Err(Er::Parse); }
            s.pop();
            Ok(Val::S(s))
        }
        Ty::Arr(t, n) => { let mut v = vec![]; for _ in 0..*n { v.push(read(t, a, None, rd)?); } Ok(Val::L(v)) }
        Ty::Tup(ts) => { let mut v = vec![]; for t in ts { v.push(read(t, a, None, rd)?); } Ok(Val::L(v)) }
        Ty::Opt(t) => Ok(Val::O(Some(Box::new(read(t, a, limit, rd)?)))),
        Ty::Wrap(t) => read(t, a, limit, rd),
        Ty::Vec(t) | Ty::Set(t) => {
            let mut v = read_list(t, a, limit, rd)?;
            if matches!(ty, Ty::Set(_)) { v.sort(); v.dedup(); }
            Ok(Val::L(v))
        }
        Ty::Map(k, x) => {
            let v = read_list(&Ty::Tup(vec![(**k).clone(), (**x).clone()]), a, limit, rd)?;
            let mut m = std::collections::BTreeMap::new();
            for e in v { if let Val::L(kv) = e { m.insert(kv[0].clone(), kv[1].clone()); } }
            Ok(Val::L(m.into_iter().map(|(k, v)| Val::L(vec![k, v])).collect()))
        }
        Ty::Rec(r) => read_rec(r, &a.list(), rd),
    }
}
pub fn is_zst(t: &Ty) -> bool {
    match t {
        Ty::Unit => true,
        Ty::Arr(t, n) => *n == 0 || is_zst(t),
        Ty::Tup(ts) => ts.iter().all(is_zst),
        Ty::Wrap(_) => false,
        Ty::Rec(r) => match &r.kind { Kind::Struct(f) => f.iter().all(|f| f.temp || is_zst(&f.ty)), Kind::Enum { variants, .. } => variants.len() == 1 && variants[0].fields.iter().all(|f| is_zst(&f.ty)) },
        _ => false,
    }
}
fn read_list(t: &Ty, a: &Args, limit: Option<(&Limit, &Env)>, rd: &mut Rd) -> Result<Vec<Val>, Er> {
    let (lim, env) = limit.expect("limit");
    let mut out = vec![];
    let start = rd.bitpos();
    if let Limit::Count(e) | Limit::Bytes(e) | Limit::Bits(e) = lim {
        let n = ev(e, env);
        if n < 0 || n > u64::MAX as i128 { return Err(Er::Parse); }
    }
    if is_zst(t) { return Ok(out); }
    match lim {
        Limit::Count(e) => {
            let n = ev(e, env);
            for _ in 0..n { out.push(read(t, a, None, rd)?); }
        }
        Limit::Bytes(e) | Limit::Bits(e) => {
            let mut n = ev(e, env);
            if matches!(lim, Limit::Bytes(_)) { n *= 8; }
            if n == 0 { return Ok(out); }
            loop {
                out.push(read(t, a, None, rd)?);
                if rd.bitpos() as i128 - start as i128 == n { break; }
            }
        }
        Limit::Until(p) => loop {
            let v = read(t, a, None, rd)?;
            let x = v.num();
            out.push(v);
            if match p { Pred::NumEq(k) => x == *k as i128, Pred::NumGt(k) => x > *k as i128 } { break; }
        },
        Limit::All => while !rd.end() {
            out.push(read(t, a, None, rd)?);
        },
    }
    Ok(out)
}
fn ens(s: &EnSrc, ctx: &[Arg]) -> Option<En> { match s { EnSrc::None => None, EnSrc::Is(e) => Some(*e), EnSrc::Ctx(i) => match ctx[*i] { Arg::En(e) => Some(e), _ => panic!("ctx endian") } } }
fn ods(s: &OdSrc, ctx: &[Arg]) -> Option<Od> { match s { OdSrc::None => None, OdSrc::Is(e) => Some(*e), OdSrc::Ctx(i) => match ctx[*i] { Arg::Od(e) => Some(e), _ => panic!("ctx order") } } }
fn read_magic(m: &[u8], rd: &mut Rd) -> Result<(), Er> {
    for b in m { if rd.take(8, Od::Msb)? as u8 != *b { return Err(Er::Parse); } }
    Ok(())
}
fn fargs(f: &Field, r: &Rec, env: &Env) -> Args {
    let endian = ens(&f.endian, env.ctx).or_else(|| ens(&r.endian, env.ctx));
    let order = ods(&f.order, env.ctx).or_else(|| ods(&r.order, env.ctx));
    Args {
        endian, order,
        bits: f.bits.as_ref().map(|e| ev(e, env) as i64),
        bytes: f.bytes.as_ref().map(|e| ev(e, env) as i64),
        ctx: f.ctx.iter().map(|e| ev(e, env) as i64).collect(),
    }
}
fn ford(f: &Field, r: &Rec, ctx: &[Arg]) -> Od { ods(&f.order, ctx).or_else(|| ods(&r.order, ctx)).unwrap_or(Od::Msb) }

/// an id as one number: byte arrays big endian, unit variants of an enum by position
pub fn idnum(v: &Val) -> i128 {
    match v { Val::L(l) => l.iter().fold(0, |a, b| a << 8 | b.num()), Val::R(i, f) if f.is_empty() => *i as i128, v => v.num() }
}
pub fn idval(ty: &Ty, id: i128) -> Val {
    match ty {
        Ty::I(_) => Val::I(id), Ty::Bool => Val::B(id != 0),
        Ty::Arr(_, n) => Val::L((0..*n).rev().map(|i| Val::U((id >> (8 * i)) as u128 & 0xff)).collect()),
        Ty::Rec(_) => Val::R(id as u16, vec![]),
        _ => Val::U(id as u128),
    }
}
pub fn read_rec(r: &Rec, ctx: &[Arg], rd: &mut Rd) -> Result<Val, Er> {
    let ctx = if ctx.is_empty() { &r.ctx_default[..] } else { ctx };
    if let (Some(s), Kind::Struct(_)) = (&r.seek, &r.kind) { rd.seek(sk(s, &Env { fields: &[], ctx, bitpos: rd.bitpos() }))?; }
    read_magic(&r.magic, rd)?;
    match &r.kind {
        Kind::Struct(fs) => {
            let v = read_fields(fs, r, ctx, rd, None)?;
            Ok(Val::R(0, v))
        }
        Kind::Enum { id, variants } => {
            let (idv, idval) = match id {
                IdK::Ctx(e) => { let x = ev(e, &Env { fields: &[], ctx, bitpos: 0 }); (x, None) }
                IdK::Ty { ty, endian, bits, bytes, order } => {
                    let env = Env { fields: &[], ctx, bitpos: rd.bitpos() };
                    let a = Args {
                        endian: ens(endian, ctx).or_else(|| ens(&r.endian, ctx)),
                        bits: bits.as_ref().map(|e| ev(e, &env) as i64),
                        bytes: bytes.as_ref().map(|e| ev(e, &env) as i64),
                        order: ods(order, ctx).or_else(|| ods(&r.order, ctx)),
                        ctx: vec![],
                    };
                    let v = read(ty, &a, None, rd)?;
                    (idnum(&v), Some(v))
                }
            };
            let hit = variants.iter().position(|v| match &v.mat {
                Mat::Lit(k) => *k == idv,
                Mat::Range(a, b) => *a <= idv && idv <= *b,
                Mat::OneOf(l) => l.contains(&idv),
                Mat::Any => true,
                Mat::None_ => false,
            }).or_else(|| variants.iter().position(|v| v.default));
            let Some(i) = hit else { return Err(Er::Parse) };
            let v = &variants[i];
            let f = read_fields(&v.fields, r, ctx, rd, if v.stores { idval } else { None })?;
            Ok(Val::R(i as u16, f))
        }
    }
}
fn strip_temp(fs: &[Field], all: Vec<Val>) -> Vec<Val> {
    all.into_iter().zip(fs).filter(|(_, f)| !f.temp).map(|(v, _)| v).collect()
}
fn read_fields(fs: &[Field], r: &Rec, ctx: &[Arg], rd: &mut Rd, first: Option<Val>) -> Result<Vec<Val>, Er> {
    let mut vals: Vec<Val> = vec![];
    for (i, f) in fs.iter().enumerate() {
        if i == 0 { if let Some(v) = &first { vals.push(v.clone()); continue; } }
        let od = ford(f, r, ctx);
        if let Some(s) = &f.seek { rd.seek(sk(s, &Env { fields: &vals, ctx, bitpos: rd.bitpos() }))?; }
        read_magic(&f.magic, rd)?;
        if let Some(p) = &f.pad_before { let n = ev(p, &Env { fields: &vals, ctx, bitpos: rd.bitpos() }); if n < 0 || n > u64::MAX as i128 { return Err(Er::InvalidParam) } rd.skip(n as usize, od)?; }
        let bp = rd.bitpos();
        let v = {
            let env = Env { fields: &vals, ctx, bitpos: bp };
            let c = f.cond.as_ref().map(|c| ev(c, &env) != 0);
            let skipped = match (f.skip, c) {
                (Some(Skip::All) | Some(Skip::Read), Some(c)) => c,
                (Some(Skip::All) | Some(Skip::Read), None) => true,
                (Some(Skip::Write), _) => false,
                (None, Some(c)) => !c,
                (None, None) => false,
            };
            if skipped { f.default.clone().unwrap_or_else(|| zero(&f.ty)) } else {
                let a = fargs(f, r, &env);
                let v = read(&f.ty, &a, f.limit.as_ref().map(|l| (l, &env)), rd)?;
                match &f.map {
                    None => v,
                    Some(MapK::AddOne) => match v { Val::U(u) => Val::U((u + 1) & 0xff), v => v },
                    Some(MapK::ToStr) => Val::S(v.num().to_string().into_bytes()),
                    Some(MapK::Xor) => match v { Val::U(u) => Val::U(u ^ 0x55), v => v },
                    Some(MapK::Fail) => if v.num() & 1 == 1 { return Err(Er::Parse) } else { v },
                }
            }
        };
        vals.push(v);
        // a field's offsets are those it was read at
        let env = Env { fields: &vals, ctx, bitpos: bp };
        if let Some(a) = &f.assert { if ev(a, &env) == 0 { return Err(Er::Assertion); } }
        if let Some(a) = &f.assert_eq { if vals[i].num() != ev(a, &env) { return Err(Er::Assertion); } }
        if let Some(p) = &f.pad_after { let n = ev(p, &env); if n < 0 || n > u64::MAX as i128 { return Err(Er::InvalidParam) } rd.skip(n as usize, od)?; }
    }
    Ok(strip_temp(fs, vals))
}
/// Default::default()
pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::U(_) | Ty::F(_) | Ty::NzU(_) => Val::U(0),
        Ty::I(_) | Ty::NzI(_) => Val::I(0),
        Ty::Bool => Val::B(false),
        Ty::Unit => Val::Unit,
        Ty::CStr => Val::S(vec![]),
        Ty::Arr(t, n) => Val::L((0..*n).map(|_| zero(t)).collect()),
        Ty::Tup(ts) => Val::L(ts.iter().map(zero).collect()),
        Ty::Opt(_) => Val::O(None),
        Ty::Vec(_) | Ty::Set(_) | Ty::Map(..) => Val::L(vec![]),
        Ty::Wrap(t) => zero(t),
        Ty::Rec(r) => match &r.kind { Kind::Struct(f) => Val::R(0, f.iter().filter(|f| !f.temp).map(|f| zero(&f.ty)).collect()), Kind::Enum { variants, .. } => Val::R(0, variants[0].fields.iter().map(|f| zero(&f.ty)).collect()) },
    }
}

// ---------------------------------------------------------------- writer
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Wr { pub out: Vec<u8>, pub pos: usize, pub cur: u8, pub lo: u8, pub hi: u8, pub last: Od, pub mixed: bool, pub written: usize, pub steps: u64, pub fixed: bool }
impl Default for Wr { fn default() -> Self { Self::new() } }
impl Wr {
    pub fn new() -> Self { Wr { out: vec![], pos: 0, cur: 0, lo: 0, hi: 8, last: Od::Msb, mixed: false, written: 0, steps: 0, fixed: false } }
    pub fn pending(&self) -> usize { 8 - (self.hi - self.lo) as usize }
    fn flush(&mut self) {
        if self.out.len() < self.pos { self.out.resize(self.pos, 0); }
        if self.pos < self.out.len() { self.out[self.pos] = self.cur; } else { self.out.push(self.cur); }
        self.pos += 1; self.written += 8; self.cur = 0; self.lo = 0; self.hi = 8; self.mixed = false;
    }
    /// append the `n` bit number `r`
    pub fn put(&mut self, r: u128, n: usize, od: Od) -> Result<(), Er> {
        if n == 0 { return Ok(()); }
        self.steps += 1;
        let pend = self.pending();
        if pend > 0 && (self.mixed || self.last != od) {
            // bit orders mixed inside one byte: only specified when the second part completes the byte
            if n != 8 - pend { return Err(Er::Unspec); }
        }
        self.last = od;
        for i in 0..n {
            match od {
                Od::Msb => { self.hi -= 1; self.cur |= (((r >> (n - 1 - i)) & 1) as u8) << self.hi; }
                Od::Lsb => { self.cur |= (((r >> i) & 1) as u8) << self.lo; self.lo += 1; }
            }
            if self.lo == self.hi { self.flush(); }
        }
        Ok(())
    }
    pub fn finalize(&mut self) -> Result<(), Er> {
        if self.pending() > 0 { if self.mixed { return Err(Er::Unspec); } self.flush(); }
        Ok(())
    }
    pub fn seek(&mut self, s: Sk) -> Result<(), Er> {
        self.steps += 1;
        // an offset that is no position is refused before anything is done
        if s.invalid() { return Err(Er::Parse); }
        self.finalize()?;
        if self.fixed { match s { Sk::Cur(0) => return Ok(()), Sk::Start(p) if p == self.pos as i128 => return Ok(()), _ => return Err(Er::Io) } }
        let p = match s {
            Sk::Cur(d) => self.pos as i128 + d,
            Sk::Start(p) => p,
            Sk::End(d) => self.out.len() as i128 + d,
        };
        if p < 0 || p > u64::MAX as i128 { return Err(Er::Io); }
        self.pos = p as usize;
        Ok(())
    }
    pub fn zeros(&mut self, n: usize, od: Od) -> Result<(), Er> {
        let mut n = n;
        while n > 0 { let k = n.min(8 - self.pending()); self.put(0, k, od)?; n -= k; }
        Ok(())
    }
}
fn write_num(v: i128, raw: u128, signed: bool, w: u32, a: &Args, wr: &mut Wr) -> Result<(), Er> {
    if odd_u8(w, a) { return Err(Er::Unspec); }
    let n = size_of(w, a).map_err(|_| Er::InvalidParam)?;
    let (en, od) = (a.endian.unwrap_or(En::Little), a.order.unwrap_or(Od::Msb));
    if a.bits.is_none() && a.bytes.is_some() {
        // documented by the existing tests: `bytes` keeps the low bytes
    } else if signed {
        if n < 128 { if n == 0 { if v != 0 { return Err(Er::InvalidParam) } } else {
            let (lo, hi) = (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1);
            if v < lo || v > hi { return Err(Er::InvalidParam); } } }
    } else if raw & !mask(n) != 0 { return Err(Er::InvalidParam); }
    // big endian + Lsb0 + partial byte above one byte is not an invertible layout
    if en == En::Big && od == Od::Lsb && n > 8 && n % 8 != 0 { return Err(Er::Unspec); }
    wr.put(encode(raw & mask(n), n, en, od), n, od)
}
pub fn write(ty: &Ty, v: &Val, a: &Args, wr: &mut Wr) -> Result<(), Er> {
    match (ty, v) {
        (Ty::U(w) | Ty::F(w) | Ty::NzU(w), Val::U(u)) => write_num(*u as i128, *u, false, *w, a, wr),
        (Ty::I(w) | Ty::NzI(w), Val::I(i)) => write_num(*i, *i as u128, true, *w, a, wr),
        (Ty::Bool, Val::B(b)) => write_num(*b as i128, *b as u128, false, 8, a, wr),
        (Ty::Unit, _) => Ok(()),
        (Ty::CStr, Val::S(s)) => { for b in s.iter().chain([&0u8]) { wr.put(*b as u128, 8, a.order.unwrap_or(Od::Msb))?; } Ok(()) }
        (Ty::Arr(t, _) | Ty::Vec(t) | Ty::Set(t), Val::L(l)) => { for x in l { write(t, x, a, wr)?; } Ok(()) }
        (Ty::Map(k, x), Val::L(l)) => { for e in l { if let Val::L(kv) = e { write(k, &kv[0], a, wr)?; write(x, &kv[1], a, wr)?; } } Ok(()) }
        (Ty::Tup(ts), Val::L(l)) => { for (t, x) in ts.iter().zip(l) { write(t, x, a, wr)?; } Ok(()) }
        (Ty::Opt(t), Val::O(o)) => match o { None => Ok(()), Some(x) => write(t, x, a, wr) },
        (Ty::Wrap(t), x) => write(t, x, a, wr),
        (Ty::Rec(r), x) => write_rec(r, x, &a.list(), wr),
        (t, v) => panic!("model write: {t:?} {v:?}"),
    }
}
pub fn write_rec(r: &Rec, v: &Val, ctx: &[Arg], wr: &mut Wr) -> Result<(), Er> {
    let ctx = if ctx.is_empty() { &r.ctx_default[..] } else { ctx };
    let Val::R(vi, vals) = v else { panic!("rec value {v:?}") };
    if let (Some(s), Kind::Struct(_)) = (&r.seek, &r.kind) { wr.seek(sk(s, &Env { fields: &[], ctx, bitpos: wr.written }))?; }
    for b in &r.magic { wr.put(*b as u128, 8, Od::Msb)?; }
    match &r.kind {
        Kind::Struct(fs) => write_fields(fs, r, vals, ctx, wr, None),
        Kind::Enum { id, variants } => {
            let var = &variants[*vi as usize];
            let mut first = None;
            if let IdK::Ty { ty, endian, bits, bytes, order } = id {
                let env = Env { fields: &[], ctx, bitpos: 0 };
                let a = Args {
                    endian: ens(endian, ctx).or_else(|| ens(&r.endian, ctx)),
                    bits: bits.as_ref().map(|e| ev(e, &env) as i64),
                    bytes: bytes.as_ref().map(|e| ev(e, &env) as i64),
                    order: ods(order, ctx).or_else(|| ods(&r.order, ctx)),
                    ctx: vec![],
                };
                if var.stores { first = Some(a); } else {
                    let id = var.wid.expect("wid");
                    let idv = idval(ty, id);
                    write(ty, &idv, &a, wr)?;
                }
            }
            write_fields(&var.fields, r, vals, ctx, wr, first)
        }
    }
}
/// re-insert temp fields' slots so that expressions can index them
pub fn with_temps(fs: &[Field], vals: &[Val]) -> Vec<Val> {
    let mut it = vals.iter();
    fs.iter().map(|f| if f.temp { zero(&f.ty) } else { it.next().unwrap().clone() }).collect()
}
fn write_fields(fs: &[Field], r: &Rec, vals: &[Val], ctx: &[Arg], wr: &mut Wr, first: Option<Args>) -> Result<(), Er> {
    let mut vals = with_temps(fs, vals);
    for (i, f) in fs.iter().enumerate() {
        if i == 0 { if let Some(a) = &first { write(&f.ty, &vals[0], a, wr)?; continue; } }
        let od = ford(f, r, ctx);
        if let Some(s) = &f.seek { wr.seek(sk(s, &Env { fields: &vals, ctx, bitpos: wr.written }))?; }
        for b in &f.magic { wr.put(*b as u128, 8, Od::Msb)?; }
        if let Some(p) = &f.pad_before { let n = ev(p, &Env { fields: &vals, ctx, bitpos: wr.written }); if n < 0 || n > u64::MAX as i128 { return Err(Er::InvalidParam) } wr.zeros(n as usize, od)?; }
        if f.temp {
            if let Some(t) = &f.temp_value {
                let x = ev(t, &Env { fields: &vals, ctx, bitpos: 0 });
                vals[i] = match f.ty { Ty::I(_) => Val::I(x), _ => Val::U(x as u128) };
            }
        }
        let env = Env { fields: &vals, ctx, bitpos: wr.written };
        if let Some(a) = &f.assert { if ev(a, &env) == 0 { return Err(Er::Assertion); } }
        if let Some(a) = &f.assert_eq { if vals[i].num() != ev(a, &env) { return Err(Er::Assertion); } }
        let skipped = match (f.skip, &f.cond) {
            (Some(Skip::All) | Some(Skip::Write), Some(c)) => ev(c, &env) != 0,
            (Some(Skip::All) | Some(Skip::Write), None) => true,
            _ => false,
        };
        if !skipped && !(f.temp && f.temp_value.is_none()) {
            let a = fargs(f, r, &env);
            let mapped;
            let v = match &f.map {
                Some(MapK::ToStr) => { mapped = match &vals[i] { Val::S(s) => Val::U(std::str::from_utf8(s).unwrap().parse().unwrap()), _ => panic!() }; &mapped }
                Some(MapK::Xor) => { mapped = Val::U(vals[i].num() as u128 ^ 0x55); &mapped }
                _ => &vals[i]
            };
            write(&f.ty, v, &a, wr)?;
        }
        if let Some(p) = &f.pad_after { let n = ev(p, &Env { fields: &vals, ctx, bitpos: wr.written }); if n < 0 || n > u64::MAX as i128 { return Err(Er::InvalidParam) } wr.zeros(n as usize, od)?; }
    }
    Ok(())
}

/// `update()`
pub fn update(r: &Rec, v: &Val) -> Result<Val, Er> {
    let Val::R(vi, vals) = v else { panic!() };
    let fs = match &r.kind { Kind::Struct(f) => f, Kind::Enum { variants, .. } => &variants[*vi as usize].fields };
    let mut all = with_temps(fs, vals);
    for (i, f) in fs.iter().enumerate() {
        if f.temp { continue; }
        if let Some(u) = &f.update {
            let x = ev(u, &Env { fields: &all, ctx: &[], bitpos: 0 });
            let ok = match &f.ty {
                Ty::U(w) => x >= 0 && (x as u128) <= mask(*w as usize),
                Ty::I(128) => true,
                Ty::I(w) => { let m = 1i128 << (*w - 1); x >= -m && x < m }
                _ => true,
            };
            if !ok { return Err(Er::Parse); }
            all[i] = match &f.ty { Ty::I(_) => Val::I(x), Ty::U(_) => Val::U(x as u128), _ => all[i].clone() };
        }
    }
    Ok(Val::R(*vi, strip_temp(fs, all)))
}
