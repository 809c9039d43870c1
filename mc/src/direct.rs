//! Containers driven directly through the context forms that derived code does not use.
use crate::drive::*;
use crate::dynv::Dyn;
use crate::model::{self, Args, Env, Er, Od, Rd, Ty, Val, Wr, E};
use crate::prim::{dod, lead_bits};
use crate::report::{get, hex};
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::io::Cursor;
use std::sync::Arc;

type Rr<'a> = Reader<Cursor<&'a [u8]>>;
type Ww<'a> = Writer<&'a mut Cursor<Vec<u8>>>;
#[derive(Clone, Copy, Debug)]
pub enum Lim { Count(usize), Bits(usize), Bytes(usize), Until(i64), End, Exact(usize), None }
/// one container type with one context form
pub struct Direct {
    pub name: String, pub ty: Ty, pub args: Args, pub exact: bool, pub unlimited: bool,
    /// second argument: use the named constructors of `Limit` instead of its conversions
    pub read: fn(&mut Rr, Lim, bool) -> Result<Val, DekuError>,
    pub write: fn(&Val, &mut Ww) -> Result<(), DekuError>,
}
macro_rules! lims { ($c:ty, $e:ty, |$l:ident| $ctx:expr) => { |r, lim, alt| Ok(match (lim, alt) {
    (Lim::Count(n), false) => { let $l = Limit::from(n); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Count(n), true) => { let $l = Limit::new_count(n); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Bits(n), false) => { let $l = Limit::from(BitSize(n)); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Bits(n), true) => { let $l = Limit::new_bit_size(BitSize(n)); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Bytes(n), false) => { let $l = Limit::from(ByteSize(n)); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Bytes(n), true) => { let $l = Limit::new_byte_size(ByteSize(n)); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Until(k), false) => { let $l = Limit::from(|v: &$e| v.to_val().num() == k as i128); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (Lim::Until(k), true) => { let $l = Limit::new_until(|v: &$e| v.to_val().num() == k as i128); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
    (_, _) => { let $l = Limit::end(); <$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx)?.to_val() }
}) } }
macro_rules! dir {
    // context: a pair of the limit and what the elements get
    ($v:ident, $c:ty, $e:ty, $ty:expr, $args:expr, $x:expr) => { $v.push(Direct { name: format!("{} with (Limit, {})", stringify!($c), stringify!($x)), ty: $ty, args: $args, exact: false, unlimited: false,
        read: lims!($c, $e, |l| (l, $x)), write: |v, w| <$c as Dyn>::from_val(v).to_writer(w, $x) }); };
    // context: the limit alone
    ($v:ident, $c:ty, $e:ty, $ty:expr) => { $v.push(Direct { name: format!("{} with Limit", stringify!($c)), ty: $ty, args: Args::default(), exact: false, unlimited: false,
        read: lims!($c, $e, |l| l), write: |v, w| <$c as Dyn>::from_val(v).to_writer(w, ()) }); };
}
macro_rules! all { ($v:ident, $e:ty, $ty:expr) => {
    dir!($v, Vec<$e>, $e, vecof($ty)); dir!($v, HashSet<$e>, $e, setof($ty));
    dir!($v, Vec<$e>, $e, vecof($ty), Args::default(), ()); dir!($v, Box<[$e]>, $e, vecof($ty), Args::default(), ());
    dir!($v, Arc<[$e]>, $e, vecof($ty), Args::default(), ()); dir!($v, HashSet<$e>, $e, setof($ty), Args::default(), ());
}; ($v:ident, $e:ty, $ty:expr, $args:expr, $x:expr) => {
    dir!($v, Vec<$e>, $e, vecof($ty), $args, $x); dir!($v, Box<[$e]>, $e, vecof($ty), $args, $x);
    dir!($v, Arc<[$e]>, $e, vecof($ty), $args, $x); dir!($v, HashSet<$e>, $e, setof($ty), $args, $x);
} }
/// types without a limit, with a context that goes to what they contain
macro_rules! plain { ($v:ident, $c:ty, $ty:expr, $args:expr, $x:expr) => { $v.push(Direct { name: format!("{} with {}", stringify!($c), stringify!($x)), ty: $ty, args: $args, exact: false, unlimited: true,
    read: |r, _, _| Ok(<$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $x)?.to_val()), write: |v, w| <$c as Dyn>::from_val(v).to_writer(w, $x) }); } }
/// what a reference points to is written
macro_rules! refd { ($v:ident, $c:ty, $ty:expr, $args:expr, $x:expr) => { $v.push(Direct { name: format!("&{} with {}", stringify!($c), stringify!($x)), ty: $ty, args: $args, exact: false, unlimited: true,
    read: |r, _, _| Ok(<$c as DekuReader<'_, _>>::from_reader_with_ctx(r, $x)?.to_val()), write: |v, w| { let t = <$c as Dyn>::from_val(v); <&$c as DekuWriter<_>>::to_writer(&&t, w, $x) } }); } }
/// borrowed forms exist for writing only
macro_rules! borrowed { ($v:ident, $e:ty, $ty:expr, $args:expr, $x:expr) => {
    $v.push(Direct { name: format!("&[{}] with {}", stringify!($e), stringify!($x)), ty: vecof($ty), args: $args, exact: false, unlimited: false,
        read: lims!(Vec<$e>, $e, |l| (l, $x)), write: |v, w| { let s = <Vec<$e>>::from_val(v); let s: &[$e] = &s; DekuWriter::to_writer(&s, w, $x) } });
    $v.push(Direct { name: format!("[{}] with {}", stringify!($e), stringify!($x)), ty: vecof($ty), args: $args, exact: false, unlimited: false,
        read: lims!(Box<[$e]>, $e, |l| (l, $x)), write: |v, w| { let s = <Vec<$e>>::from_val(v); <[$e] as DekuWriter<_>>::to_writer(&s[..], w, $x) } });
} }
fn vecof(t: Ty) -> Ty { Ty::Vec(Box::new(t)) }
fn setof(t: Ty) -> Ty { Ty::Set(Box::new(t)) }
fn wrap(t: Ty) -> Ty { Ty::Wrap(Box::new(t)) }
fn en(e: model::En) -> Args { Args { endian: Some(e), ..Args::default() } }
fn bits(n: i64) -> Args { Args { bits: Some(n), ..Args::default() } }
fn bytes(n: i64) -> Args { Args { bytes: Some(n), ..Args::default() } }
fn od(o: Od) -> Args { Args { order: Some(o), ..Args::default() } }

pub fn forms() -> Vec<Direct> {
    use model::En::*;
    let mut v = vec![];
    let u8t = || Ty::U(8);
    let pair = || Ty::Tup(vec![Ty::U(8), Ty::U(16)]);
    all!(v, u8, u8t());
    all!(v, u16, Ty::U(16));
    all!(v, i32, Ty::I(32));
    all!(v, bool, Ty::Bool);
    all!(v, (u8, u16), pair());
    all!(v, Option<u8>, Ty::Opt(Box::new(u8t())));
    all!(v, [u8; 3], Ty::Arr(Box::new(u8t()), 3));
    all!(v, Box<u16>, wrap(Ty::U(16)));
    all!(v, std::num::NonZeroU8, Ty::NzU(8));
    all!(v, (), Ty::Unit);
    all!(v, u16, Ty::U(16), en(Big), Endian::Big);
    all!(v, u16, Ty::U(16), en(Little), Endian::Little);
    all!(v, u16, Ty::U(16), bits(5), BitSize(5));
    all!(v, u8, u8t(), bits(3), BitSize(3));
    all!(v, i8, Ty::I(8), bits(4), BitSize(4));
    all!(v, u32, Ty::U(32), bytes(3), ByteSize(3));
    all!(v, u8, u8t(), od(Od::Lsb), Order::Lsb0);
    all!(v, u16, Ty::U(16), od(Od::Lsb), Order::Lsb0);
    all!(v, u16, Ty::U(16), Args { endian: Some(Big), bits: Some(12), ..Args::default() }, (Endian::Big, BitSize(12)));
    all!(v, u16, Ty::U(16), Args { endian: Some(Little), bits: Some(10), order: Some(Od::Lsb), ..Args::default() }, (Endian::Little, BitSize(10), Order::Lsb0));
    all!(v, i32, Ty::I(32), Args { endian: Some(Big), bytes: Some(3), order: Some(Od::Msb), ..Args::default() }, (Endian::Big, ByteSize(3), Order::Msb0));
    all!(v, (u8, u16), pair(), en(Big), Endian::Big);
    all!(v, [u16; 2], Ty::Arr(Box::new(Ty::U(16)), 2), en(Big), Endian::Big);
    all!(v, Option<u16>, Ty::Opt(Box::new(Ty::U(16))), en(Big), Endian::Big);
    all!(v, Arc<u16>, wrap(Ty::U(16)), en(Big), Endian::Big);
    dir!(v, HashMap<u8, u8>, (u8, u8), Ty::Map(Box::new(u8t()), Box::new(u8t())));
    dir!(v, HashMap<u8, u16>, (u8, u16), Ty::Map(Box::new(u8t()), Box::new(Ty::U(16))));
    dir!(v, HashMap<u8, ()>, (u8, ()), Ty::Map(Box::new(u8t()), Box::new(Ty::Unit)));
    dir!(v, HashMap<u8, u16>, (u8, u16), Ty::Map(Box::new(u8t()), Box::new(Ty::U(16))), en(Big), Endian::Big);
    dir!(v, HashMap<u8, u8>, (u8, u8), Ty::Map(Box::new(u8t()), Box::new(u8t())), bits(4), BitSize(4));
    dir!(v, HashMap<u8, u8>, (u8, u8), Ty::Map(Box::new(u8t()), Box::new(u8t())), bits(3), BitSize(3));
    dir!(v, HashMap<u16, bool>, (u16, bool), Ty::Map(Box::new(Ty::U(16)), Box::new(Ty::Bool)), Args::default(), ());
    borrowed!(v, u8, u8t(), Args::default(), ());
    borrowed!(v, u16, Ty::U(16), en(Big), Endian::Big);
    borrowed!(v, u16, Ty::U(16), bits(5), BitSize(5));
    plain!(v, [u8; 4], Ty::Arr(Box::new(u8t()), 4), Args::default(), ());
    plain!(v, [u16; 2], Ty::Arr(Box::new(Ty::U(16)), 2), en(Big), Endian::Big);
    plain!(v, [u8; 3], Ty::Arr(Box::new(u8t()), 3), bits(5), BitSize(5));
    plain!(v, [u8; 0], Ty::Arr(Box::new(u8t()), 0), Args::default(), ());
    plain!(v, Option<u16>, Ty::Opt(Box::new(Ty::U(16))), en(Big), Endian::Big);
    plain!(v, Box<u16>, wrap(Ty::U(16)), en(Big), Endian::Big);
    plain!(v, Arc<u16>, wrap(Ty::U(16)), bits(9), BitSize(9));
    plain!(v, Cow<'_, u16>, wrap(Ty::U(16)), en(Big), Endian::Big);
    plain!(v, Cow<'_, [u8; 2]>, wrap(Ty::Arr(Box::new(u8t()), 2)), bits(6), BitSize(6));
    plain!(v, (), Ty::Unit, Args::default(), ());
    plain!(v, (u8,), Ty::Tup(vec![u8t()]), bits(5), BitSize(5));
    plain!(v, (u8, u16, u8), Ty::Tup(vec![u8t(), Ty::U(16), u8t()]), en(Big), Endian::Big);
    plain!(v, bool, Ty::Bool, bits(1), BitSize(1));
    plain!(v, bool, Ty::Bool, Args::default(), ());
    plain!(v, std::net::Ipv4Addr, Ty::U(32), en(Big), Endian::Big);
    plain!(v, std::net::Ipv4Addr, Ty::U(32), Args { order: Some(Od::Lsb), ..en(Little) }, (Endian::Little, Order::Lsb0));
    refd!(v, u16, Ty::U(16), en(Big), Endian::Big);
    refd!(v, u8, u8t(), bits(5), BitSize(5));
    refd!(v, (u8, u16), pair(), Args::default(), ());
    v.push(Direct { name: "Vec<u8> with ReadExact".into(), ty: vecof(u8t()), args: Args::default(), exact: true, unlimited: false,
        read: |r, lim, _| { let Lim::Exact(n) = lim else { panic!() }; Ok(<Vec<u8> as DekuReader<'_, ReadExact>>::from_reader_with_ctx(r, ReadExact(n))?.to_val()) },
        write: |v, w| <Vec<u8>>::from_val(v).to_writer(w, ()) });
    v
}
fn limits(d: &Direct, thorough: bool) -> Vec<Lim> {
    if d.unlimited { return vec![Lim::None]; }
    if d.exact { return [0, 1, 2, 3, 5, 1 << 20, usize::MAX / 8, usize::MAX].map(Lim::Exact).to_vec(); }
    let mut v: Vec<Lim> = [0usize, 1, 2, 3, 6, usize::MAX].map(Lim::Count).to_vec();
    let bits: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 27, 30, 32, 48, usize::MAX] } else { &[0, 1, 3, 5, 6, 8, 9, 10, 12, 16, 24, 30, 32, usize::MAX] };
    v.extend(bits.iter().map(|n| Lim::Bits(*n)));
    v.extend([0, 1, 2, 3, 4, 6, usize::MAX / 8, usize::MAX].map(Lim::Bytes));
    v.push(Lim::End);
    v
}
/// the value of an element as the `until` predicate sees it
fn scalar(t: &Ty) -> bool { match t { Ty::U(_) | Ty::I(_) | Ty::NzU(_) => true, Ty::Wrap(t) => scalar(t), _ => false } }
pub fn check(d: &Direct, budget: u64, l: &mut Local) {
    let r = get();
    let elem = match &d.ty { Ty::Vec(t) | Ty::Set(t) => Some(&**t), _ => None };
    let mut lims = limits(d, r.thorough);
    if elem.is_some_and(scalar) && !d.exact { lims.extend([0, 1, 2].map(Lim::Until)); }
    // a set of elements without bytes counts what it holds: outside the model (see DESIGN.md)
    let unit = matches!((elem, &d.ty), (Some(Ty::Unit), Ty::Set(_)));
    if unit { return; }
    let okey = format!("direct:{}", d.name);
    let env = Env { fields: &[], ctx: &[], bitpos: 0 };
    for lim in lims { for off in 0..8usize { crate::enumv::inputs(if r.thorough { 6 } else { 5 }, &[1, 0, 2, 0x80], budget, |data| {
        let mut m = Rd::new(data);
        if m.take(off, Od::Msb).is_err() { return; }
        let ml = match lim {
            Lim::Count(n) | Lim::Exact(n) => model::Limit::Count(E::Us(Box::new(E::C(n as i64)))),
            Lim::Bits(n) => model::Limit::Bits(E::Us(Box::new(E::C(n as i64)))),
            Lim::Bytes(n) => model::Limit::Bytes(E::Us(Box::new(E::C(n as i64)))),
            Lim::Until(k) => model::Limit::Until(model::Pred::NumEq(k)),
            Lim::End | Lim::None => model::Limit::All,
        };
        let mo = model::read(&d.ty, &d.args, if d.unlimited { None } else { Some((&ml, &env)) }, &mut m).map(|v| { let p = m.bitpos(); let t = m.take(4, Od::Msb).ok(); (v, p, t) });
        if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; return; }
        l.trans += m.steps;
        for alt in [false, true] {
            if alt && (d.exact || d.unlimited || matches!(lim, Lim::End)) { continue; }
            l.evals += 1;
            let g = case(&d.name, data, || guard(|| {
                let mut rd = Reader::new(Cursor::new(data));
                rd.read_bits(off, Order::Msb0)?;
                let v = (d.read)(&mut rd, lim, alt)?;
                let p = rd.bits_read;
                let t = rd.read_bits(4, Order::Msb0).ok().flatten().map(|b| b.iter().fold(0u128, |a, x| a << 1 | *x as u128));
                Ok((v, p, t))
            }));
            l.traces += 1;
            l.see((&d.name, off, &mo));
            if l.evals % 60013 == 7 { r.sample(|| format!("{} {lim:?} after {off} bits from {} -> {mo:?}", d.name, hex(data))); }
            if !same(&g, &mo) { r.fail(&format!("{okey}:read"), format!("reading {} {lim:?} after {off} bits from {}: expected {mo:?}, got {g:?}", d.name, hex(data))); }
        }
        let Ok((v, ..)) = mo else { return };
        // what has been read is written back after the same number of bits
        if matches!(d.ty, Ty::Set(_) | Ty::Map(..)) && v.len() > 1 { return; }
        let lead = 0b0101_1011u8 & model::mask(off) as u8;
        let mut w = Wr::new();
        let mo = w.put(lead as u128, off, Od::Msb).and_then(|_| model::write(&d.ty, &v, &d.args, &mut w)).and_then(|_| w.finalize()).map(|_| (w.out.clone(), w.written));
        if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; return; }
        l.evals += 1; l.trans += w.steps; l.traces += 1;
        let g = case(&d.name, data, || guard(|| {
            let mut out = Cursor::new(vec![]);
            let mut wt = Writer::new(&mut out);
            wt.write_bits_order(&lead_bits(off, lead), dod(Od::Msb))?;
            (d.write)(&v, &mut wt)?;
            wt.finalize()?;
            let bw = wt.bits_written;
            Ok((out.into_inner(), bw))
        }));
        if !same(&g, &mo) { r.fail(&format!("{okey}:write"), format!("writing {v:?} as {} after {off} bits: expected {mo:02x?}, got {g:02x?}", d.name)); }
    }); } }
}
/// containers around the sizes of the library's internal buffers and allocation limits
fn large_lens() -> &'static [usize] {
    if get().thorough { &[4095, 4096, 4097, 65535, 65536, 65537, 65536 + 4096, 131071, 131072, 131073, 196609, 524287, 524288, 524289, 1 << 20, (1 << 20) + 1, (2 << 20) + 3] } else { &[65535, 65536, 65537, 131073] }
}
fn large(n: usize, off: usize, l: &mut Local) {
    let r = get();
    {
        let data: Vec<u8> = (0..n + 2).map(|i| (i as u32).wrapping_mul(0x9e37_79b1).to_be_bytes()[i % 3]).collect();
        let at = |i: usize| if off == 0 { data[i] } else { data[i] << off | data[i + 1] >> (8 - off) };
        let want: Vec<u8> = (0..n).map(at).collect();
        let words: Vec<u16> = want.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
        for (what, kind) in [("ReadExact", 0), ("(Limit, ())", 1), ("Box<[u8]>", 2), ("u16", 3), ("ReadExact from a stream that cannot seek", 4), ("read_all", 5)] {
            // the last needed byte is missing
            for cut in [false, true] {
                if cut && (kind == 5 || n < 2) { continue; }
                let d = &data[..(off + n * 8).div_ceil(8) - cut as usize];
                let g = case(&format!("large:{what}:{n}:{off}"), &[], || guard(|| {
                    if kind == 4 {
                        let mut rd = Reader::new(deku::noseek::NoSeek::new(d));
                        rd.read_bits(off, Order::Msb0)?;
                        let v = <Vec<u8> as DekuReader<'_, ReadExact>>::from_reader_with_ctx(&mut rd, ReadExact(n))?;
                        return Ok((v == want, rd.bits_read));
                    }
                    let mut rd = Reader::new(Cursor::new(d));
                    rd.read_bits(off, Order::Msb0)?;
                    let same = match kind {
                        0 => Vec::from_reader_with_ctx(&mut rd, ReadExact(n))? == want,
                        1 => <Vec<u8> as DekuReader<'_, _>>::from_reader_with_ctx(&mut rd, (Limit::new_count(n), ()))? == want,
                        2 => <Box<[u8]> as DekuReader<'_, _>>::from_reader_with_ctx(&mut rd, (Limit::new_byte_size(ByteSize(n)), ()))?[..] == want[..],
                        3 => <Vec<u16> as DekuReader<'_, _>>::from_reader_with_ctx(&mut rd, (Limit::new_count((n + cut as usize) / 2), Endian::Big))? == words,
                        _ => { let v = <Vec<u8> as DekuReader<'_, _>>::from_reader_with_ctx(&mut rd, (Limit::end(), BitSize(8))); let v = if off == 0 { v? } else { match v { Err(DekuError::Incomplete(_)) => return Ok((true, off + n * 8)), x => x? } }; v == want }
                    };
                    Ok((same, rd.bits_read))
                }));
                let exp = if cut { Err(Er::Incomplete) } else { Ok((true, off + if kind == 3 { n / 2 * 16 } else { n * 8 })) };
                l.evals += 1; l.traces += 1; l.trans += n as u64; l.see((n, off, kind, cut));
                if !super::drive::same(&g, &exp) { r.fail(&format!("large:{what}"), format!("{n} bytes read with {what} after {off} bits{}: expected {exp:?} (equal content, position), got {g:?}", if cut { ", the last byte missing" } else { "" })); }
            }
        }
        // written back after the same number of bits
        let g = case(&format!("large:write:{n}:{off}"), &[], || guard(|| {
            let mut outs = vec![];
            for k in 0..3 {
                let mut out = Cursor::new(vec![]);
                let mut wt = Writer::new(&mut out);
                wt.write_bits_order(&lead_bits(off, data[0] >> (8 - off).min(7)), Order::Msb0)?;
                match k { 0 => want.to_writer(&mut wt, ())?, 1 => (&want[..]).to_writer(&mut wt, BitSize(8))?, _ => words.to_writer(&mut wt, Endian::Big)? }
                wt.finalize()?;
                let b = wt.bits_written;
                outs.push((out.into_inner(), b));
            }
            Ok(outs)
        }));
        let Got::Ok(outs) = g else { r.fail("large:write", format!("writing {n} bytes after {off} bits: {g:?}")); return };
        for (k, (o, b)) in outs.iter().enumerate() {
            let n = if k == 2 { n / 2 * 2 } else { n };
            l.evals += 1; l.traces += 1;
            let mut exp = data[..n].to_vec();
            if off > 0 { exp.push(data[n] & !(0xff >> off)); }
            if *o != exp || *b != (off + n * 8).div_ceil(8) * 8 { r.fail("large:write", format!("writing {n} bytes after {off} bits, form {k}: {} bytes and {b} bits written, first difference at {:?}", o.len(), o.iter().zip(&exp).position(|(a, b)| a != b))); }
        }
    }
}
pub fn jobs(budget: u64) -> Vec<(String, Job)> {
    let mut v: Vec<(String, Job)> = vec![];
    for &n in large_lens() { for off in if get().thorough { 0..8 } else { 0..3 } {
        let off = if get().thorough { off } else { [0, 4, 7][off] };
        v.push((format!("@large:{n}:{off}"), Box::new(move |l: &mut Local| large(n, off, l))));
    } }
    v.extend((0..forms().len()).map(|i| {
        let n = format!("@direct:{}", forms()[i].name);
        (n, Box::new(move |l: &mut Local| check(&forms()[i], budget, l)) as Job)
    }));
    v
}
