//! Numbers driven directly through every context form the library implements for them.
use crate::drive::*;
use crate::dynv::Dyn;
use crate::model::{self, *};
use crate::report::{get, hex};
use deku::bitvec::{BitVec, Msb0};
use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};
use std::io::Cursor;

type Rr<'a> = Reader<Cursor<&'a [u8]>>;
type Ww<'a> = Writer<&'a mut Cursor<Vec<u8>>>;
pub struct Form<T: 'static> {
    pub name: &'static str,
    /// which of the parameters the form carries
    pub bits: bool, pub bytes: bool, pub en: bool, pub od: bool,
    pub read: fn(&mut Rr, usize, En, Od) -> Result<T, DekuError>,
    pub write: fn(&T, &mut Ww, usize, En, Od) -> Result<(), DekuError>,
}
pub fn den(e: En) -> Endian { match e { En::Little => Endian::Little, En::Big => Endian::Big } }
pub fn dod(o: Od) -> Order { match o { Od::Msb => Order::Msb0, Od::Lsb => Order::Lsb0 } }
#[macro_export]
macro_rules! form {
    ($t:ty, $name:expr, $b:expr, $y:expr, $e:expr, $o:expr, |$n:ident, $en:ident, $od:ident| $ctx:expr) => {
        $crate::prim::Form::<$t> { name: $name, bits: $b, bytes: $y, en: $e, od: $o,
            read: |r, $n, $en, $od| { let _ = ($n, $en, $od); <$t as DekuReader<'_, _>>::from_reader_with_ctx(r, $ctx) },
            write: |v, w, $n, $en, $od| { let _ = ($n, $en, $od); v.to_writer(w, $ctx) } }
    };
}
#[macro_export]
macro_rules! full_forms { ($t:ty) => { vec![
    $crate::form!($t, "(Endian,BitSize,Order)", true, false, true, true, |n, e, o| (den(e), BitSize(n), dod(o))),
    $crate::form!($t, "(Endian,ByteSize,Order)", false, true, true, true, |n, e, o| (den(e), ByteSize(n), dod(o))),
    $crate::form!($t, "(Endian,Order)", false, false, true, true, |n, e, o| (den(e), dod(o))),
    $crate::form!($t, "(Endian,BitSize)", true, false, true, false, |n, e, o| (den(e), BitSize(n))),
    $crate::form!($t, "(Endian,ByteSize)", false, true, true, false, |n, e, o| (den(e), ByteSize(n))),
    $crate::form!($t, "Endian", false, false, true, false, |n, e, o| den(e)),
    $crate::form!($t, "ByteSize", false, true, false, false, |n, e, o| ByteSize(n)),
    $crate::form!($t, "BitSize", true, false, false, false, |n, e, o| BitSize(n)),
    $crate::form!($t, "(BitSize,Order)", true, false, false, true, |n, e, o| (BitSize(n), dod(o))),
    $crate::form!($t, "Order", false, false, false, true, |n, e, o| dod(o)),
    $crate::form!($t, "()", false, false, false, false, |n, e, o| ()),
] } }
#[macro_export]
macro_rules! nz_forms { ($t:ty) => { vec![
    $crate::form!($t, "()", false, false, false, false, |n, e, o| ()),
    $crate::form!($t, "(Endian,BitSize)", true, false, true, false, |n, e, o| (den(e), BitSize(n))),
    $crate::form!($t, "(Endian,ByteSize)", false, true, true, false, |n, e, o| (den(e), ByteSize(n))),
    $crate::form!($t, "(Endian,BitSize,Order)", true, false, true, true, |n, e, o| (den(e), BitSize(n), dod(o))),
    $crate::form!($t, "(Endian,ByteSize,Order)", false, true, true, true, |n, e, o| (den(e), ByteSize(n), dod(o))),
    $crate::form!($t, "Endian", false, false, true, false, |n, e, o| den(e)),
] } }
#[derive(Clone, Copy)]
pub struct PrimOps { pub read: bool, pub write_fit: bool, pub write_over: bool, pub exhaustive_bits: usize }

/// raw stream patterns of `total` bits
fn streams(total: usize, exhaustive: usize, mut f: impl FnMut(&[u8])) {
    let len = total.div_ceil(8) + 1;
    if total <= exhaustive {
        for x in 0..(1u32 << total) {
            let mut b = vec![0xa5u8; len];
            for i in 0..total { let bit = (x >> i) & 1; let (p, m) = (i / 8, 0x80u8 >> (i % 8)); if bit == 1 { b[p] |= m } else { b[p] &= !m } }
            f(&b);
        }
        return;
    }
    let asc: Vec<u8> = (0..len).map(|i| crate::enumv::ASC[i % 24]).collect();
    f(&asc);
    f(&asc.iter().map(|b| !b).collect::<Vec<_>>());
    f(&asc.iter().rev().copied().collect::<Vec<_>>());
    for base in [0u8, 0xff] {
        let mut b = vec![base; len];
        f(&b);
        for i in 0..total { b[i / 8] ^= 0x80 >> (i % 8); f(&b); b[i / 8] ^= 0x80 >> (i % 8); }
        for i in 0..len - 1 { b[i] = 0x5a; f(&b); b[i] = base; }
    }
}
fn values(w: u32, n: usize, signed: bool, exhaustive: bool) -> Vec<Val> {
    let mut v: Vec<i128> = vec![];
    if w == 8 || (w == 16 && exhaustive) { let h = 1i128 << (w - 1); v = if signed { (-h..h).collect() } else { (0..2 * h).collect() }; }
    else {
        let mut ks: Vec<usize> = vec![0, 1, 7, 8, 15, 16, 31, 32, 63, 64, w as usize - 1, w as usize];
        for d in [-1i64, 0, 1] { let k = n as i64 + d; if k >= 0 && k <= w as i64 { ks.push(k as usize); } let k = k - 1; if k >= 0 && k <= w as i64 { ks.push(k as usize); } }
        ks.retain(|k| *k <= w as usize); ks.sort(); ks.dedup();
        for k in ks {
            let p = if k >= 127 { continue } else { 1i128 << k };
            for d in [-2i128, -1, 0, 1] { v.push(p + d); v.push(-(p + d)); }
        }
        v.push(0x1234_5678_9abc_def1_2345_6789_abcd_ef12 & model::mask(n.min(126)) as i128);
        v.push(0x1234_5678_9abc_def1_2345_6789_abcd_ef12 & model::mask(w as usize) as i128);
        v.push(i128::MAX); v.push(i128::MIN);
    }
    let mut out: Vec<Val> = v.into_iter().filter_map(|x| if signed {
        if w == 128 || (x >= -(1i128 << (w - 1)) && x < 1i128 << (w - 1)) { Some(Val::I(x)) } else { None }
    } else if w == 128 { Some(Val::U(x as u128)) } else if x >= 0 && x < 1i128 << w { Some(Val::U(x as u128)) } else { None }).collect();
    if !signed && w == 128 { out.push(Val::U(u128::MAX)); out.push(Val::U(1 << 127)); out.push(Val::U((1 << 127) - 1)); if n < 128 { out.push(Val::U(1 << n)); out.push(Val::U((1u128 << n) - 1)); } }
    out.sort(); out.dedup();
    out
}
pub fn lead_bits(off: usize, v: u8) -> BitVec<u8, Msb0> { (0..off).rev().map(|i| v >> i & 1 == 1).collect() }

/// `nz`: zero is a parse error and cannot be written
pub fn check<T: Dyn + Copy + 'static>(tname: &'static str, ty: Ty, w: u32, signed: bool, form: &Form<T>, o: PrimOps, l: &mut Local) {
    let r = get();
    let nz = matches!(ty, Ty::NzU(_) | Ty::NzI(_));
    let sizes: Vec<usize> = if form.bits { (0..=w as usize + 9).collect() } else if form.bytes { (0..=w as usize / 8 + 2).collect() } else { vec![0] };
    let ens: &[En] = if form.en { &[En::Little, En::Big] } else { &[En::Little] };
    let ods: &[Od] = if form.od { &[Od::Msb, Od::Lsb] } else { &[Od::Msb] };
    for &n in &sizes { for &en in ens { for &od in ods { for off in 0..8usize {
        if w >= 64 && !r.thorough && matches!(off, 2 | 5 | 6) { continue; }
        let args = Args { endian: form.en.then_some(en), order: form.od.then_some(od), bits: form.bits.then_some(n as i64), bytes: form.bytes.then_some(n as i64), ctx: vec![] };
        let nb = if form.bits { n } else if form.bytes { n * 8 } else { w as usize };
        let what = || format!("{tname} with {} n={n} {en:?} {od:?} after {off} bits", form.name);
        let key = || format!("{tname}:{}", form.name);
        if o.read { streams(off + nb, o.exhaustive_bits, |data| for cut in 0..2usize {
            // cut: the last needed byte is missing
            let need = (off + nb).div_ceil(8);
            if cut == 1 && (need == 0 || off.div_ceil(8) >= need) { continue; }
            let data = if cut == 1 { &data[..need - 1] } else { data };
            l.evals += 1;
            let mut m = Rd::new(data);
            if m.take(off, od).is_err() { continue; }
            let mo = read(&ty, &args, None, &mut m).map(|v| { let p = m.bitpos(); let t = m.take(4, od).ok(); (v, p, t) });
            l.trans += m.steps;
            let g = case(tname, data, || guard(|| {
                let mut rd = Reader::new(Cursor::new(data));
                rd.read_bits(off, dod(od))?;
                let v = (form.read)(&mut rd, n, en, od)?;
                let p = rd.bits_read;
                let t = rd.read_bits(4, dod(od)).ok().flatten().map(|b| b.iter().fold(0u128, |a, x| a << 1 | *x as u128));
                Ok((v.to_val(), p, t))
            }));
            if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; if let Got::Panic(_) = g { r.fail(&key(), format!("{}: {g:?} data={}", what(), hex(data))); } return; }
            l.traces += 1;
            l.see((tname, n, &mo));
            if l.evals % 60013 == 7 { r.sample(|| format!("read {} from {} -> {mo:?}", what(), hex(data))); }
            if !same(&g, &mo) { r.fail(&format!("{}:read", key()), format!("reading {} from {}: expected {mo:?}, got {g:?}", what(), hex(data))); }
        }); }
        if !(o.write_fit || o.write_over) { continue; }
        let lead = 0b0101_1011u8 & model::mask(off) as u8;
        for v in values(w, nb, signed, o.exhaustive_bits >= 16) {
            if nz && v.num() == 0 { continue; }
            let mut m = Wr::new();
            m.put(lead as u128, off, od).unwrap();
            let mo = write(&ty, &v, &args, &mut m);
            let fits = mo.is_ok();
            if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; }
            if fits && !o.write_fit || !fits && !o.write_over { continue; }
            let refused = matches!(mo, Err(Er::InvalidParam));
            let mo = mo.and_then(|_| { m.put(0b101, 3, od)?; m.finalize()?; Ok((m.out.clone(), m.written)) });
            let before = { let mut m = Wr::new(); m.put(lead as u128, off, od).and_then(|_| m.put(0b101, 3, od)).and_then(|_| m.finalize()).unwrap(); m.out };
            l.evals += 1; l.trans += m.steps;
            let g = case(tname, &[], || guard(|| {
                let mut out = Cursor::new(vec![]);
                let mut wt = Writer::new(&mut out);
                wt.write_bits_order(&lead_bits(off, lead), dod(od))?;
                if let Err(e) = (form.write)(&T::from_val(&v), &mut wt, n, en, od) {
                    if refused {
                        wt.write_bits_order(&lead_bits(3, 0b101), dod(od))?;
                        wt.finalize()?;
                        if out.into_inner() != before { panic!("a refused write changed the output") }
                    }
                    return Err(e);
                }
                wt.write_bits_order(&lead_bits(3, 0b101), dod(od))?;
                wt.finalize()?;
                let bw = wt.bits_written;
                Ok((out.into_inner(), bw))
            }));
            if matches!(mo, Err(Er::Unspec)) { if let Got::Panic(_) = g { r.fail(&key(), format!("writing {}: {g:?} value={v:?}", what())); } continue; }
            l.traces += 1;
            l.see((tname, n, &v, &mo));
            if !same(&g, &mo) { r.fail(&format!("{}:write", key()), format!("writing {v:?} as {}: expected {mo:02x?}, got {g:02x?}", what())); }
        }
    } } } }
}

/// jobs for all number types (`nz`: the non-zero types instead)
#[macro_export]
macro_rules! prim_jobs { ($jobs:expr, $o:expr, $forms:ident, $($t:ty, $ty:expr, $w:expr, $s:expr);* $(;)?) => { $( {
    let n = $crate::$forms!($t).len();
    for i in 0..n { $jobs.push((format!("{}:{}", stringify!($t), i), Box::new(move |l: &mut Local| {
        let f = &$crate::$forms!($t)[i];
        $crate::prim::check::<$t>(stringify!($t), $ty, $w, $s, f, $o, l);
    }) as Job)); }
} )* } }
pub fn num_jobs(o: PrimOps) -> Vec<(String, Job)> {
    let mut j: Vec<(String, Job)> = vec![];
    crate::prim_jobs!(j, o, full_forms,
        u128, Ty::U(128), 128, false; i128, Ty::I(128), 128, true; u64, Ty::U(64), 64, false; i64, Ty::I(64), 64, true;
        usize, Ty::U(64), 64, false; isize, Ty::I(64), 64, true; f64, Ty::F(64), 64, false;
        u32, Ty::U(32), 32, false; i32, Ty::I(32), 32, true; f32, Ty::F(32), 32, false;
        u16, Ty::U(16), 16, false; i16, Ty::I(16), 16, true; u8, Ty::U(8), 8, false; i8, Ty::I(8), 8, true);
    j
}
pub fn nz_jobs(o: PrimOps) -> Vec<(String, Job)> {
    use std::num::*;
    let mut j: Vec<(String, Job)> = vec![];
    crate::prim_jobs!(j, o, nz_forms,
        NonZeroU128, Ty::NzU(128), 128, false; NonZeroI128, Ty::NzI(128), 128, true; NonZeroU64, Ty::NzU(64), 64, false; NonZeroI64, Ty::NzI(64), 64, true;
        NonZeroUsize, Ty::NzU(64), 64, false; NonZeroIsize, Ty::NzI(64), 64, true;
        NonZeroU32, Ty::NzU(32), 32, false; NonZeroI32, Ty::NzI(32), 32, true; NonZeroU16, Ty::NzU(16), 16, false; NonZeroI16, Ty::NzI(16), 16, true;
        NonZeroU8, Ty::NzU(8), 8, false; NonZeroI8, Ty::NzI(8), 8, true);
    j
}
