//! C18: the same programs, inputs and operation histories under one combination of the library's features.
//! Each combination checks the model's prediction itself and leaves a digest per case; the reference
//! combination compares all digests with its own.
extern crate self as deku_mc;
pub use deku;
pub use mc_core::{enumv, model, mutate, report, sexp, stream};
#[path = "../../mc/src/dynv.rs"]
pub mod dynv;
#[path = "../../mc/src/drive.rs"]
pub mod drive;
use deku::ctx::{ByteSize, Endian, Order};
use deku::no_std_io::{self, Seek, SeekFrom};
use deku::prelude::*;
use deku::{noseek::NoSeek, reader::Reader, writer::Writer, DekuReader, DekuWriter};
use drive::*;
use model::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(env!("C18_GEN")); }
#[global_allocator]
static G: report::Guard = report::Guard;

/// kinds of operation per input
const K: usize = 11;
const OPS: [&str; K] = ["from_bytes", "from_reader", "from_reader on a stream that cannot seek", "try_from", "to_slice", "to_slice with a short buffer", "update", "to_bytes", "into Vec", "from_bytes at bit 3", "to_bits"];
/// digest per case: 0 = not available in this combination
type Dig = Vec<u32>;
static OUT: Mutex<Vec<(String, usize, Dig)>> = Mutex::new(vec![]);
/// what a case is, for messages
type Describe = Box<dyn Fn(usize) -> String + Send + Sync>;
static DESC: Mutex<Option<HashMap<String, Describe>>> = Mutex::new(None);

fn h(x: &str) -> u32 {
    let mut s = 0u64;
    for b in x.bytes() { s = (s.rotate_left(5) ^ b as u64).wrapping_mul(0x517cc1b727220a95); }
    s ^= s >> 32;
    (s as u32).max(1)
}
fn kind(e: &DekuError) -> String {
    match e { DekuError::Io(k) => format!("Io({k:?})"), e => format!("{:?}", dynv::er(e)) }
}
fn run<T>(f: impl FnOnce() -> Result<T, DekuError>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(t)) => Ok(t), Ok(Err(e)) => Err(kind(&e)), Err(_) => Err(format!("panic {}", report::last_panic())) }
}
fn show(m: &Meta) -> String { m.decl.split_whitespace().collect::<Vec<_>>().join(" ") }

/// every string where the budget allows it, one-byte changes of three bases elsewhere (two-byte changes when thorough)
fn inputs(max: usize, hints: &[u8], budget: u64, mut f: impl FnMut(&[u8])) {
    if report::get().thorough { return enumv::inputs(max, hints, budget, f); }
    for len in 0..=max {
        if len < 60 && (1u64 << len) <= budget { enumv::strings(len, &enumv::alphabet(hints, enumv::width(len, budget)), &mut f); continue; }
        let a = enumv::alphabet(hints, 4);
        let asc: Vec<u8> = (0..len).map(|i| enumv::ASC[i % enumv::ASC.len()]).collect();
        for base in [vec![0; len], vec![0xff; len], asc] { enumv::ball(&base, &a, &[], &mut f); }
    }
}
/// an in-memory stream: the same code under every combination (std's and no_std_io2's cursors differ in where a failed read leaves them)
struct Mem<B>(B, u64);
impl<B: AsRef<[u8]>> no_std_io::Read for Mem<B> {
    fn read(&mut self, b: &mut [u8]) -> no_std_io::Result<usize> {
        let d = self.0.as_ref();
        let at = (self.1 as usize).min(d.len());
        let n = b.len().min(d.len() - at);
        b[..n].copy_from_slice(&d[at..at + n]);
        self.1 += n as u64;
        Ok(n)
    }
}
impl<B: AsMut<[u8]>> no_std_io::Write for Mem<B> {
    fn write(&mut self, b: &[u8]) -> no_std_io::Result<usize> {
        let d = self.0.as_mut();
        let at = (self.1 as usize).min(d.len());
        let n = b.len().min(d.len() - at);
        d[at..at + n].copy_from_slice(&b[..n]);
        self.1 += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> no_std_io::Result<()> { Ok(()) }
}
impl<B: AsRef<[u8]>> no_std_io::Seek for Mem<B> {
    fn seek(&mut self, p: SeekFrom) -> no_std_io::Result<u64> {
        let to = match p { SeekFrom::Start(n) => n as i128, SeekFrom::Current(n) => self.1 as i128 + n as i128, SeekFrom::End(n) => self.0.as_ref().len() as i128 + n as i128 };
        self.1 = u64::try_from(to).map_err(|_| no_std_io::Error::new(no_std_io::ErrorKind::InvalidInput, "out of range"))?;
        Ok(self.1)
    }
}
struct Buf<'a>(&'a mut [u8]);
impl AsRef<[u8]> for Buf<'_> { fn as_ref(&self) -> &[u8] { self.0 } }
impl AsMut<[u8]> for Buf<'_> { fn as_mut(&mut self) -> &mut [u8] { self.0 } }
fn outcomes<T: Full>(m: &Meta, b: &[u8], v: Option<&Val>) -> [Option<String>; K] {
    let stream = !m.tag("x:pad"); // padding reads or seeks, depending on `bits`
    let st = |c: u64, r: Result<(usize, T), String>| format!("{:?} at {c}", r.map(|(n, v)| (n, v.to_val())));
    let mut o: [Option<String>; K] = Default::default();
    o[0] = Some(format!("{:?}", run(|| T::from_bytes((b, 0)).map(|((r, o), v)| (v.to_val(), r.len(), o)))));
    if stream {
        let mut c = Mem(b, 0);
        let r = run(|| T::from_reader((&mut c, 0)));
        // where a failed read leaves the stream is not specified
        o[1] = Some(st(if r.is_ok() { c.1 } else { 0 }, r));
        let r = run(|| T::from_reader((&mut NoSeek::new(Mem(b, 0)), 0)));
        o[2] = Some(st(0, r));
    }
    o[3] = Some(format!("{:?}", run(|| T::try_from(b).map(|v| v.to_val()))));
    #[cfg(feature = "bits")]
    { o[9] = Some(format!("{:?}", run(|| T::from_bytes((b, 3)).map(|((r, o), v)| (v.to_val(), r.len(), o))))); }
    if let (Some(v), false) = (v, m.tag("nowrite")) {
        if !m.tag("x:unord") {
            let mut buf = [0xaau8; 300];
            o[4] = Some(format!("{:?}", run(|| T::from_val(v).to_slice(&mut buf)).map(|n| (n, buf))));
            let mut buf = [0xaau8; 1];
            o[5] = Some(format!("{:?}", run(|| T::from_val(v).to_slice(&mut buf)).map(|n| (n, buf))));
            #[cfg(feature = "alloc")]
            {
                o[7] = Some(format!("{:?}", run(|| T::from_val(v).to_bytes())));
                o[8] = Some(format!("{:?}", run(|| T::from_val(v).try_vec())));
            }
            #[cfg(all(feature = "alloc", feature = "bits"))]
            { o[10] = Some(format!("{:?}", run(|| T::from_val(v).to_bits().map(|b| b.iter().map(|x| *x as u8).collect::<Vec<_>>())))); }
        }
        o[6] = Some(format!("{:?}", run(|| { let mut t = T::from_val(v); t.update()?; Ok(t.to_val()) })));
    }
    o
}
fn one<T: Full>(m: &Meta, l: &mut Local, b: &[u8], dig: &mut Dig) {
    let r = report::get();
    let (mo, steps) = model_from_bytes(&m.rec, b, 0);
    l.trans += steps;
    report::enter(m.name, b);
    let val = match run(|| T::from_bytes((b, 0)).map(|((r, o), v)| (v.to_val(), r.len(), o))) { Ok(x) => Some(x.0), Err(_) => None };
    let first = val.as_ref().map_or(true, |v| l.see((m.name, v)));
    let o = outcomes::<T>(m, b, if first { val.as_ref() } else { None });
    report::leave();
    for (k, x) in o.iter().enumerate() {
        if let Some(x) = x {
            l.evals += 1;
            if x.contains("panic") { r.fail(&format!("{}:{}:panic", m.name, OPS[k]), format!("{}: {x} | input={} | {}", OPS[k], report::hex(b), show(m))); }
        }
        dig.push(x.as_ref().map_or(0, |x| h(x)));
    }
    if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; } else {
        l.traces += 1;
        let g = match run(|| T::from_bytes((b, 0)).map(|((r, o), v)| (v.to_val(), r.len(), o))) { Ok(x) => format!("{:?}", Ok::<_, ()>(x)), Err(e) => if e.starts_with("Io") { "Err(Io)".into() } else { format!("Err({e})") } };
        if g != match &mo { Ok(x) => format!("{:?}", Ok::<_, ()>(x)), Err(e) => format!("Err({e:?})") } { r.fail(&format!("{}:read", m.name), format!("expected={mo:?} got={g} | input={} | {}", report::hex(b), show(m))); }
    }
    let Some(v) = (if first && !m.tag("nowrite") && !m.tag("x:unord") { val } else { None }) else { return };
    let (mw, steps) = model_to_bytes(&m.rec, &v);
    l.trans += steps;
    if matches!(mw, Err(Er::Unspec)) { l.skipped += 1; return; }
    l.traces += 1;
    let want = match &mw { Ok(b) => format!("Ok({b:?})"), Err(Er::Io) => "Err(Io)".into(), Err(e) => format!("Err({e:?})") };
    let got: Result<Vec<u8>, String>;
    #[cfg(feature = "alloc")]
    { got = run(|| T::from_val(&v).to_bytes()); }
    #[cfg(not(feature = "alloc"))]
    { if m.tag("x:seek") { return; } let mut buf = [0xaau8; 300]; got = run(|| T::from_val(&v).to_slice(&mut buf)).map(|n| buf[..n].to_vec()); }
    let g = match &got { Ok(b) => format!("Ok({b:?})"), Err(e) => if e.starts_with("Io") { "Err(Io)".into() } else { format!("Err({e})") } };
    if g != want { r.fail(&format!("{}:write", m.name), format!("value={v:?} expected={want} got={g} | {}", show(m))); }
}
fn keep(name: &str, k: usize, d: Dig, f: Describe) {
    OUT.lock().unwrap().push((name.to_string(), k, d));
    DESC.lock().unwrap().get_or_insert_with(HashMap::new).insert(name.to_string(), f);
}
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let mut d = vec![];
            inputs(m.maxlen, m.hints, b, |x| one::<T>(&m, l, x, &mut d));
            let m2 = m.clone();
            keep(m.name, K, d, Box::new(move |i| {
                let mut n = 0; let mut s = String::new();
                inputs(m2.maxlen, m2.hints, b, |x| { if n == i / K {
                    let v = run(|| T::from_bytes((x, 0)).map(|y| y.1.to_val())).ok();
                    s = format!("{} of input [{}] gives {:?} | {}", OPS[i % K], report::hex(x), outcomes::<T>(&m2, x, v.as_ref())[i % K], show(&m2)); } n += 1; });
                s
            }));
        })));
    }
}
struct Sz(Vec<(String, String)>);
impl SizeVisitor for Sz {
    fn prog<T: Full + deku::DekuSize + 'static>(&mut self, m: Meta) { self.0.push((format!("size of {}", show(&m)), format!("{} {:?}", T::SIZE_BITS, T::SIZE_BYTES))); }
}
// ---- histories of the byte-level interface
#[derive(Clone, Copy, Debug)]
enum R { Bytes(usize), Const1, Const3, Start(u64), Cur(i64), End(i64), Query, U8, U16, U24, I16, Bool, Arr, Nz, Skip }
const ROPS: [R; 19] = [R::Bytes(0), R::Bytes(1), R::Bytes(2), R::Bytes(3), R::Const1, R::Const3, R::Start(1), R::Start(9), R::Cur(0), R::Cur(-1), R::Cur(1), R::End(-1), R::Query, R::U8, R::U16, R::U24, R::I16, R::Arr, R::Nz];
fn rop<S: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<S>, o: R) -> Result<String, DekuError> {
    Ok(match o {
        R::Bytes(n) => { let mut b = [0x55; 4]; let x = r.read_bytes(n, &mut b[..n], Order::Msb0)?; format!("{b:?}{}", matches!(x, deku::reader::ReaderRet::Bytes)) }
        R::Const1 => { let mut b = [0x55; 1]; r.read_bytes_const::<1>(&mut b, Order::Msb0)?; format!("{b:?}") }
        R::Const3 => { let mut b = [0x55; 3]; r.read_bytes_const::<3>(&mut b, Order::Lsb0)?; format!("{b:?}") }
        R::Start(n) => format!("{:?}", r.seek(SeekFrom::Start(n)).map_err(|e| format!("{:?}", e.kind()))),
        R::Cur(n) => format!("{:?}", r.seek(SeekFrom::Current(n)).map_err(|e| format!("{:?}", e.kind()))),
        R::End(n) => format!("{:?}", r.seek(SeekFrom::End(n)).map_err(|e| format!("{:?}", e.kind()))),
        R::Query => format!("{}", r.end()),
        R::U8 => format!("{:?}", u8::from_reader_with_ctx(r, ())?),
        R::U16 => format!("{:?}", u16::from_reader_with_ctx(r, Endian::Big)?),
        R::U24 => format!("{:?}", u32::from_reader_with_ctx(r, (Endian::Little, ByteSize(3)))?),
        R::I16 => format!("{:?}", i16::from_reader_with_ctx(r, (Endian::Little, ByteSize(2)))?),
        R::Bool => format!("{:?}", bool::from_reader_with_ctx(r, ())?),
        R::Arr => format!("{:?}", <[u16; 2]>::from_reader_with_ctx(r, Endian::Big)?),
        R::Nz => format!("{:?}", std::num::NonZeroU16::from_reader_with_ctx(r, Endian::Little)?),
        R::Skip => String::new(),
    })
}
#[derive(Clone, Copy, Debug)]
enum W { Bytes(usize), Start(u64), Cur(i64), End(i64), U8, U16, U24, I16, Bool, Arr, Fin }
const WOPS: [W; 15] = [W::Bytes(0), W::Bytes(1), W::Bytes(3), W::Start(0), W::Start(5), W::Cur(-1), W::Cur(1), W::End(0), W::U8, W::U16, W::U24, W::I16, W::Bool, W::Arr, W::Fin];
fn wop<S: no_std_io::Write + no_std_io::Seek>(w: &mut Writer<S>, o: W) -> Result<String, DekuError> {
    match o {
        W::Bytes(n) => w.write_bytes(&[0x12, 0x34, 0x56][..n])?,
        W::Start(n) => return Ok(format!("{:?}", w.seek(SeekFrom::Start(n)).map_err(|e| format!("{:?}", e.kind())))),
        W::Cur(n) => return Ok(format!("{:?}", w.seek(SeekFrom::Current(n)).map_err(|e| format!("{:?}", e.kind())))),
        W::End(n) => return Ok(format!("{:?}", w.seek(SeekFrom::End(n)).map_err(|e| format!("{:?}", e.kind())))),
        W::U8 => 0x9bu8.to_writer(w, ())?, W::U16 => 0x0102u16.to_writer(w, Endian::Big)?,
        W::U24 => 0x010203u32.to_writer(w, (Endian::Little, ByteSize(3)))?, W::I16 => (-2i16).to_writer(w, (Endian::Big, ByteSize(2)))?,
        W::Bool => true.to_writer(w, ())?, W::Arr => [0x0a0bu16, 0x0c0d].to_writer(w, Endian::Little)?, W::Fin => w.finalize()?,
    }
    Ok(String::new())
}
fn seqs<O: Copy>(ops: &[O], d: usize, mut f: impl FnMut(&[O])) {
    let n = ops.len().pow(d as u32);
    for mut i in 0..n { let mut s = vec![]; for _ in 0..d { s.push(ops[i % ops.len()]); i /= ops.len(); } f(&s); }
}
const DATA: [&[u8]; 3] = [&[], &[0x01, 0x80], &[0xff, 0x00, 0x7f, 0x01, 0xfe]];
fn read_hist(s: &[R], data: &[u8], seekable: bool) -> String {
    let go = |t: &mut Vec<String>, o: Result<String, String>, br: usize| t.push(format!("{o:?}@{br}"));
    let mut t = vec![];
    if seekable { let mut r = Reader::new(Mem(data, 0)); for o in s { let x = run(|| rop(&mut r, *o)); go(&mut t, x, r.bits_read); } t.push(format!("{}", r.end())); t.push(format!("{}", r.into_inner().1)); }
    else { let mut r = Reader::new(NoSeek::new(Mem(data, 0))); for o in s { let x = run(|| rop(&mut r, *o)); go(&mut t, x, r.bits_read); } t.push(format!("{}", r.end())); }
    t.join(" ")
}
fn write_hist(s: &[W], cap: usize) -> String {
    let mut t = vec![];
    let mut buf = [0xaau8; 16];
    { let mut w = Writer::new(Mem(Buf(&mut buf[..cap]), 0)); for o in s { let x = run(|| wop(&mut w, *o)); t.push(format!("{x:?}@{}", w.bits_written)); } t.push(format!("{:?}", run(|| w.finalize()))); }
    t.push(format!("{buf:?}"));
    t.join(" ")
}
fn histories(jobs: &mut Vec<(String, Job)>, depth: usize) {
    for (di, data) in DATA.iter().enumerate() { for seekable in [true, false] { for first in 0..ROPS.len() {
        let name = format!("reader history {di} {seekable} {:?}", ROPS[first]);
        jobs.push((name.clone(), Box::new(move |l| {
            let with = |s: &[R]| { let mut v = vec![ROPS[first]]; v.extend(s); v };
            let mut d = vec![];
            seqs(&ROPS, depth - 1, |s| { let x = read_hist(&with(s), data, seekable); l.evals += 1; l.trans += depth as u64; l.see(&x);
                if x.contains("panic") { report::get().fail(&format!("{name}:panic"), format!("{:?} on [{}]: {x}", with(s), report::hex(data))); }
                d.push(h(&x)); });
            keep(&name, 1, d, Box::new(move |i| { let mut n = 0; let mut r = String::new(); seqs(&ROPS, depth - 1, |s| { if n == i { let mut v = vec![ROPS[first]]; v.extend(s); r = format!("{v:?} on [{}] gives {}", report::hex(data), read_hist(&v, data, seekable)); } n += 1; }); r }));
        })));
    } } }
    for cap in [0usize, 3, 16] { for first in 0..WOPS.len() {
        let name = format!("writer history {cap} {:?}", WOPS[first]);
        jobs.push((name.clone(), Box::new(move |l| {
            let with = |s: &[W]| { let mut v = vec![WOPS[first]]; v.extend(s); v };
            let mut d = vec![];
            seqs(&WOPS, depth - 1, |s| { let x = write_hist(&with(s), cap); l.evals += 1; l.trans += depth as u64; l.see(&x);
                if x.contains("panic") { report::get().fail(&format!("{name}:panic"), format!("{:?} into {cap} bytes: {x}", with(s))); }
                d.push(h(&x)); });
            keep(&name, 1, d, Box::new(move |i| { let mut n = 0; let mut r = String::new(); seqs(&WOPS, depth - 1, |s| { if n == i { let mut v = vec![WOPS[first]]; v.extend(s); r = format!("{v:?} into {cap} bytes gives {}", write_hist(&v, cap)); } n += 1; }); r }));
        })));
    } }
}
fn misc() -> Vec<(String, String)> {
    let k = |e: DekuError| format!("{:?}", no_std_io::Error::from(e).kind());
    let mut v = vec![
        ("io kind of Incomplete".to_string(), k(DekuError::Incomplete(deku::error::NeedSize::new(9)))), ("io kind of Parse".into(), k(DekuError::Parse("x".into()))),
        ("io kind of InvalidParam".into(), k(DekuError::InvalidParam("x".into()))), ("io kind of Assertion".into(), k(DekuError::Assertion("x".into()))),
        ("io kind of IdVariantNotFound".into(), k(DekuError::IdVariantNotFound)), ("io kind of Io".into(), k(DekuError::Io(no_std_io::ErrorKind::UnexpectedEof))),
        ("sizes of NeedSize".into(), { let n = deku::error::NeedSize::new(9); format!("{} {}", n.bit_size(), n.byte_size()) }),
    ];
    let mut s = Sz(vec![]);
    zoo::visit_sizes(&mut s);
    v.extend(s.0);
    v
}
#[cfg(feature = "logging")]
mod logger {
    /// formats every record, as a real logger would
    pub struct L;
    impl log::Log for L {
        fn enabled(&self, _: &log::Metadata) -> bool { true }
        fn log(&self, r: &log::Record) { use std::fmt::Write; struct N; impl Write for N { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } } let _ = write!(N, "{}", r.args()); }
        fn flush(&self) {}
    }
}
fn load(p: &str) -> HashMap<String, Dig> {
    let b = std::fs::read(p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let mut m = HashMap::new(); let mut i = 0;
    let u = |i: &mut usize| { let x = u32::from_le_bytes(b[*i..*i + 4].try_into().unwrap()); *i += 4; x };
    while i < b.len() { let n = u(&mut i) as usize; let name = String::from_utf8(b[i..i + n].to_vec()).unwrap(); i += n; let c = u(&mut i) as usize; m.insert(name, (0..c).map(|_| u(&mut i)).collect()); }
    m
}
fn main() {
    let combo = std::env::var("C18_COMBO").unwrap_or_else(|_| "?".into());
    let r = report::init("C18", "model_checking", "every program of the zoo and of a slice of every product that a combination of library features can express x all bounded inputs x every read, write and update operation, all histories of byte-level reader and writer operations, error conversions and sizes, executed in one build per feature combination; checked: the model's prediction in every combination, and equality of every outcome (value, bytes, position, kind of error) with the reference combination (default features)");
    #[cfg(feature = "logging")]
    { static L: logger::L = logger::L; log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Trace); }
    let (budget, depth) = if r.thorough { (4000, 4) } else { (60, 3) };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    histories(&mut v.0, depth);
    v.0.push(("misc".into(), Box::new(|l| for (n, x) in misc() { l.evals += 1; l.see(&x); let y = x.clone(); keep(&n, 1, vec![h(&x)], Box::new(move |_| y.clone())); })));
    r.extra("budget_per_length", budget); r.extra("history_depth", depth);
    run_jobs(v.0);
    if let Ok(p) = std::env::var("C18_OUT") {
        let mut b = vec![];
        for (n, _, d) in OUT.lock().unwrap().iter() { b.extend((n.len() as u32).to_le_bytes()); b.extend(n.as_bytes()); b.extend((d.len() as u32).to_le_bytes()); for x in d { b.extend(x.to_le_bytes()); } }
        std::fs::write(p, b).unwrap();
    }
    let mut compared = 0u64; let mut names = vec![combo];
    for (c, p) in std::env::var("C18_OTHERS").unwrap_or_default().split_whitespace().filter_map(|x| x.split_once('=')) {
        names.push(c.to_string());
        let other = load(p);
        let desc = DESC.lock().unwrap();
        let desc = desc.as_ref().unwrap();
        let mut both = 0;
        for (n, _, d) in OUT.lock().unwrap().iter() {
            let Some(o) = other.get(n) else { continue };
            both += 1;
            if o.len() != d.len() { r.fail(&format!("{n}:{c}:cases"), format!("{} cases with {c}, {} with the default features", o.len(), d.len())); continue; }
            let mut bad = None; let mut count = 0;
            for i in 0..d.len() { if d[i] != 0 && o[i] != 0 { compared += 1; if d[i] != o[i] { count += 1; bad.get_or_insert(i); } } }
            if let Some(i) = bad { r.fail(&format!("{n}:{c}"), format!("{n}: features [{c}] and the default features differ in {count} cases; with the default features {}", desc[n](i))); }
        }
        if both == 0 { eprintln!("C18: nothing in common with {c}"); std::process::exit(2); }
    }
    for (c, p) in std::env::var("C18_BROKEN").unwrap_or_default().split_whitespace().filter_map(|x| x.split_once('=')) {
        let log = std::fs::read_to_string(p).unwrap_or_default();
        let at = log.lines().position(|x| x.starts_with("error")).unwrap_or(0);
        r.fail(&format!("build:{c}"), format!("programs that compile with the default features do not compile with features [{c}]: {}", log.lines().skip(at).take(12).collect::<Vec<_>>().join(" / ")));
    }
    if names.len() > 1 { r.extra("combinations", names.join(" | ")); r.extra("outcomes_compared_between_combinations", compared); }
    r.finish_and_exit()
}
