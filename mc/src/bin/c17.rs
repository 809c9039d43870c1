//! C17: hostile input cannot panic, hang or exhaust memory.
use deku::ctx::{BitSize, ByteSize, Limit, Order, ReadExact};
use deku::no_std_io::SeekFrom;
use deku::noseek::NoSeek;
use deku::prelude::*;
use deku::reader::Reader;
use deku::DekuReader;
use deku_mc::stream::FStream;
use deku_mc::{conform::*, drive::*, enumv, model::Er, report};
use no_std_io::Seek as _;
use std::collections::{HashMap, HashSet};
use std::io::Cursor;
mod no_std_io { pub use deku::no_std_io::{Read, Seek}; }
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c17.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;

fn one<T: Full>(m: &Meta, l: &mut Local, b: &[u8]) {
    let r = report::get();
    l.evals += 1;
    let (mo, st) = model_from_bytes(&m.rec, b, 0);
    l.trans += st;
    let g = case(m.name, b, || impl_from_bytes::<T>(b, 0));
    let bad = |what: &str, p: &str| r.fail(&format!("{}:{what}", m.name), format!("{p} | input={} | {}", report::hex(b), show(m)));
    if let Got::Panic(p) = &g { bad("panic", p); return; }
    if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; } else { l.traces += 1; if !same(&g, &mo) { bad("read", &format!("expected={mo:?} got={g:?}")); } }
    l.see((m.name, format!("{:?}", mo.as_ref().err()), mo.as_ref().ok().map(|x| (x.1, x.2))));
    let n = b.len() * 8;
    for off in [3, 8, n, n + 1, 1 << 40, usize::MAX - 7, usize::MAX] {
        l.evals += 1;
        if let Got::Panic(p) = case(m.name, b, || impl_from_bytes::<T>(b, off)) { bad("offset", &format!("bit offset {off}: {p}")); return; }
    }
    l.evals += 3;
    if let Got::Panic(p) = case(m.name, b, || impl_try_from::<T>(b)) { bad("tryfrom", &p); return; }
    // the number of stream operations stays proportional to the input
    let mut s = FStream::new(b.to_vec());
    let g = case(m.name, b, || guard(|| T::from_reader((&mut s, 0)).map(|_| ())));
    if let Got::Panic(p) = &g { bad("reader", p); return; }
    if s.calls > 64 + 64 * b.len() { bad("work", &format!("{} stream operations", s.calls)); return; }
    let g = case(m.name, b, || guard(|| { let mut s = NoSeek::new(Cursor::new(b)); T::from_reader((&mut s, 0)).map(|_| ()) }));
    if let Got::Panic(p) = &g { bad("noseek", p); }
}
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let mut hints = vec![0u8, 0xff];
            hints.extend(m.hints.iter().copied().filter(|x| *x != 0 && *x != 0xff));
            hints.extend([0x80, 0x7f, 1]);
            enumv::inputs(m.maxlen, &hints, b, |x| one::<T>(&m, l, x));
        })));
    }
}
// ---- the library interface driven directly with extreme arguments
const XS: [usize; 14] = [0, 1, 3, 8, 9, 64, 1 << 16, 1 << 32, (1 << 60) - 1, 1 << 61, i64::MAX as usize, 1 << 63, usize::MAX - 1, usize::MAX];
#[derive(Clone, Copy, Debug)]
enum Op { Skip(usize), Bits(usize), Bytes(usize), Start(u64), Cur(i64), End(i64), Query, Exact(usize), Count(u8, usize), ByB(u8, usize), ByBits(u8, usize), Num(u8, usize), NumB(u8, usize), Cstr(usize) }
fn lim<T: for<'a> DekuReader<'a, ()> + Eq + std::hash::Hash, R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, k: u8, l: Limit<T, fn(&T) -> bool>) -> Result<(), DekuError> {
    match k { 0 => Vec::<T>::from_reader_with_ctx(r, (l, ())).map(drop), 1 => Box::<[T]>::from_reader_with_ctx(r, (l, ())).map(drop), _ => HashSet::<T>::from_reader_with_ctx(r, (l, ())).map(drop) }
}
fn lims<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, k: u8, f: usize, n: usize) -> Result<(), DekuError> {
    macro_rules! mk { ($t:ty) => { match f { 0 => Limit::<$t, fn(&$t) -> bool>::new_count(n), 1 => Limit::new_byte_size(ByteSize(n)), _ => Limit::new_bit_size(BitSize(n)) } } }
    match k / 3 {
        0 => lim::<u8, R>(r, k % 3, mk!(u8)), 1 => lim::<u64, R>(r, k % 3, mk!(u64)), 2 => lim::<[u128; 40], R>(r, k % 3, mk!([u128; 40])),
        _ => HashMap::<u16, u32>::from_reader_with_ctx(r, (mk!((u16, u32)), ())).map(drop),
    }
}
fn nums<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, k: u8, c: impl Fn() -> Result<BitSize, ByteSize>) -> Result<(), DekuError> {
    macro_rules! n { ($($i:literal $t:ty),*) => { match (k, c()) { $(($i, Ok(b)) => <$t>::from_reader_with_ctx(r, b).map(drop), ($i, Err(b)) => <$t>::from_reader_with_ctx(r, b).map(drop),)* (_, Ok(b)) => u8::from_reader_with_ctx(r, (b, Order::Lsb0)).map(drop), (_, Err(b)) => u16::from_reader_with_ctx(r, (deku::ctx::Endian::Big, b, Order::Lsb0)).map(drop) } } }
    n!(0 u8, 1 u16, 2 u64, 3 i128, 4 i8)
}
fn apply<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, o: Op) -> Result<(), DekuError> {
    match o {
        Op::Skip(n) => { r.skip_bits(n, Order::Msb0)?; }
        Op::Bits(n) => { r.read_bits(n, if n % 2 == 1 { Order::Lsb0 } else { Order::Msb0 })?; }
        Op::Bytes(n) => { let mut b = vec![0; n]; r.read_bytes(n, &mut b, Order::Lsb0)?; }
        Op::Start(p) => { let _ = r.seek(SeekFrom::Start(p)); }
        Op::Cur(p) => { let _ = r.seek(SeekFrom::Current(p)); }
        Op::End(p) => { let _ = r.seek(SeekFrom::End(p)); }
        Op::Query => { r.end(); r.rest(); }
        Op::Exact(n) => { Vec::<u8>::from_reader_with_ctx(r, ReadExact(n))?; }
        Op::Count(k, n) => lims(r, k, 0, n)?, Op::ByB(k, n) => lims(r, k, 1, n)?, Op::ByBits(k, n) => lims(r, k, 2, n)?,
        Op::Num(k, n) => nums(r, k, || Ok(BitSize(n)))?, Op::NumB(k, n) => nums(r, k, || Err(ByteSize(n)))?,
        Op::Cstr(n) => { std::ffi::CString::from_reader_with_ctx(r, ByteSize(n))?; }
    }
    Ok(())
}
fn ops() -> Vec<Op> {
    let mut v = vec![Op::Query, Op::Bits(3), Op::Bits(4), Op::Bytes(1), Op::Bytes(3)];
    for n in XS {
        v.extend([Op::Skip(n), Op::Start(n as u64), Op::Cur(n as i64), Op::Cur((n as i64).wrapping_neg()), Op::End(n as i64), Op::End((n as i64).wrapping_neg()), Op::Exact(n), Op::Cstr(n)]);
        // reading that many bits or bytes needs a buffer of that size from the caller: only sizes a caller can have
        if n <= 64 { v.extend([Op::Bits(n), Op::Bytes(n)]); }
        for k in 0..10 { v.extend([Op::Count(k, n), Op::ByB(k, n), Op::ByBits(k, n)]); }
        for k in 0..6 { v.extend([Op::Num(k, n), Op::NumB(k, n)]); }
    }
    v
}
/// first operations of a history: those that leave the reader in distinct states
fn setups() -> Vec<Op> {
    let mut v = vec![Op::Query, Op::Bits(3), Op::Bits(4), Op::Bytes(1)];
    for n in XS { v.extend([Op::Skip(n), Op::Start(n as u64), Op::Cur(n as i64), Op::End(n as i64), Op::End((n as i64).wrapping_neg())]); }
    v
}
fn histories(l: &mut Local, first: Op, depth: usize) {
    let r = report::get();
    let setups = setups();
    let mut all: Vec<Vec<Op>> = vec![vec![first]];
    if depth > 2 { for s in &setups { all.push(vec![first, *s]); } }
    let name = format!("reader {first:?}");
    for data in [&[][..], &[0xff; 3][..], &[0x01, 0x80, 0x00, 0xff, 0x02, 0x03, 0x04, 0x05, 0x06][..]] {
        for pre in &all { for last in ops() { for kind in 0..2 {
            l.evals += 1; l.trans += pre.len() as u64 + 1; l.traces += 1;
            let mut done = vec![];
            let g = case(&name, data, || guard(|| {
                macro_rules! go { ($s:expr) => { { let mut rd = Reader::new($s); for o in pre.iter().chain([&last]) { done.push(*o); let _ = apply(&mut rd, *o); } rd.end(); rd.rest(); let _ = rd.bits_read; Ok(()) } } }
                if kind == 0 { go!(Cursor::new(data)) } else { go!(NoSeek::new(Cursor::new(data))) }
            }));
            l.see((format!("{:?}", last), kind, data.len(), done.len()));
            if let Got::Panic(p) = g { r.fail(&format!("api:{}:{}", format!("{first:?}").split('(').next().unwrap(), format!("{last:?}").split('(').next().unwrap()), format!("{done:?} on {} [{}]: {p}", ["a cursor", "a stream that cannot seek"][kind], report::hex(data))); }
        } } }
    }
}
fn main() {
    let r = report::init("C17", "model_checking", "every place a length, count, size, position or argument can come from the input (counts, byte and bit limits, dynamic bit and byte sizes, paddings, seeks, arguments, enum variants, nestings) x every width and signedness of it x element kinds, plus the zoo in the thorough tier, each over all byte strings of the extreme-value alphabet (00 ff 80 7f 01 ...) with at most `budget` strings per length, at start offsets 0, 3, 8, end, past end and maximal, from slices, streams and streams that cannot seek; histories of reader operations and container reads with extreme arguments; checked: result predicted by the model, no panic (overflow and debug assertions on), bounded single allocations and total growth, stream operations proportional to the input, termination");
    report::ALLOC_LIMIT.store(8 << 20, std::sync::atomic::Ordering::Relaxed);
    report::LIVE_LIMIT.store(16 << 20, std::sync::atomic::Ordering::Relaxed);
    let budget = if r.thorough { 20_000 } else { 260 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    let depth = if r.thorough { 3 } else { 2 };
    for f in if depth > 2 { setups() } else { setups() } { v.0.push((format!("@history {f:?}"), Box::new(move |l| histories(l, f, depth)))); }
    r.extra("budget_per_length", budget); r.extra("history_depth", depth);
    r.extra("single_allocation_limit", 8 << 20); r.extra("live_limit", 16 << 20);
    run_jobs(v.0);
    r.finish_and_exit()
}
