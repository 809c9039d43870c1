//! C03: the reader is a cursor over the bit stream for every sequence of requests.
//! Explicit-state exploration: breadth first over joint states (model cursor, observable reader state);
//! every transition is executed on a real reader by replaying the path that reached its state.
use deku::ctx::{BitSize, ByteSize, Endian, Order, ReadExact};
use deku::no_std_io::{Seek, SeekFrom};
use deku::reader::{Reader, ReaderRet};
use deku::DekuReader;
use deku_mc::{deku, drive::*, model::*, prim::dod, report, stream::FStream};
use std::collections::HashSet;
#[global_allocator]
static G: report::Guard = report::Guard;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bits(usize, Od), BitsInto(usize, Od), Bytes(usize, Od), Const(usize, Od), ConstInto(usize, Od), Skip(usize, Od),
    /// number read: width, bits, endian, order
    Num(u32, usize, En, Od), NumI(u32, usize, En, Od), NumBytes(u32, usize, En, Od), Byte, Exact(usize),
    End, Rest, Seek(u8, i64),
}
#[derive(Clone, Debug, PartialEq)]
enum Out { N(u128), B(Vec<u8>), Flag(bool), Pos(u64), None }
fn ops(len: usize, thorough: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for od in [Od::Msb, Od::Lsb] {
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 33, 64, 65] { v.push(Bits(n, od)); }
        for n in [1, 6, 8, 11, 24] { v.push(BitsInto(n, od)); }
        for n in [0, 1, 2, 3, 5] { v.push(Bytes(n, od)); }
        for n in [1, 2, 4] { v.push(Const(n, od)); v.push(ConstInto(n, od)); }
        for n in [0, 1, 3, 7, 8, 9, 16, 20, 24] { v.push(Skip(n, od)); }
        for en in [En::Big, En::Little] {
            for (w, n) in [(8, 3), (8, 8), (16, 5), (16, 11), (16, 16), (32, 12), (32, 19), (64, 33), (64, 1)] {
                if thorough || w <= 16 || n == 12 || n == 33 { v.push(Num(w, n, en, od)); }
            }
            for (w, n) in [(8, 3), (16, 9), (32, 17)] { v.push(NumI(w, n, en, od)); }
            for (w, n) in [(16, 2), (32, 3)] { v.push(NumBytes(w, n, en, od)); }
        }
    }
    v.extend([Byte, End, Rest]);
    for n in [0, 1, 2, 3, 6] { v.push(Exact(n)); }
    for n in [0, 1, 2, len as i64, len as i64 + 2] { v.push(Seek(0, n)); }
    for n in [-2, -1, 0, 1, 2] { v.push(Seek(1, n)); }
    for n in [0, -1, -2, 1] { v.push(Seek(2, n)); }
    v
}
/// model step
fn mstep(m: &mut Rd, op: Op) -> Result<Out, Er> {
    let num = |m: &mut Rd, w, bits: Option<i64>, bytes: Option<i64>, en, od, signed: bool| {
        let a = Args { endian: Some(en), order: Some(od), bits, bytes, ctx: vec![] };
        let t = if signed { Ty::I(w) } else { Ty::U(w) };
        read(&t, &a, None, m).map(|v| Out::N(v.num() as u128 & mask(w as usize)))
    };
    let bytes = |m: &mut Rd, n: usize, od| -> Result<Out, Er> {
        // all or nothing
        if m.avail() < n * 8 { return Err(Er::Incomplete); }
        let mut b = vec![];
        for _ in 0..n { b.push(m.take(8, od)? as u8); }
        Ok(Out::B(b))
    };
    match op {
        Op::Bits(n, od) | Op::BitsInto(n, od) => m.take(n, od).map(Out::N),
        Op::Bytes(n, od) | Op::Const(n, od) | Op::ConstInto(n, od) => bytes(m, n, od),
        Op::Exact(n) => bytes(m, n, Od::Msb),
        Op::Skip(n, od) => m.skip(n, od).map(|_| Out::None),
        Op::Num(w, n, en, od) => num(m, w, Some(n as i64), None, en, od, false),
        Op::NumI(w, n, en, od) => num(m, w, Some(n as i64), None, en, od, true),
        Op::NumBytes(w, n, en, od) => num(m, w, None, Some(n as i64), en, od, false),
        Op::Byte => num(m, 8, None, None, En::Little, Od::Msb, false),
        Op::End => Ok(Out::Flag(m.end())),
        Op::Rest => Ok(Out::None),
        Op::Seek(k, n) => m.seek(match k { 0 => Sk::Start(n as i128), 1 => Sk::Cur(n as i128), _ => Sk::End(n as i128) }).map(|_| Out::Pos(m.pos as u64)),
    }
}
/// real step
fn rstep<R: deku::no_std_io::Read + deku::no_std_io::Seek>(r: &mut Reader<R>, op: Op) -> Result<Out, deku::DekuError> {
    let fold = |b: &deku::bitvec::BitSlice<u8, deku::bitvec::Msb0>| b.iter().fold(0u128, |a, x| a << 1 | *x as u128);
    let de = |e| match e { En::Little => Endian::Little, En::Big => Endian::Big };
    macro_rules! konst { ($n:expr, $od:expr, $($k:literal),*) => { match $n { $($k => { let mut b = [0u8; $k]; match r.read_bytes_const::<$k>(&mut b, dod($od))? { ReaderRet::Bytes => {} _ => panic!("bits returned") } Out::B(b.to_vec()) })* _ => unreachable!() } } }
    macro_rules! kinto { ($n:expr, $od:expr, $($k:literal),*) => { match $n { $($k => { let mut b = [0u8; $k]; r.read_bytes_const_into::<$k>(&mut b, dod($od))?; Out::B(b.to_vec()) })* _ => unreachable!() } } }
    macro_rules! num { ($w:expr, $ctx:expr, $(($k:literal, $t:ty)),*) => { match $w { $($k => Out::N(<$t as DekuReader<_>>::from_reader_with_ctx(r, $ctx)? as u128 & mask($k)),)* _ => unreachable!() } } }
    Ok(match op {
        Op::Bits(n, od) => { let b = r.read_bits(n, dod(od))?.expect("bits"); assert_eq!(b.len(), n); Out::N(fold(&b)) }
        Op::BitsInto(n, od) => { let mut b = deku::bitvec::BitVec::<u8, deku::bitvec::Msb0>::repeat(true, n); r.read_bits_into(&mut b, dod(od))?; Out::N(fold(&b)) }
        Op::Bytes(n, od) => { let mut b = vec![0xeeu8; n + 1]; match r.read_bytes(n, &mut b, dod(od))? { ReaderRet::Bytes => {} _ => panic!("bits returned") } assert_eq!(b.pop(), Some(0xee), "read_bytes wrote past the requested amount"); Out::B(b) }
        Op::Const(n, od) => konst!(n, od, 1, 2, 4),
        Op::ConstInto(n, od) => kinto!(n, od, 1, 2, 4),
        Op::Exact(n) => Out::B(Vec::<u8>::from_reader_with_ctx(r, ReadExact(n))?),
        Op::Skip(n, od) => { r.skip_bits(n, dod(od))?; Out::None }
        Op::Num(w, n, en, od) => num!(w, (de(en), BitSize(n), dod(od)), (8, u8), (16, u16), (32, u32), (64, u64)),
        Op::NumI(w, n, en, od) => num!(w, (de(en), BitSize(n), dod(od)), (8, i8), (16, i16), (32, i32)),
        Op::NumBytes(w, n, en, od) => num!(w, (de(en), ByteSize(n), dod(od)), (16, u16), (32, u32)),
        Op::Byte => Out::N(u8::from_reader_with_ctx(r, ())? as u128),
        Op::End => Out::Flag(r.end()),
        Op::Rest => { r.rest(); Out::None }
        Op::Seek(k, n) => Out::Pos(r.seek(match k { 0 => SeekFrom::Start(n as u64), 1 => SeekFrom::Current(n), _ => SeekFrom::End(n) }).map_err(|e| deku::DekuError::Io(e.kind()))?),
    })
}
/// run a path on a fresh reader; observe after every step
fn replay(data: &[u8], path: &[Op], chunk: usize) -> Got<Vec<(Result<Out, Er>, usize, Vec<bool>, bool, u64)>> {
    guard_er(|| {
        let mut s = FStream::new(data.to_vec());
        s.chunk = chunk;
        let mut r = Reader::new(s);
        let mut out = vec![];
        for op in path {
            let o = rstep(&mut r, *op).map_err(|e| deku_mc::dynv::er(&e));
            let rest = r.rest();
            let high = r.as_mut().high;
            out.push((o, r.bits_read, rest, true, high));
        }
        Ok(out)
    })
}
fn bits_of(data: &[u8], pos: usize) -> Vec<bool> { data.get(pos).map(|b| (0..8).rev().map(|i| b >> i & 1 == 1).collect()).unwrap_or_default() }

struct Node<'a> { m: Rd<'a>, broken: bool, path: Vec<Op> }
fn explore(name: &str, data: &[u8], chunk: usize, dedupe: bool, depth: usize, ops: &[Op], l: &mut Local) {
    let r = report::get();
    let mut seen = HashSet::new();
    let mut todo = std::collections::VecDeque::new();
    todo.push_back(Node { m: Rd::new(data), broken: false, path: vec![] });
    seen.insert((Rd::new(data), false, vec![], 0usize));
    while let Some(n) = todo.pop_front() {
        if n.path.len() >= depth { continue; }
        for op in ops {
            // after a failed request only an absolute seek is specified
            if n.broken && !matches!(op, Op::Seek(0 | 2, _)) { continue; }
            let mut m = n.m.clone();
            m.steps = 0;
            let mo = mstep(&mut m, *op);
            let mut path = n.path.clone();
            path.push(*op);
            l.evals += 1; l.trans += 1; l.traces += 1;
            let g = case(name, data, || replay(data, &path, chunk));
            let bad = |why: String| r.fail(&format!("{:?}", op).split(['(', ',']).next().unwrap().to_lowercase(), format!("stream [{}] after {:?}: {why}", report::hex(data), path));
            let obs = match g { Got::Ok(o) => o, x => { bad(format!("{x:?}")); continue } };
            let (o, br, rest, _, high) = obs.last().unwrap().clone();
            if o != mo { bad(format!("expected {mo:?}, got {o:?}")); continue; }
            m.steps = 0;
            let broken = mo.is_err();
            if !broken {
                if br != m.bitpos() { bad(format!("position reported as {br} bits, expected {}", m.bitpos())); continue; }
                let w = m.rest_bits();
                if rest != w && !(w.is_empty() && (rest == bits_of(data, m.pos))) { bad(format!("unread bits reported as {rest:?}, expected {w:?}")); continue; }
                let _ = high;
            }
            if broken { m = n.m.clone(); }
            if m.pos > data.len() + 4 { continue; }
            // dedupe on everything observable: model cursor, failure, unread bits, reported position
            if dedupe && !seen.insert((m.clone(), broken, rest, br)) { continue; }
            l.states += 1; l.distinct += 1;
            if l.states % 401 == 5 { r.sample(|| format!("{path:?} on [{}] -> {mo:?}", report::hex(data))); }
            todo.push_back(Node { m, broken, path });
        }
    }
}
fn main() {
    let r = report::init("C03", "model_checking", "breadth-first search to a fixpoint over joint states (cursor model, observable reader state) with the whole operation alphabet (bit/byte/number/bulk reads, skips, seeks, end and rest queries, both bit orders), each transition replayed on a fresh real reader over whole and chunked streams; plus all sequences up to a fixed depth without state merging");
    let mut jobs: Vec<(String, Job)> = vec![];
    let t = r.thorough;
    for data in [&[][..], &[0x5a], &[0xc5, 0x3b], &[0x12, 0xfe, 0x77], &[0xa1, 0x4e, 0x93, 0x6d, 0x28], &[0x9e, 0x01, 0xb7, 0x62, 0xd8, 0x3c, 0x85, 0x4f, 0xe0, 0x1a]] {
        if data.len() > 5 && !t { continue; }
        for chunk in [0usize, 1] {
            if chunk == 1 && data.len() < 3 { continue; }
            let d = data.to_vec();
            jobs.push((format!("fix{}c{chunk}", d.len()), Box::new(move |l| explore("fixpoint", &d, chunk, true, 12, &ops(d.len(), t), l))));
        }
    }
    // no merging: every sequence of first operation x everything
    let d: &[u8] = &[0xa1, 0x4e, 0x93, 0x6d, 0x28];
    let small: Vec<Op> = { use Op::*; vec![Bits(3, Od::Msb), Bits(3, Od::Lsb), Bits(8, Od::Msb), Bits(13, Od::Lsb), Bytes(1, Od::Msb), Bytes(2, Od::Lsb), ConstInto(2, Od::Msb), Skip(9, Od::Msb), Skip(5, Od::Lsb), Num(16, 11, En::Big, Od::Msb), Num(16, 9, En::Little, Od::Lsb), Byte, Exact(2), End, Seek(0, 1), Seek(1, 1), Seek(1, -1), Seek(2, -1)] };
    let depth = if t { 6 } else { 5 };
    for first in 0..small.len() {
        let small = small.clone();
        jobs.push((format!("seq{first}"), Box::new(move |l| {
            // explore below a fixed first operation
            let mut m = Rd::new(d);
            if mstep(&mut m, small[first]).is_err() { return; }
            seqs(d, m, vec![small[first]], depth, &small, l);
        })));
    }
    r.extra("sequence_depth", depth);
    run_jobs(jobs);
    r.finish_and_exit()
}
/// depth-first without merging: complete sequences only are replayed (each replay checks its last step; prefixes are checked by shorter calls)
fn seqs(data: &'static [u8], m: Rd<'static>, path: Vec<Op>, depth: usize, ops: &[Op], l: &mut Local) {
    let r = report::get();
    for op in ops {
        let mut n = m.clone();
        let mo = mstep(&mut n, *op);
        let mut p = path.clone();
        p.push(*op);
        l.evals += 1; l.trans += 1; l.traces += 1; l.states += 1;
        let g = case("seq", data, || replay(data, &p, 0));
        let ok = match &g { Got::Ok(o) => { let (x, br, _, _, _) = o.last().unwrap(); *x == mo && (mo.is_err() || *br == n.bitpos()) } _ => false };
        if !ok { r.fail("sequence", format!("stream [{}] after {p:?}: expected {mo:?} at bit {}, got {:?}", report::hex(data), n.bitpos(), match g { Got::Ok(o) => format!("{:?}", o.last()), x => format!("{x:?}") })); continue; }
        if mo.is_err() || p.len() >= depth { continue; }
        seqs(data, n, p, depth, ops, l);
    }
}
