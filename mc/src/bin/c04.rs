//! C04: the writer emits exactly the requested bits for every sequence of requests.
use deku::ctx::{BitSize, ByteSize};
use deku::no_std_io::{Seek, SeekFrom};
use deku::writer::Writer;
use deku::DekuWriter;
use deku_mc::{deku, drive::*, model::*, prim::*, report, stream::FStream};
use std::collections::HashSet;
#[global_allocator]
static G: report::Guard = report::Guard;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Bits(usize, Od), MsbBits(usize), Bytes(usize),
    /// width, bits, endian, order
    Num(u32, usize, En, Od), NumI(u32, usize, En, Od), NumBytes(u32, usize, En, Od), Whole(u32, En, Od), Plain, Pad(usize, Od),
    Finalize, Seek(u8, i64),
}
fn pattern(step: usize) -> u128 { 0xb7e1_5162_8aed_2a6a_bf71_5880_9cf4_f3c7u128.rotate_left(step as u32 * 29) }
fn ops(thorough: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for od in [Od::Msb, Od::Lsb] {
        for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 33] { v.push(Bits(n, od)); }
        for n in [0, 1, 5, 8, 9] { v.push(Pad(n, od)); }
        for en in [En::Big, En::Little] {
            for (w, n) in [(8, 0), (8, 3), (8, 8), (16, 5), (16, 8), (16, 11), (16, 16), (32, 12), (32, 19), (32, 24), (64, 33), (64, 1), (64, 61), (128, 66)] {
                if thorough || w <= 16 || n % 12 == 0 || n == 33 { v.push(Num(w, n, en, od)); }
            }
            for (w, n) in [(8, 3), (16, 9), (32, 17)] { v.push(NumI(w, n, en, od)); }
            for (w, n) in [(16, 1), (32, 3)] { v.push(NumBytes(w, n, en, od)); }
            for w in [16, 32] { v.push(Whole(w, en, od)); }
        }
    }
    v.extend([MsbBits(0), MsbBits(3), MsbBits(13), Bytes(0), Bytes(1), Bytes(2), Bytes(3), Plain, Finalize]);
    for n in [0, 1, 2, 6] { v.push(Seek(0, n)); }
    for n in [-1, 0, 1] { v.push(Seek(1, n)); }
    for n in [0, -1, 1] { v.push(Seek(2, n)); }
    v.push(Seek(1, -90));
    v
}
/// value written by a number operation: fits the declared bits
fn numval(step: usize, n: usize, signed: bool) -> Val {
    let p = pattern(step) & mask(n);
    if signed { Val::I(sext(p, n)) } else { Val::U(p) }
}
fn args(op: Op) -> (Ty, Args) {
    let a = |en, od, bits, bytes| Args { endian: Some(en), order: Some(od), bits, bytes, ctx: vec![] };
    match op {
        Op::Num(w, n, en, od) => (Ty::U(w), a(en, od, Some(n as i64), None)),
        Op::NumI(w, n, en, od) => (Ty::I(w), a(en, od, Some(n as i64), None)),
        Op::NumBytes(w, n, en, od) => (Ty::U(w), a(en, od, None, Some(n as i64))),
        Op::Whole(w, en, od) => (Ty::U(w), a(en, od, None, None)),
        _ => (Ty::U(8), Args::default()),
    }
}
fn mstep(m: &mut Wr, op: Op, step: usize) -> Result<Option<u64>, Er> {
    let p = pattern(step);
    match op {
        Op::Bits(n, od) => m.put(p & mask(n), n, od)?,
        Op::MsbBits(n) => m.put(p & mask(n), n, Od::Msb)?,
        Op::Pad(n, od) => m.put(0, n, od)?,
        Op::Bytes(n) => for i in 0..n { m.put((p >> (8 * i)) & 0xff, 8, Od::Msb)? },
        Op::Num(w, n, ..) => { let (t, a) = args(op); let _ = w; write(&t, &numval(step, n, false), &a, m)? }
        Op::NumI(w, n, ..) => { let (t, a) = args(op); let _ = w; write(&t, &numval(step, n, true), &a, m)? }
        Op::NumBytes(_, n, ..) => { let (t, a) = args(op); write(&t, &numval(step, n * 8, false), &a, m)? }
        Op::Whole(w, ..) => { let (t, a) = args(op); write(&t, &numval(step, w as usize, false), &a, m)? }
        Op::Plain => write(&Ty::U(8), &numval(step, 8, false), &Args::default(), m)?,
        Op::Finalize => m.finalize()?,
        Op::Seek(k, n) => { m.seek(match k { 0 => Sk::Start(n as i128), 1 => Sk::Cur(n as i128), _ => Sk::End(n as i128) })?; return Ok(Some(m.pos as u64)); }
    }
    Ok(None)
}
fn rstep<W: deku::no_std_io::Write + Seek>(w: &mut Writer<W>, op: Op, step: usize) -> Result<Option<u64>, deku::DekuError> {
    let p = pattern(step);
    let bits = |n: usize| -> deku::bitvec::BitVec<u8, deku::bitvec::Msb0> { (0..n).rev().map(|i| p >> i & 1 == 1).collect() };
    macro_rules! num { ($v:expr, $w:expr, $ctx:expr, $(($k:literal, $t:ty)),*) => { match $w { $($k => <$t as deku_mc::dynv::Dyn>::from_val(&$v).to_writer(w, $ctx)?,)* _ => unreachable!() } } }
    match op {
        Op::Bits(n, od) => w.write_bits_order(&bits(n), dod(od))?,
        Op::MsbBits(n) => w.write_bits(&bits(n))?,
        Op::Pad(n, od) => w.write_bits_order(&deku::bitvec::BitVec::<u8, deku::bitvec::Msb0>::repeat(false, n), dod(od))?,
        Op::Bytes(n) => w.write_bytes(&(0..n).map(|i| (p >> (8 * i)) as u8).collect::<Vec<_>>())?,
        Op::Num(k, n, en, od) => num!(numval(step, n, false), k, (den(en), BitSize(n), dod(od)), (8, u8), (16, u16), (32, u32), (64, u64), (128, u128)),
        Op::NumI(k, n, en, od) => num!(numval(step, n, true), k, (den(en), BitSize(n), dod(od)), (8, i8), (16, i16), (32, i32)),
        Op::NumBytes(k, n, en, od) => num!(numval(step, n * 8, false), k, (den(en), ByteSize(n), dod(od)), (16, u16), (32, u32)),
        Op::Whole(k, en, od) => num!(numval(step, k as usize, false), k, (den(en), dod(od)), (16, u16), (32, u32)),
        Op::Plain => num!(numval(step, 8, false), 8, (), (8, u8)),
        Op::Finalize => w.finalize()?,
        Op::Seek(k, n) => return Ok(Some(w.seek(match k { 0 => SeekFrom::Start(n as u64), 1 => SeekFrom::Current(n), _ => SeekFrom::End(n) }).map_err(|e| deku::DekuError::Io(e.kind()))?)),
    }
    Ok(None)
}
/// outcome of the last step, bits written, pending bits, output after finalizing
type Obs = (Result<Option<u64>, Er>, usize, Vec<bool>, Vec<u8>);
fn replay(path: &[Op]) -> Got<Obs> {
    guard_er(|| {
        let mut out = FStream::new(vec![]);
        let mut w = Writer::new(&mut out);
        let mut last = Ok(None);
        for (i, op) in path.iter().enumerate() { last = rstep(&mut w, *op, i).map_err(|e| deku_mc::dynv::er(&e)); }
        let (bw, rest) = (w.bits_written, w.rest());
        w.finalize().map_err(|e| deku_mc::dynv::er(&e))?;
        Ok((last, bw, rest, out.data))
    })
}
fn pending(m: &Wr) -> Vec<bool> {
    // more significant bits first; only one of the two ends is in use when orders are not mixed
    if m.hi < 8 { (m.hi..8).rev().map(|i| m.cur >> i & 1 == 1).collect() } else { (0..m.lo).rev().map(|i| m.cur >> i & 1 == 1).collect() }
}
fn finalized(m: &Wr) -> Result<Vec<u8>, Er> { let mut n = m.clone(); n.finalize()?; Ok(n.out) }
/// false: the path must not be extended
fn judge(m: &mut Wr, path: &[Op], l: &mut Local) -> bool {
    let r = report::get();
    let op = *path.last().unwrap();
    let before = m.clone();
    let mo = mstep(m, op, path.len() - 1);
    l.evals += 1;
    let g = case("writer", &[], || replay(path));
    if mo == Err(Er::Unspec) {
        l.skipped += 1;
        if let Got::Panic(p) = g { r.fail("panic", format!("after {path:?}: panic {p}")); }
        return false;
    }
    l.trans += 1; l.traces += 1;
    let what = format!("{op:?}").split(['(', ',']).next().unwrap().to_lowercase();
    let refused = mo.is_err();
    if refused { *m = before; if matches!(op, Op::Seek(..)) { let _ = m.finalize(); } }
    let want: Obs = (mo, m.written, pending(m), match finalized(m) { Ok(o) => o, Err(_) => return false });
    match g {
        Got::Ok(o) if o == want => !refused,
        x => { r.fail(&what, format!("after {path:?}: expected {want:02x?}, got {x:02x?}")); false }
    }
}
fn main() {
    let r = report::init("C04", "model_checking", "breadth-first search to a fixpoint over joint states (model writer: pending bits and order, position relative to the end, last operation) with the whole operation alphabet, and all unmerged operation sequences up to a fixed depth; after every sequence the output after finalizing, the pending bits and the bit counter of a fresh real writer are compared with the model");
    let all = ops(r.thorough);
    let mut jobs: Vec<(String, Job)> = vec![];
    // the model alone spans the graph; every transition is then replayed on the implementation
    let mut trans: Vec<(Wr, Vec<Op>)> = vec![];
    let mut seen = HashSet::new();
    let mut todo = std::collections::VecDeque::new();
    todo.push_back((Wr::new(), vec![]));
    let cap = if r.thorough { 9 } else { 7 };
    while let Some((m, path)) = todo.pop_front() {
        for op in &all {
            let mut p: Vec<Op> = path.clone(); p.push(*op);
            trans.push((m.clone(), p.clone()));
            let mut n = m.clone();
            if mstep(&mut n, *op, p.len() - 1).is_err() || p.len() >= cap { continue; }
            let rel = (n.out.len() as i64 - n.pos as i64).clamp(-2, 2);
            if !seen.insert((n.pending(), n.last, rel, *op)) { continue; }
            if seen.len() % 301 == 5 { r.sample(|| format!("{p:?} -> {:02x?} pending {}", n.out, n.pending())); }
            todo.push_back((n, p));
        }
    }
    r.add(&r.states, seen.len() as u64); r.add(&r.distinct, seen.len() as u64);
    r.extra("fixpoint_states", seen.len());
    let trans = std::sync::Arc::new(trans);
    let n = trans.len().div_ceil(64);
    for c in 0..64 {
        let trans = trans.clone();
        jobs.push((format!("fix{c}"), Box::new(move |l| for (m, p) in trans.iter().skip(c * n).take(n) { judge(&mut m.clone(), p, l); })));
    }
    use Op::*;
    let small: Vec<Op> = vec![Bits(3, Od::Msb), Bits(5, Od::Msb), Bits(3, Od::Lsb), Bits(5, Od::Lsb), Bits(8, Od::Lsb), Bits(11, Od::Msb), Bits(11, Od::Lsb), Bytes(2), Num(16, 11, En::Big, Od::Msb), Num(16, 9, En::Little, Od::Msb), Num(16, 9, En::Little, Od::Lsb), Num(64, 33, En::Big, Od::Msb), NumI(32, 17, En::Little, Od::Lsb), Whole(32, En::Big, Od::Lsb), Plain, Finalize, Seek(0, 1), Seek(1, 1), Seek(1, -1), Seek(2, 0), Seek(2, 1)];
    let depth = if r.thorough { 6 } else { 5 };
    for first in 0..small.len() { for second in 0..small.len() {
        let small = small.clone();
        jobs.push((format!("seq{first}.{second}"), Box::new(move |l| {
            let mut m = Wr::new();
            let p = vec![small[first]];
            if !judge(&mut m, &p, l) { return; }
            let p = vec![small[first], small[second]];
            if !judge(&mut m, &p, l) { return; }
            seqs(m, p, depth, &small, l);
        })));
    } }
    r.extra("sequence_depth", depth);
    r.extra("operations", all.len());
    run_jobs(jobs);
    r.finish_and_exit()
}
fn seqs(m: Wr, path: Vec<Op>, depth: usize, ops: &[Op], l: &mut Local) {
    for op in ops {
        let mut n = m.clone();
        let mut p = path.clone();
        p.push(*op);
        let ok = judge(&mut n, &p, l);
        l.states += 1;
        if ok && p.len() < depth { seqs(n, p, depth, ops, l); }
    }
}
