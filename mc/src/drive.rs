//! Driver: programs (= derived types + model record) and generic operations on them.
use crate::dynv::{er, Dyn};
use crate::model::*;
use crate::report::{self, enter, get, leave};
use deku::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

#[cfg(all(feature = "bits", feature = "alloc"))]
pub type Bits = deku::bitvec::BitVec<u8, deku::bitvec::Msb0>;
pub trait Base: Dyn + Clone + PartialEq + std::fmt::Debug + for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate + for<'a> TryFrom<&'a [u8], Error = DekuError> {}
impl<T: Dyn + Clone + PartialEq + std::fmt::Debug + for<'a> DekuContainerRead<'a> + DekuContainerWrite + DekuUpdate + for<'a> TryFrom<&'a [u8], Error = DekuError>> Base for T {}
#[cfg(all(feature = "bits", feature = "alloc"))]
pub trait Full: Base {
    fn try_vec(self) -> Result<Vec<u8>, DekuError>;
    fn try_bits(self) -> Result<Bits, DekuError>;
}
#[cfg(all(feature = "bits", feature = "alloc"))]
impl<T: Base> Full for T
where Vec<u8>: TryFrom<T, Error = DekuError>, Bits: TryFrom<T, Error = DekuError> {
    fn try_vec(self) -> Result<Vec<u8>, DekuError> { Vec::try_from(self) }
    fn try_bits(self) -> Result<Bits, DekuError> { Bits::try_from(self) }
}
#[cfg(all(not(feature = "bits"), feature = "alloc"))]
pub trait Full: Base { fn try_vec(self) -> Result<Vec<u8>, DekuError>; }
#[cfg(all(not(feature = "bits"), feature = "alloc"))]
impl<T: Base> Full for T where Vec<u8>: TryFrom<T, Error = DekuError> { fn try_vec(self) -> Result<Vec<u8>, DekuError> { Vec::try_from(self) } }
#[cfg(not(feature = "alloc"))]
pub trait Full: Base {}
#[cfg(not(feature = "alloc"))]
impl<T: Base> Full for T {}

#[derive(Clone)]
pub struct Meta {
    pub name: &'static str,
    pub decl: &'static str,
    pub rec: Arc<Rec>,
    /// written values must read back equal
    pub sym: bool,
    /// encode(decode(bytes)) == bytes is expected
    pub maxlen: usize,
    pub hints: &'static [u8],
    pub tags: &'static [&'static str],
    /// deku_id of an enum (usize::MAX: of the program itself, else of that field)
    pub id: Option<(usize, fn(&Val) -> Result<Val, DekuError>)>,
}
impl Meta {
    pub fn tag(&self, t: &str) -> bool { self.tags.contains(&t) }
}
pub trait Visitor { fn prog<T: Full + 'static>(&mut self, m: Meta); }

/// programs with a static size
pub trait SizeVisitor { fn prog<T: Full + deku::DekuSize + 'static>(&mut self, m: Meta); }

/// outcome of an implementation call that may panic
#[derive(Clone, Debug, PartialEq)]
pub enum Got<T> { Ok(T), Err(Er), Panic(String) }
impl<T> Got<T> {
    pub fn ok(&self) -> Option<&T> { if let Got::Ok(t) = self { Some(t) } else { None } }
}
pub fn guard<T>(f: impl FnOnce() -> Result<T, DekuError>) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Got::Ok(t),
        Ok(Err(e)) => Got::Err(er(&e)),
        Err(_) => Got::Panic(report::last_panic()),
    }
}
pub fn guard_er<T>(f: impl FnOnce() -> Result<T, Er>) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Got::Ok(t),
        Ok(Err(e)) => Got::Err(e),
        Err(_) => Got::Panic(report::last_panic()),
    }
}
/// value, remaining bytes, bit offset in the first remaining byte
pub type Rb = (Val, usize, usize);
pub fn impl_from_bytes<T: Full>(b: &[u8], off: usize) -> Got<Rb> {
    guard(|| { let ((rest, o), v) = T::from_bytes((b, off))?; Ok((v.to_val(), rest.len(), o)) })
}
#[cfg(feature = "alloc")]
pub fn impl_to_bytes<T: Full>(v: &Val) -> Got<Vec<u8>> { guard(|| T::from_val(v).to_bytes()) }
pub fn impl_try_from<T: Full>(b: &[u8]) -> Got<Val> { guard(|| T::try_from(b).map(|v| v.to_val())) }

/// model counterpart of from_bytes: full consumption result
pub fn model_from_bytes(r: &Rec, b: &[u8], off: usize) -> (Result<Rb, Er>, u64) {
    let mut rd = Rd::new(b);
    let res = (|| {
        if off != 0 { rd.skip(off, Od::Msb)?; }
        let v = read_rec(r, &[], &mut rd)?;
        let p = rd.bitpos();
        if p / 8 > b.len() { return Err(Er::Incomplete); }
        Ok((v, b.len() - p / 8, p % 8))
    })();
    (res, rd.steps)
}
pub fn model_to_bytes(r: &Rec, v: &Val) -> (Result<Vec<u8>, Er>, u64) {
    let mut w = Wr::new();
    let res = write_rec(r, v, &[], &mut w).and_then(|_| w.finalize());
    let steps = w.steps;
    (res.map(|_| w.out), steps)
}
pub fn same<T: PartialEq>(g: &Got<T>, m: &Result<T, Er>) -> bool {
    match (g, m) {
        (_, Err(Er::Unspec)) => true,
        (Got::Ok(a), Ok(b)) => a == b,
        (Got::Err(a), Err(b)) => a == b,
        _ => false,
    }
}

// ---- work distribution
pub type Job = Box<dyn Fn(&mut Local) + Send + Sync>;
#[derive(Default)]
pub struct Local {
    pub evals: u64, pub distinct: u64, pub states: u64, pub trans: u64, pub traces: u64, pub skipped: u64,
    pub seen: std::collections::HashSet<u64>,
}
impl Local {
    /// count a distinct (non-trivial) outcome
    pub fn see(&mut self, h: impl std::hash::Hash) -> bool {
        use std::hash::*;
        let mut s = FxLike(0); h.hash(&mut s);
        let new = self.seen.insert(s.finish());
        if new { self.distinct += 1; self.states += 1; }
        new
    }
}
struct FxLike(u64);
impl std::hash::Hasher for FxLike {
    fn finish(&self) -> u64 { let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z ^ (z >> 27) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95); } }
}
pub fn run_jobs(jobs: Vec<(String, Job)>) {
    let r = get();
    let next = AtomicUsize::new(0);
    let only = std::env::var("ONLY").ok();
    // jobs that do not depend on generated programs (named @..) run with the first part only
    let rest = std::env::var("VERIF_CHUNK").is_ok_and(|c| !c.starts_with("0/"));
    let times = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (next, jobs, only, times) = (&next, &jobs, &only, &times);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || loop {
                let i = next.fetch_add(1, SeqCst);
                let Some((n, j)) = jobs.get(i) else { break };
                if let Some(o) = only { if !n.contains(o.as_str()) { continue; } }
                if rest && n.starts_with('@') { continue; }
                let mut l = Local::default();
                let t0 = std::time::Instant::now();
                if let Err(_) = catch_unwind(AssertUnwindSafe(|| j(&mut l))) {
                    leave();
                    let m = report::last_panic();
                    r.fail(&format!("{n}:harness"), format!("job {n}: unexpected panic outside a guarded call: {m}"));
                }
                times.lock().unwrap().push((t0.elapsed().as_millis(), n.clone()));
                r.add(&r.evals, l.evals); r.add(&r.distinct, l.distinct); r.add(&r.states, l.states);
                r.add(&r.transitions, l.trans); r.add(&r.traces, l.traces); r.add(&r.skipped, l.skipped);
            }).unwrap();
        }
    });
    if std::env::var("TIMES").is_ok() {
        let mut t = times.into_inner().unwrap(); t.sort(); t.reverse();
        for (ms, n) in t.iter().take(15) { eprintln!("  {ms} ms {n}"); }
    }
    r.extra("jobs", jobs.len());
}
pub fn case<T>(name: &str, input: &[u8], f: impl FnOnce() -> T) -> T {
    enter(name, input);
    let t = f();
    leave();
    t
}
