//! C06: I/O failures surface; short, slow and interrupted transfers are invisible.
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuError, DekuReader, DekuWriter};
use deku_mc::{conform::*, deku, drive::*, dynv::er, model::*, report::{self, hex}, stream::{Fault, FStream}};
use std::io::ErrorKind;
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c06.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
#[derive(Debug, Clone, PartialEq)]
enum Out<V> { Ok(V), Io(ErrorKind), Err(Er), Panic(String) }
fn run<V>(f: impl FnOnce() -> Result<V, DekuError>) -> Out<V> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => {
            // the error keeps its class when it is converted, and can be printed
            let (out, kind) = match &e {
                DekuError::Io(k) => (Out::Io(*k), *k),
                e => (Out::Err(er(e)), match er(e) { Er::Incomplete => ErrorKind::UnexpectedEof, Er::Parse | Er::Assertion => ErrorKind::InvalidData, Er::InvalidParam => ErrorKind::InvalidInput, _ => ErrorKind::NotFound }),
            };
            let text = e.to_string();
            let conv = std::io::Error::from(e).kind();
            if conv != kind || text.is_empty() { return Out::Panic(format!("{out:?} ({text}) is converted to an I/O error of kind {conv:?}", out = match out { Out::Io(k) => Out::<()>::Io(k), Out::Err(e) => Out::Err(e), _ => unreachable!() })); }
            out
        }
        Err(_) => Out::Panic(report::last_panic()),
    }
}
/// value and bits consumed
fn rd<T: Full>(s: &mut FStream) -> Out<(Val, usize)> {
    run(|| { let mut r = Reader::new(s); let v = T::from_reader_with_ctx(&mut r, ())?; Ok((v.to_val(), r.bits_read)) })
}
fn rd_top<T: Full>(s: &mut FStream) -> Out<(Val, usize)> { run(|| { let (n, v) = T::from_reader((s, 0))?; Ok((v.to_val(), n)) }) }
/// bits written
fn wr<T: Full>(v: &Val, s: &mut FStream) -> Out<usize> {
    run(|| { let mut w = Writer::new(s); T::from_val(v).to_writer(&mut w, ())?; w.finalize()?; Ok(w.bits_written) })
}
const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::BrokenPipe, ErrorKind::NotFound, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::WriteZero, ErrorKind::AlreadyExists, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::UnexpectedEof];
/// the end of file and `n - 1` others, all in turn
fn kinds(n: usize, turn: usize) -> Vec<ErrorKind> {
    let k = KINDS.len() - 1;
    if n > k { return KINDS.to_vec(); }
    (0..n - 1).map(|i| KINDS[(turn * (n - 1) + i) % k]).chain([ErrorKind::UnexpectedEof]).collect()
}
fn modes(k: usize, kind: ErrorKind) -> [Fault; 2] { [Fault::ErrFrom(k, kind), Fault::ErrAt(k, kind)] }
struct Vis(Vec<(String, Job)>, u64, usize);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let (budget, nk) = (self.1, self.2);
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            let name = m.name;
            let mut values = std::collections::HashSet::new();
            let mut turn = name.len();
            accepted(&m, budget, l, |l, b, v, bits| {
                turn += 1;
                // ---- reading
                let mut s = FStream::new(b.to_vec());
                let good = case(name, b, || rd::<T>(&mut s));
                let calls = s.calls;
                if good != Out::Ok((v.clone(), bits)) { r.fail(&format!("{name}:read"), format!("stream={}: expected {v:?} after {bits} bits, got {good:?} | {}", hex(b), show(&m))); return; }
                for chunk in 0..=3 { for interrupt in [false, true] { for top in [false, true] {
                    l.evals += 1; l.traces += 1;
                    let mut s = FStream::new(b.to_vec());
                    s.chunk = chunk; s.interrupt = interrupt;
                    let g = case(name, b, || if top { rd_top::<T>(&mut s) } else { rd::<T>(&mut s) });
                    if g != good { r.fail(&format!("{name}:short"), format!("stream={} in pieces of {chunk} interrupted={interrupt}: {g:?} instead of {good:?} | {}", hex(b), show(&m))); return; }
                } } }
                for kind in &kinds(nk, turn) { for k in 0..calls { for fault in modes(k, *kind) {
                    l.evals += 1; l.traces += 1; l.trans += 1;
                    let mut s = FStream::new(b.to_vec());
                    s.fault = fault;
                    let g = case(name, b, || rd::<T>(&mut s));
                    let ok = match &g {
                        Out::Io(x) => x == kind,
                        Out::Err(Er::Incomplete) if *kind == ErrorKind::UnexpectedEof => true,
                        // an end of file in the end-of-input query ends the list
                        Out::Ok(_) if *kind == ErrorKind::UnexpectedEof && m.tag("x:all") => true,
                        // a failed probe of the stream's length is ignored
                        x if !s.hit[0] && !(m.tag("x:seek") && s.hit[2]) => *x == good,
                        // a single failure of the end-of-input query is retried by the next read
                        x if m.tag("x:all") && matches!(fault, Fault::ErrAt(..)) => *x == good || *x == Out::Err(Er::Incomplete),
                        _ => false,
                    };
                    if !ok { r.fail(&format!("{name}:rfault"), format!("stream={} with {fault:?} of {calls} calls: {g:?} (fault-free: {good:?}) | {}", hex(b), show(&m))); return; }
                } } }
                // ---- writing, once per value
                if !values.insert(v.clone()) { return; }
                let mut s = FStream::new(vec![]);
                let good = case(name, b, || wr::<T>(v, &mut s));
                if !matches!(good, Out::Ok(_)) { return; } // refused values are C01's business
                let (calls, data) = (s.calls, s.data);
                for chunk in 1..=3 { for interrupt in [false, true] {
                    l.evals += 1; l.traces += 1;
                    let mut s = FStream::new(vec![]);
                    s.chunk = chunk; s.interrupt = interrupt;
                    let g = case(name, b, || wr::<T>(v, &mut s));
                    if g != good || s.data != data && !m.tag("x:unord") { r.fail(&format!("{name}:shortwrite"), format!("value={v:?} accepted in pieces of {chunk} interrupted={interrupt}: {g:?} [{}] instead of {good:?} [{}] | {}", hex(&s.data), hex(&data), show(&m))); return; }
                } }
                for kind in &kinds(nk, turn) { for k in 0..calls { for fault in modes(k, *kind) {
                    l.evals += 1; l.traces += 1; l.trans += 1;
                    let mut s = FStream::new(vec![]);
                    s.fault = fault;
                    let g = case(name, b, || wr::<T>(v, &mut s));
                    if g != Out::Io(*kind) { r.fail(&format!("{name}:wfault"), format!("value={v:?} with {fault:?} of {calls} calls: {g:?} | {}", show(&m))); return; }
                } } }
                // a full device
                if !m.tag("x:seek") { for cap in 0..data.len() {
                    l.evals += 1; l.traces += 1;
                    let mut s = FStream::new(vec![]);
                    s.cap = Some(cap);
                    let g = case(name, b, || wr::<T>(v, &mut s));
                    if g != Out::Io(ErrorKind::WriteZero) || s.data[..] != data[..cap] && !m.tag("x:unord") { r.fail(&format!("{name}:full"), format!("value={v:?} to a device of {cap} bytes: {g:?} holding [{}] of [{}] | {}", hex(&s.data), hex(&data), show(&m))); return; }
                } }
                if l.distinct % 199 == 3 { r.sample(|| format!("{name}: {} -> {v:?}: {calls} write calls", hex(b))); }
            });
        })));
    }
}
fn main() {
    let r = report::init("C06", "fault_enumeration", "every program x every accepted input of the bounded input space x every I/O call of the fault-free run failing once or from then on x error kinds, for reading and for writing; every piece size 1..=3 with and without interruptions; every device capacity");
    let (budget, kinds) = if r.thorough { (400, 14) } else { (96, 5) };
    let mut v = Vis(vec![], budget, kinds);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget); r.extra("error_kinds", kinds);
    run_jobs(v.0);
    r.finish_and_exit()
}
