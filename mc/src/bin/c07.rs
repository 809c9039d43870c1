//! C07: consumption is accounted to the bit, so messages can be chained.
use deku::reader::Reader;
use deku::{DekuContainerRead, DekuReader};
use deku_mc::{conform::*, deku, drive::*, enumv, model::*, report::{self, hex}};
use std::io::Cursor;
use std::sync::{Arc, Mutex};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c07.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
/// one program, type-erased for chaining
#[derive(Clone)]
struct Erased {
    m: Meta,
    bytes: fn(&[u8], usize) -> Got<Rb>,
    read: fn(&mut Reader<Cursor<&[u8]>>) -> Got<(Val, usize)>,
    /// a few accepted inputs: bytes and bits consumed
    inputs: Arc<Mutex<Vec<(Vec<u8>, usize, Val)>>>,
}
fn one<T: Full>(r: &mut Reader<Cursor<&[u8]>>) -> Got<(Val, usize)> { guard(|| { let v = T::from_reader_with_ctx(r, ())?; Ok((v.to_val(), r.bits_read)) }) }
fn bits(b: &[u8], n: usize) -> Vec<bool> { (0..n).map(|i| b[i / 8] >> (7 - i % 8) & 1 == 1).collect() }
fn pack(b: &[bool]) -> Vec<u8> { b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u8) << (7 - i))).collect() }
struct Vis { jobs: Vec<(String, Job)>, budget: u64, all: Vec<Erased> }
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let budget = self.budget;
        let er = Erased { m: m.clone(), bytes: |b, o| impl_from_bytes::<T>(b, o), read: |r| one::<T>(r), inputs: Default::default() };
        let keep = er.inputs.clone();
        if !m.tag("x:seek") && !m.tag("x:all") { self.all.push(er); }
        self.jobs.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            let name = m.name;
            // ---- every offset, accepted or not, against the model
            for off in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 21] {
                enumv::inputs(m.maxlen + off.div_ceil(8), m.hints, budget, |b| {
                    l.evals += 1; l.traces += 1;
                    let (mo, st) = model_from_bytes(&m.rec, b, off);
                    l.trans += st;
                    let g = case(name, b, || impl_from_bytes::<T>(b, off));
                    if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; return; }
                    if !same(&g, &mo) { r.fail(&format!("{name}:offset"), format!("input={} from bit {off}: expected {mo:?}, got {g:?} | {}", hex(b), show(&m))); return; }
                    if let Ok((v, rest, o)) = &mo {
                        l.see((name, off, v));
                        let total = (b.len() - rest) * 8 + o;
                        let g = case(name, b, || guard(|| { let mut c = Cursor::new(b); let (n, v) = T::from_reader((&mut c, off))?; Ok((n, v.to_val())) }));
                        if g != Got::Ok((total, v.clone())) { r.fail(&format!("{name}:amount"), format!("stream={} from bit {off}: expected {total} bits and {v:?}, got {g:?} | {}", hex(b), show(&m))); }
                    }
                });
            }
            // ---- the same bits at every offset give the same value
            accepted(&m, budget * 4, l, |l, b, v, n| {
                { let mut k = keep.lock().unwrap(); if k.len() < 6 && !k.iter().any(|(_, x, _)| *x == n) || k.len() < 3 { k.push((b.to_vec(), n, v.clone())); } }
                if m.tag("x:seek") || m.tag("x:off") || m.tag("x:all") { return; }
                let msg = bits(b, n);
                for off in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 24] {
                    // lsb fields take the low end of each byte first: only whole bytes can be shifted
                    if m.tag("x:order") && off % 8 != 0 { continue; }
                    for junk in [0u32, 0xff5a_c3a7] { for tail in [&[][..], &[true, false, true, true, false]] {
                        let mut s: Vec<bool> = (0..off).map(|i| junk >> i & 1 == 1).collect();
                        s.extend(&msg);
                        if m.tag("x:order") { // whole bytes, as the message was
                            while s.len() % 8 != 0 { s.push(b[n / 8] >> (7 - (s.len() % 8)) & 1 == 1); }
                        }
                        s.extend(tail);
                        let x = pack(&s);
                        let want = (v.clone(), x.len() - (off + n) / 8, (off + n) % 8);
                        l.evals += 1; l.traces += 1;
                        let g = case(name, &x, || impl_from_bytes::<T>(&x, off));
                        if g != Got::Ok(want.clone()) { r.fail(&format!("{name}:shift"), format!("message [{}] ({n} bits) shifted by {off} bits: input={} expected {want:?}, got {g:?} | {}", hex(b), hex(&x), show(&m))); return; }
                    } }
                }
            });
        })));
    }
}
/// all ordered pairs: one message after the other
fn chain(a: &Erased, all: &[Erased], l: &mut Local) {
    let r = report::get();
    let ia = a.inputs.lock().unwrap().clone();
    for b in all {
        let ib = b.inputs.lock().unwrap().clone();
        for (xa, na, va) in &ia { for (xb, nb, vb) in &ib {
            // bit-contiguous messages (default bit order), or byte-wise concatenation
            let lsb = a.m.tag("x:order") || b.m.tag("x:order");
            if lsb && na % 8 != 0 { continue; }
            let mut s = bits(xa, *na);
            s.extend(bits(xb, *nb));
            while s.len() % 8 != 0 { let k = s.len() - na; s.push(lsb && xb[k / 8] >> (7 - k % 8) & 1 == 1); }
            let x = pack(&s);
            let what = || format!("{} then {} in [{}]", a.m.name, b.m.name, hex(&x));
            l.evals += 1; l.traces += 1; l.trans += 2;
            // through the returned remainder
            let g = case(a.m.name, &x, || (a.bytes)(&x, 0));
            match &g {
                Got::Ok((v, rest, o)) if v == va => {
                    let rest = &x[x.len() - rest..];
                    let g2 = case(b.m.name, rest, || (b.bytes)(rest, *o));
                    let end = na + nb;
                    let want: Rb = (vb.clone(), x.len() - end / 8, end % 8);
                    if !b.m.tag("x:off") && g2 != Got::Ok(want.clone()) { r.fail(&format!("{}:rest", a.m.name), format!("{}: second message from bit {o} of [{}]: expected {want:?}, got {g2:?}", what(), hex(rest))); }
                }
                x => r.fail(&format!("{}:first", a.m.name), format!("{}: first message: expected {va:?}, got {x:?}", what())),
            }
            // through one reader
            l.evals += 1; l.traces += 1;
            let mut rd = Reader::new(Cursor::new(&x[..]));
            let g1 = case(a.m.name, &x, || (a.read)(&mut rd));
            let g2 = case(b.m.name, &x, || (b.read)(&mut rd));
            if g1 != Got::Ok((va.clone(), *na)) || !b.m.tag("x:off") && g2 != Got::Ok((vb.clone(), na + nb)) { r.fail(&format!("{}:reader", a.m.name), format!("{} through one reader: expected {va:?} {na}, {vb:?} {}; got {g1:?}, {g2:?}", what(), na + nb)); }
        } }
    }
    l.states += 1;
}
fn main() {
    let r = report::init("C07", "model_checking", "every program x every bounded input x start bit offsets {0..8,11,16,21} against the cursor model (value, remainder, bit offset, amount); every accepted message re-read at 11 other offsets between other bits; all ordered pairs of messages of all non-seeking programs chained through the remainder and through one reader");
    let budget = if r.thorough { 1_000 } else { 80 };
    let mut v = Vis { jobs: vec![], budget, all: vec![] };
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(std::mem::take(&mut v.jobs));
    let all = Arc::new(std::mem::take(&mut v.all));
    r.extra("chained_programs", all.len());
    let mut jobs: Vec<(String, Job)> = vec![];
    for i in 0..all.len() { let all = all.clone(); jobs.push((format!("chain:{}", all[i].m.name), Box::new(move |l| chain(&all[i], &all, l)))); }
    run_jobs(jobs);
    r.finish_and_exit()
}
