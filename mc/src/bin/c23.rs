//! C23: an incomplete error says how much the request that failed needs.
use deku::ctx::Order;
use deku::reader::Reader;
use deku::{DekuError, DekuReader, error::NeedSize};
use deku_mc::{conform::*, deku, drive::*, dynv::er, model::*, report::{self, hex}, stream::FStream};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c23.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
/// how a read of a (cut) message ended
#[derive(Debug, Clone, PartialEq)]
enum End { Ok, /// where the request that failed began, and what it needs
    Need(usize, usize), Err(Er), Panic(String) }
fn stream<T: Full>(b: &[u8], chunk: usize) -> End {
    let g = guard_er(|| {
        let mut s = FStream::new(b.to_vec());
        s.chunk = chunk;
        let mut r = Reader::new(&mut s);
        Ok(match T::from_reader_with_ctx(&mut r, ()) { Ok(_) => End::Ok, Err(DekuError::Incomplete(n)) => End::Need(r.bits_read, n.bit_size()), Err(e) => End::Err(er(&e)) })
    });
    match g { Got::Ok(e) => e, Got::Err(e) => End::Err(e), Got::Panic(p) => End::Panic(p) }
}
fn slice<T: Full>(b: &[u8], off: usize) -> End {
    let g = guard_er(|| Ok(match T::from_bytes((b, off)) { Ok(_) => End::Ok, Err(DekuError::Incomplete(n)) => End::Need(0, n.bit_size()), Err(e) => End::Err(er(&e)) }));
    match g { Got::Ok(e) => e, Got::Err(e) => End::Err(e), Got::Panic(p) => End::Panic(p) }
}
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        // where a read continues after a declared seek is not counted from the start of the message
        if m.tag("x:seek") { return; }
        let budget = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            accepted(&m, budget, l, |l, b, _, bits| {
                let n = bits.div_ceil(8).min(b.len());
                for cut in 0..n {
                    let have = 8 * cut;
                    let mut err = None;
                    let mut first = None;
                    for chunk in [0, 1] {
                        l.evals += 1; l.traces += 1;
                        let e = case(m.name, &b[..cut], || stream::<T>(&b[..cut], chunk));
                        match &e {
                            End::Need(p, need) => {
                                let end = p.saturating_add(*need);
                                if end <= have { err = Some(format!("{e:?}: reading stopped at bit {p} and asks for {need} bits, but {have} bits are there")); }
                                if end > bits { err = Some(format!("{e:?}: reading stopped at bit {p} and asks for {need} bits, but the message has only {bits} bits")); }
                                if err.is_none() {
                                    // what was asked for is enough to get past this point
                                    let more = &b[..end.div_ceil(8)];
                                    l.evals += 1; l.traces += 1;
                                    let g = case(m.name, more, || stream::<T>(more, chunk));
                                    match &g { End::Ok => {}, End::Need(q, _) if *q >= end || *q == end && *q > *p => {}, _ => err = Some(format!("{e:?}: with the {need} bits it asked for ({}): {g:?}", hex(more))) }
                                }
                                if first.is_none() { first = Some(*need); }
                            }
                            // padding at the very end may be missing from a stream; elements may end with it
                            End::Ok if m.tag("x:pad") || m.tag("x:all") => {}
                            _ if m.tag("x:all") => {}
                            _ => err = Some(format!("expected an incomplete error, got {e:?}")),
                        }
                        if let Some(x) = err { r.fail(&format!("{}:stream", m.name), format!("message={} cut to {cut} bytes: {x} | {}", hex(&b[..n]), show(&m))); return; }
                    }
                    l.evals += 1; l.traces += 1;
                    let g = case(m.name, &b[..cut], || slice::<T>(&b[..cut], 0));
                    match (&g, first) {
                        (End::Need(_, x), Some(y)) if *x == y => {}
                        (End::Need(_, x), None) if *x > 0 && have.saturating_add(*x) <= bits => {}
                        (End::Ok | End::Err(_), None) if m.tag("x:all") => {}
                        _ => { r.fail(&format!("{}:slice", m.name), format!("message={} of {bits} bits cut to {cut} bytes: from_bytes {g:?}, from a stream {first:?} | {}", hex(&b[..n]), show(&m))); return; }
                    }
                }
                // starting at a position the input does not reach
                for (len, off) in [(0, 8), (0, 13), (1, 16), (1, 23), (2, 40)] {
                    let len = len.min(b.len());
                    l.evals += 1; l.traces += 1;
                    let g = case(m.name, &b[..len], || slice::<T>(&b[..len], off));
                    if bits == 0 { continue; }
                    let most = off + bits - 8 * len;
                    if !matches!(&g, End::Need(_, x) if *x > 0 && *x <= most) && !m.tag("x:all") { r.fail(&format!("{}:offset", m.name), format!("{len} bytes of {} from bit {off}: {g:?}, but only {most} bits are missing | {}", hex(b), show(&m))); return; }
                }
                if l.distinct % 499 == 3 { r.sample(|| format!("{}: {} ({bits} bits), cut at 0..{n}", m.name, hex(b))); }
            });
        })));
    }
}
/// requests made directly: every position in a byte, with a byte given back, every amount and every end
fn requests(l: &mut Local) {
    let r = report::get();
    const D: [u8; 12] = [0x5a, 0xc3, 0x17, 0xee, 0x81, 0x24, 0x99, 0x36, 0xfd, 0x02, 0x7b, 0xd0];
    type Op = (String, usize, Box<dyn Fn(&mut Reader<&mut FStream>) -> Result<(), DekuError>>);
    let mut ops: Vec<Op> = vec![];
    for o in [Order::Msb0, Order::Lsb0] {
        for a in 1..=70usize { ops.push((format!("read_bits({a},{o:?})"), a, Box::new(move |r| r.read_bits(a, o).map(|_| ())))); }
        for a in 1..=9usize { ops.push((format!("read_bytes({a},{o:?})"), 8 * a, Box::new(move |r| r.read_bytes(a, &mut [0; 9], o).map(|_| ())))); }
        macro_rules! c { ($($n:literal)*) => { $(
            ops.push((format!("read_bytes_const({},{o:?})", $n), 8 * $n, Box::new(move |r| r.read_bytes_const(&mut [0u8; $n], o).map(|_| ()))));
            ops.push((format!("read_bytes_const_into({},{o:?})", $n), 8 * $n, Box::new(move |r| r.read_bytes_const_into(&mut [0u8; $n], o)))); )* } }
        c!(1 2 3 4 5 8 9);
    }
    // before the request: n bits read, or n bytes read and the end asked for
    for pre in 0..8 { for ask in [false, true] { for (name, amt, op) in &ops { for len in 0..D.len() {
        let start = if ask { 8 * (pre % 3) } else { pre };
        if ask && pre > 2 || start > 8 * len { continue; }
        l.evals += 1; l.traces += 1;
        let what = format!("{len} bytes, {start} bits read, end asked {ask}, then {name}");
        let g = case("@requests", what.as_bytes(), || guard_er(|| {
            let mut s = FStream::new(D[..len].to_vec());
            let mut rd = Reader::new(&mut s);
            if start > 0 { rd.read_bits(start, Order::Msb0).map_err(|e| er(&e))?; }
            if ask { rd.end(); }
            Ok(match op(&mut rd) { Ok(()) => End::Ok, Err(DekuError::Incomplete(n)) => End::Need(rd.bits_read, n.bit_size()), Err(e) => End::Err(er(&e)) })
        }));
        let fits = start + amt <= 8 * len;
        let ok = match &g { Got::Ok(End::Ok) => fits, Got::Ok(End::Need(p, n)) => !fits && *p == start && n == amt, _ => false };
        l.see((&what, fits));
        if !ok { r.fail("@requests", format!("{what}: {g:?}, expected {}", if fits { "success".into() } else { format!("{amt} bits needed from bit {start}") })); return; }
    } } } }
}
fn needsize(l: &mut Local) {
    for n in (0..=1025usize).chain((0..usize::BITS).flat_map(|k| { let p = 1usize << k; [p - 1, p, p.saturating_add(7), p.saturating_add(9)] })).chain([usize::MAX, usize::MAX - 7, usize::MAX - 8]) {
        l.evals += 1; l.see(("needsize", n));
        let s = NeedSize::new(n);
        let want = n / 8 + usize::from(n % 8 != 0);
        if s.bit_size() != n || s.byte_size() != want { report::get().fail("@needsize", format!("NeedSize::new({n}): {} bits, {} bytes, expected {want} bytes", s.bit_size(), s.byte_size())); }
    }
}
fn main() {
    let r = report::init("C23", "model_checking", "every non-seeking program x every input accepted by the model in the bounded input space x every cut position, from slices, whole streams and one-byte streams; what the error asks for is more than there is, no more than the rest of the message, and enough to get further; every direct request at every position, with a byte given back by the end-of-input query, against every end; NeedSize conversions");
    let budget = if r.thorough { 10_000 } else { 600 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    v.0.push(("@requests".into(), Box::new(requests)));
    v.0.push(("@needsize".into(), Box::new(needsize)));
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
