//! C14: all reading and writing entry points agree.
use deku::bitvec::{BitVec, Msb0};
use deku::noseek::NoSeek;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuContainerRead, DekuContainerWrite, DekuReader, DekuWriter};
use deku_mc::{conform::*, deku, drive::*, enumv, model::*, report::{self, hex}, stream::FStream};
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c14.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;

/// a stream that can only move forwards by reading: any other seek is refused
struct Fwd<'a>(&'a [u8]);
impl Read for Fwd<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }

type Nv = (Val, usize);
fn via<R: Read + Seek, T: Full>(s: R) -> Got<Nv> { guard(|| { let mut r = Reader::new(s); let v = T::from_reader_with_ctx(&mut r, ())?; Ok((v.to_val(), r.bits_read)) }) }
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let budget = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            let name = m.name;
            let seeks = m.tag("x:seek");
            let mut values = std::collections::HashSet::new();
            // ---- starting at a bit offset: bytes, a reader, and a reader that has skipped as much itself
            for off in [1usize, 4, 8, 13, 24] {
                enumv::inputs(m.maxlen + off.div_ceil(8), m.hints, budget / 12, |b| {
                    let (ms, st) = model_from_bytes(&m.rec, b, off);
                    l.trans += st;
                    let mr = { let mut rd = Rd::new(b); rd.skip(off, Od::Msb).and_then(|_| read_rec(&m.rec, &[], &mut rd)).map(|v| (v, rd.bitpos())) };
                    if matches!(mr, Err(Er::Unspec)) { l.skipped += 1; return; }
                    l.traces += 1;
                    macro_rules! chk { ($what:expr, $g:expr, $m:expr) => { { let g = case(name, b, || $g); l.evals += 1; if !same(&g, $m) { r.fail(&format!("{name}:{}", $what), format!("{}: input={} from bit {off}: expected {:?}, got {g:?} | {}", $what, hex(b), $m, show(&m))); return; } } } }
                    chk!("from_bytes at an offset", impl_from_bytes::<T>(b, off), &ms);
                    chk!("from_reader at an offset", guard(|| { let mut c = Cursor::new(b); let (n, v) = T::from_reader((&mut c, off))?; Ok((v.to_val(), n)) }), &mr);
                    chk!("reader after a skip", guard(|| { let mut rd = Reader::new(Cursor::new(b)); rd.skip_bits(off, deku::ctx::Order::Msb0)?; let v = T::from_reader_with_ctx(&mut rd, ())?; Ok((v.to_val(), rd.bits_read)) }), &mr);
                });
            }
            enumv::inputs(m.maxlen, m.hints, budget, |b| {
                l.evals += 1;
                // expected result of a slice and of a stream (padding may be missing at the end of a stream)
                let (ms, st) = model_from_bytes(&m.rec, b, 0);
                l.trans += st;
                let (mr, after) = { let mut rd = Rd::new(b); let v = read_rec(&m.rec, &[], &mut rd).map(|v| (v, rd.bitpos())); (v, rd.pos) };
                if matches!(mr, Err(Er::Unspec)) { l.skipped += 1; return; }
                l.traces += 1;
                let bad = |what: &str, got: String, want: String| r.fail(&format!("{name}:{what}"), format!("{what}: input={} expected {want}, got {got} | {}", hex(b), show(&m)));
                macro_rules! chk { ($what:expr, $g:expr, $m:expr) => { { let g = case(name, b, || $g); l.evals += 1; if !same(&g, $m) { bad($what, format!("{g:?}"), format!("{:?}", $m)); return; } } } }
                // ---- reading
                chk!("from_bytes", impl_from_bytes::<T>(b, 0), &ms);
                // the position of the stream is just behind the last byte touched
                let mp = mr.clone().map(|(v, n)| (v, n, after as u64));
                chk!("from_reader", guard(|| { let mut c = Cursor::new(b); let (n, v) = T::from_reader((&mut c, 0))?; let p = c.position(); Ok((v.to_val(), n, if m.tag("x:all") || seeks { after as u64 } else { p })) }), &mp);
                chk!("shared reader", via::<_, T>(Cursor::new(b)), &mr);
                chk!("stream", via::<_, T>(FStream::new(b.to_vec())), &mr);
                chk!("BufReader(1)", via::<_, T>(BufReader::with_capacity(1, Cursor::new(b))), &mr);
                chk!("BufReader(3)", via::<_, T>(BufReader::with_capacity(3, Cursor::new(b))), &mr);
                if !seeks { 
                    chk!("stream at 3", guard(|| {
                        let mut x = vec![0xa5; 3]; x.extend_from_slice(b);
                        let mut c = Cursor::new(&x[..]);
                        c.seek(SeekFrom::Start(3)).unwrap();
                        let (n, v) = T::from_reader((&mut c, 0))?;
                        Ok((v.to_val(), n))
                    }), &mr);
                    chk!("after another", guard(|| {
                        let mut x = vec![0x5a; 2]; x.extend_from_slice(b);
                        let mut c = Cursor::new(&x[..]);
                        let mut rd = Reader::new(&mut c);
                        let mut head = [0u8; 2];
                        rd.read_bytes(2, &mut head, deku::ctx::Order::Msb0)?;
                        let v = T::from_reader_with_ctx(&mut rd, ())?;
                        Ok((v.to_val(), rd.bits_read - 16))
                    }), &if m.tag("x:off") { Err(Er::Unspec) } else { mr.clone() });
                    if !m.tag("x:pad") { chk!("unseekable", via::<_, T>(NoSeek::new(Fwd(b))), &mr); }
                }
                // conversion: everything up to the padding of the last byte has to be consumed
                let mt = match &mr { Ok((v, n)) => match n.div_ceil(8).cmp(&b.len()) { std::cmp::Ordering::Equal => Ok(v.clone()), std::cmp::Ordering::Less => Err(Er::Parse), _ => Err(Er::Incomplete) }, Err(e) => Err(*e) };
                chk!("try_from", impl_try_from::<T>(b), &mt);
                // ---- writing
                let Ok((v, _)) = mr else { return };
                if !l.see((name, &v)) || !values.insert(v.clone()) { return; }
                let mut w = Wr::new();
                let mw = write_rec(&m.rec, &v, &[], &mut w);
                l.trans += w.steps;
                let bad = |what: &str, got: String, want: String| r.fail(&format!("{name}:{what}"), format!("{what}: value={v:?} expected {want}, got {got} | {}", show(&m)));
                // the model may decline; then the entry points are compared with to_bytes
                let g = case(name, b, || impl_to_bytes::<T>(&v));
                let mo: Result<Vec<u8>, Er> = match (&mw, &g) {
                    (Err(Er::Unspec), Got::Ok(x)) => Ok(x.clone()),
                    (Err(Er::Unspec), Got::Err(e)) => Err(*e),
                    _ if m.tag("x:unord") => match &g { Got::Ok(x) => Ok(x.clone()), _ => mw.and_then(|_| w.clone().finalize()).map(|_| vec![]) },
                    (Ok(_), _) => { let mut x = w.clone(); x.finalize().map(|_| x.out) },
                    (Err(e), _) => Err(*e),
                };
                let unord = m.tag("x:unord");
                let eq = |a: &[u8], b: &[u8]| a == b || unord && { let (mut a, mut b) = (a.to_vec(), b.to_vec()); a.sort(); b.sort(); a == b };
// elements not on byte boundaries
                if m.tags.iter().any(|t| t.strip_prefix("unord:").is_some_and(|t| m.tag("nowrite") || t.split(':').any(|n| n.parse::<usize>().unwrap() % 8 != 0))) { return; }
                macro_rules! wchk { ($what:expr, $g:expr, $m:expr) => { { let g = case(name, b, || $g); l.evals += 1; let want: Result<Vec<u8>, Er> = $m;
                    let ok = match (&g, &want) { (Got::Ok(a), Ok(b)) => eq(a, b), (Got::Err(a), Err(b)) => a == b, _ => false };
                    if !ok { bad($what, fmtg(&g), fmtb(&want)); return; } } } }
                wchk!("to_bytes", g.clone(), mo.clone());
                wchk!("TryFrom for Vec", guard(|| T::from_val(&v).try_vec()), mo.clone());
                wchk!("stream", guard(|| { let mut s = FStream::new(vec![]); let mut w = Writer::new(&mut s); T::from_val(&v).to_writer(&mut w, ())?; w.finalize()?; Ok(s.data) }), mo.clone());
                wchk!("reference", guard(|| { let t = T::from_val(&v); let mut c = Cursor::new(vec![]); let mut w = Writer::new(&mut c); (&&t).to_writer(&mut w, ())?; w.finalize()?; Ok(c.into_inner()) }), mo.clone());
                if !seeks {
                    wchk!("unseekable", guard(|| { let mut s: Vec<u8> = vec![]; let mut w = Writer::new(NoSeek::new(Push(&mut s))); T::from_val(&v).to_writer(&mut w, ())?; w.finalize()?; drop(w); Ok(s) }), mo.clone());
                    // after earlier content, whole bytes and bits
                    for k in [8usize, 16, 1, 3, 7] {
                        if m.tag("x:off") || k % 8 != 0 && (m.tag("x:order") || unord) { continue; }
                        let mut w = Wr::new();
                        let lead = 0x5a5a & mask(k);
                        let want = w.put(lead, k, Od::Msb).and_then(|_| write_rec(&m.rec, &v, &[], &mut w)).and_then(|_| w.finalize()).map(|_| w.out);
                        if matches!(want, Err(Er::Unspec)) { continue; }
                        if unord { continue; }
                        wchk!("after earlier content", guard(|| {
                            let mut c = Cursor::new(vec![]);
                            let mut w = Writer::new(&mut c);
                            let bits: BitVec<u8, Msb0> = (0..k).rev().map(|i| lead >> i & 1 == 1).collect();
                            w.write_bits(&bits)?;
                            T::from_val(&v).to_writer(&mut w, ())?;
                            w.finalize()?;
                            Ok(c.into_inner())
                        }), want);
                    }
                    // the exact bits, unpadded
                    if !matches!(mw, Err(Er::Unspec)) {
                        let p = w.pending();
                        let part: Vec<bool> = (0..8u8).rev().filter(|i| *i >= w.hi || *i < w.lo).map(|i| w.cur >> i & 1 == 1).collect();
                        let mut bits: BitVec<u8, Msb0> = BitVec::from_slice(&w.out);
                        bits.extend(&part);
                        let whole = w.out.len();
                        for (what, g) in [("to_bits", case(name, b, || guard(|| T::from_val(&v).to_bits()))), ("TryFrom for BitVec", case(name, b, || guard(|| T::from_val(&v).try_bits())))] {
                            l.evals += 1;
                            let ok = match (&g, &mo) {
                                (Got::Ok(a), Ok(_)) if unord => a.len() == bits.len(),
                                // both bit orders in the last byte: only its length is fixed
                                (Got::Ok(a), Ok(_)) if w.lo > 0 && w.hi < 8 => a.len() == whole * 8 + p && a[..whole * 8] == bits[..whole * 8],
                                (Got::Ok(a), Ok(_)) => *a == bits, (Got::Err(a), Err(b)) => a == b, _ => false };
                            if !ok { bad(what, format!("{g:?}"), format!("{bits:?} ({mo:?})")); return; }
                        }
                    }
                }
                // every buffer length
                if m.tag("x:end") { return; } // the end of a buffer is not the end of a growing stream
                let need = match &mo { Ok(x) => x.len(), Err(_) => 2 };
                for n in 0..=need + 2 { for fill in [0u8, 0xee] {
                    if seeks && fill != 0 { continue; }
                    l.evals += 1;
                    let mut buf = vec![fill; n];
                    let g = case(name, b, || guard(|| T::from_val(&v).to_slice(&mut buf)));
                    let ok = match (&g, &mo) {
                        (Got::Ok(k), Ok(x)) => n >= need && (*k == need || seeks) && eq(&buf[..need], x) && buf[need..].iter().all(|c| *c == fill),
                        (Got::Err(Er::Io), Ok(x)) => n < need && (seeks || unord || buf.iter().zip(x).all(|(a, b)| a == b || *a == fill)),
                        (Got::Err(a), Err(b)) => a == b || n < 64 && *a == Er::Io,
                        _ => false,
                    };
                    if !ok { bad("to_slice", format!("{g:?} in [{}]", hex(&buf)), format!("{} in a buffer of {n}", fmtb(&mo))); return; }
                } }
                if l.distinct % 499 == 3 { r.sample(|| format!("{name}: {} -> {v:?} -> {}", hex(b), fmtb(&mo))); }
            });
        })));
    }
}
struct Push<'a>(&'a mut Vec<u8>);
impl Write for Push<'_> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let r = report::init("C14", "model_checking", "every program x every input of the bounded input space through eight reading entry points and conversions, every value produced through eight writing entry points and every buffer length from zero to beyond the needed size, each compared with the reference model");
    let budget = if r.thorough { 10_000 } else { 1_000 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
