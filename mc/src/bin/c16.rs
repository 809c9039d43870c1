//! C16: seek attributes move to exactly the declared position, on read and on write.
use deku::noseek::NoSeek;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};
use deku_mc::{conform::*, deku, drive::*, enumv::inputs, model::*, mutate, report::{self, hex}, stream::FStream};
use std::io::{Cursor, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c16.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
/// streams without any seek of their own
struct Fwd<'a>(&'a [u8]);
impl Read for Fwd<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
struct Push<'a>(&'a mut Vec<u8>);
impl Write for Push<'_> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

/// position of the stream, value
type Pv = (Val, u64);
fn write_all<T: Full>(m: &Meta, l: &mut Local, v: &Val) {
    let r = report::get();
    // onto streams with content of several lengths, from several positions
    for (len, pos) in [(0usize, 0usize), (2, 0), (9, 0), (4, 2), (3, 3), (0, 2)] {
        l.evals += 1;
        let init: Vec<u8> = (0..len).map(|i| 0xe0 + i as u8).collect();
        let mut w = Wr { out: init.clone(), pos, ..Wr::new() };
        let mw = write_rec(&m.rec, v, &[], &mut w).and_then(|_| w.finalize()).map(|_| (w.out.clone(), w.pos as u64));
        l.trans += w.steps;
        if let Err(Er::Unspec) = mw { l.skipped += 1; return; }
        l.traces += 1;
        let mut run = |what: &str, g: Got<(Vec<u8>, u64)>| if !same(&g, &mw) && !m.tag("x:unord") {
            r.fail(&format!("{}:write", m.name), format!("{what}: value={v:?} onto {} at {pos}: expected {mw:?} got {g:?} | {}", hex(&init), show(m)));
        };
        run("cursor", case(m.name, &[], || guard(|| { let mut c = Cursor::new(init.clone()); c.set_position(pos as u64); let mut w = Writer::new(&mut c); T::from_val(v).to_writer(&mut w, ())?; w.finalize()?; let p = c.position(); Ok((c.into_inner(), p)) })));
        run("stream", case(m.name, &[], || guard(|| { let mut c = FStream::new(init.clone()); c.pos = pos as u64; let mut w = Writer::new(&mut c); T::from_val(v).to_writer(&mut w, ())?; w.finalize()?; Ok((c.data, c.pos)) })));
    }
    // a stream that cannot seek
    let mut w = Wr { fixed: true, ..Wr::new() };
    let mw = write_rec(&m.rec, v, &[], &mut w).and_then(|_| w.finalize()).map(|_| w.out.clone());
    if let Err(Er::Unspec) = mw { return; }
    l.traces += 1;
    let g = case(m.name, &[], || guard(|| { let mut s = vec![]; let mut w = Writer::new(NoSeek::new(Push(&mut s))); T::from_val(v).to_writer(&mut w, ())?; w.finalize()?; drop(w); Ok(s) }));
    if !same(&g, &mw) && !m.tag("x:unord") { r.fail(&format!("{}:noseek-write", m.name), format!("value={v:?} without seeking: expected {} got {} | {}", fmtb(&mw), fmtg(&g), show(m))); }
}
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            let seeks = m.tag("seek");
            let budget = if seeks { b } else { b / 4 };
            inputs(m.maxlen, m.hints, budget, |b| {
                // within a stream: the value starts at `at`, start and end are those of the stream
                for at in 0..if seeks { 3usize } else { 1 } {
                    if at > b.len() { break; }
                    l.evals += 1;
                    let mut rd = Rd::new(b);
                    rd.pos = at;
                    let mr = read_rec(&m.rec, &[], &mut rd).map(|v| (v, rd.pos as u64));
                    l.trans += rd.steps;
                    if let Err(Er::Unspec) = mr { l.skipped += 1; break; }
                    l.traces += 1;
                    if at != 0 && m.tag("x:off") { break; } // offsets count from where the reader started
                    let want: Result<Pv, Er> = mr.clone();
                    let g = case(m.name, b, || guard(|| { let mut c = FStream::new(b.to_vec()); c.pos = at as u64; let mut rd = Reader::new(&mut c); let v = T::from_reader_with_ctx(&mut rd, ())?; let p = if let Some(deku::reader::Leftover::Byte(_)) = rd.leftover { 1 } else { 0 }; drop(rd); Ok((v.to_val(), c.pos - p)) }));
                    if !same(&g, &want) { r.fail(&format!("{}:read", m.name), format!("input={} from {at}: expected={want:?} got={g:?} | {}", hex(b), show(&m))); return; }
                    let g = case(m.name, b, || guard(|| { let mut c = Cursor::new(b); c.set_position(at as u64); let mut rd = Reader::new(&mut c); Ok(T::from_reader_with_ctx(&mut rd, ())?.to_val()) }));
                    let wv = mr.clone().map(|x| x.0);
                    if !same(&g, &wv) { r.fail(&format!("{}:cursor", m.name), format!("input={} from {at}: expected={wv:?} got={g:?} | {}", hex(b), show(&m))); return; }
                    if at == 0 {
                        // a stream that cannot seek: every seek that does not move works, every other one is an error
                        let mut rd = Rd::new(b);
                        rd.fixed = true;
                        let mn = read_rec(&m.rec, &[], &mut rd);
                        if !matches!(mn, Err(Er::Unspec)) && !(m.tag("x:all") && (seeks || m.tag("x:seek") || m.tag("x:pad"))) {
                            l.traces += 1; l.trans += rd.steps;
                            let g = case(m.name, b, || guard(|| { let mut rd = Reader::new(NoSeek::new(Fwd(b))); Ok(T::from_reader_with_ctx(&mut rd, ())?.to_val()) }));
                            if !same(&g, &mn) { r.fail(&format!("{}:noseek", m.name), format!("input={} without seeking: expected={mn:?} got={g:?} | {}", hex(b), show(&m))); return; }
                        }
                    }
                    if let Ok((v, _)) = mr {
                        if !l.see((m.name, &v)) || m.tag("nowrite") { continue; }
                        write_all::<T>(&m, l, &v);
                        if seeks { mutate::rec_mutants(&m.rec, &v, &mut |x| if l.see((m.name, &x)) { write_all::<T>(&m, l, &x) }); }
                    }
                }
            });
        })));
    }
}
// ------------------------------------------------------------------ the adapter: all operation sequences
#[derive(Clone, Copy, Debug)]
enum Op { Read(usize), Exact(usize), Vectored, ToEnd, ToString_, Seek(SeekFrom), Pos, Rewind }
fn adapter_read(l: &mut Local, depth: usize) {
    let r = report::get();
    use Op::*;
    let ops = [Read(0), Read(1), Read(3), Exact(1), Exact(2), Exact(9), Vectored, ToEnd, ToString_, Seek(SeekFrom::Current(0)), Seek(SeekFrom::Current(1)), Seek(SeekFrom::Current(-1)), Seek(SeekFrom::Start(0)), Seek(SeekFrom::Start(1)), Seek(SeekFrom::Start(2)), Seek(SeekFrom::Start(3)), Seek(SeekFrom::Start(6)), Seek(SeekFrom::End(0)), Seek(SeekFrom::End(-6)), Pos, Rewind];
    let data = *b"abcdef";
    // what the adapter shows must be what was read; a seek succeeds exactly at the position itself and never moves
    for chunk in [0usize, 1, 2] {
        let mut stack = vec![vec![]];
        while let Some(seq) = stack.pop() {
            for op in ops {
                let mut seq: Vec<Op> = seq.clone();
                seq.push(op);
                l.evals += 1; l.states += 1; l.distinct += 1; l.traces += 1;
                let mut s = FStream::new(data.to_vec());
                s.chunk = chunk;
                let mut a = NoSeek::new(s);
                let mut pos = 0usize;
                let mut bad = None;
                for o in &seq {
                    l.trans += 1;
                    let lim = |n: usize| if chunk > 0 { n.min(chunk) } else { n };
                    let ok = match *o {
                        Read(n) => { let mut b = vec![0; n]; let k = lim(n).min(6 - pos); let g = a.read(&mut b).ok(); let ok = g == Some(k) && b[..k] == data[pos..pos + k]; pos += k; ok }
                        Exact(n) => {
                            let mut b = vec![0; n];
                            let g = a.read_exact(&mut b);
                            if n <= 6 - pos { let ok = g.is_ok() && b[..] == data[pos..pos + n]; pos += n; ok }
                            else { if g.is_ok() { bad = Some("read past the end"); } break } // where a failed read_exact leaves the stream is unspecified
                        }
                        Vectored => {
                            let (mut x, mut y) = ([0; 1], [0; 2]);
                            let g = a.read_vectored(&mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)]).ok();
                            let all = [x[0], y[0], y[1]];
                            let ok = g.is_some_and(|k| k <= 6 - pos && k <= 3 && (k > 0 || pos == 6) && all[..k] == data[pos..pos + k]);
                            pos += g.unwrap_or(0); ok
                        }
                        ToEnd => { let mut b = vec![]; let g = a.read_to_end(&mut b).ok(); let ok = g == Some(6 - pos) && b[..] == data[pos..]; pos = 6; ok }
                        ToString_ => { let mut b = String::new(); let g = a.read_to_string(&mut b).ok(); let ok = g == Some(6 - pos) && b.as_bytes() == &data[pos..]; pos = 6; ok }
                        Seek(SeekFrom::Current(0)) => a.seek(SeekFrom::Current(0)).ok() == Some(pos as u64),
                        Seek(SeekFrom::Start(n)) => { let g = a.seek(SeekFrom::Start(n)); if n == pos as u64 { g.ok() == Some(n) } else { g.is_err() } }
                        Seek(x) => a.seek(x).is_err(),
                        Pos => a.stream_position().ok() == Some(pos as u64),
                        Rewind => a.rewind().is_ok() == (pos == 0),
                    };
                    if !ok || a.get_ref().pos != pos as u64 || a.get_ref().seeks != 0 { bad = Some("wrong result or position"); break; }
                }
                if let Some(b) = bad { r.fail("noseek:ops", format!("{b} (expected position {pos}, stream at {}) after {seq:?} with chunk {chunk}", a.get_ref().pos)); return; }
                if seq.len() < depth { stack.push(seq); }
            }
        }
    }
}
fn adapter_write(l: &mut Local, depth: usize) {
    let r = report::get();
    #[derive(Clone, Copy, Debug)]
    enum Wo { Write(usize), All(usize), Vectored, Flush, Seek(SeekFrom), Pos }
    use Wo::*;
    let ops = [Write(0), Write(1), Write(3), All(0), All(1), All(3), Vectored, Flush, Seek(SeekFrom::Current(0)), Seek(SeekFrom::Current(2)), Seek(SeekFrom::Current(-1)), Seek(SeekFrom::Start(0)), Seek(SeekFrom::Start(1)), Seek(SeekFrom::Start(3)), Seek(SeekFrom::Start(4)), Seek(SeekFrom::End(0)), Pos];
    for chunk in [0usize, 1, 2] {
        let mut stack = vec![vec![]];
        while let Some(seq) = stack.pop() {
            for op in ops {
                let mut seq: Vec<Wo> = seq.clone();
                seq.push(op);
                l.evals += 1; l.states += 1; l.distinct += 1; l.traces += 1;
                let mut s = FStream::new(vec![]);
                s.chunk = chunk;
                let mut a = NoSeek::new(s);
                let mut want: Vec<u8> = vec![];
                let mut bad = false;
                for (i, o) in seq.iter().enumerate() {
                    l.trans += 1;
                    let data = [i as u8 + 1, i as u8 + 0x41, i as u8 + 0x81];
                    let pos = want.len() as u64;
                    let ok = match *o {
                        Write(n) => { let g = a.write(&data[..n]).unwrap(); want.extend_from_slice(&data[..g]); g == if chunk > 0 { n.min(chunk) } else { n } }
                        All(n) => { let g = a.write_all(&data[..n]).is_ok(); want.extend_from_slice(&data[..n]); g }
                        Vectored => { let g = a.write_vectored(&[IoSlice::new(&data[..1]), IoSlice::new(&data[1..])]).unwrap(); want.extend_from_slice(&data[..g]); g > 0 && g <= 3 }
                        Flush => a.flush().is_ok(),
                        Seek(SeekFrom::Current(0)) => a.seek(SeekFrom::Current(0)).ok() == Some(pos),
                        Seek(SeekFrom::Start(n)) => { let g = a.seek(SeekFrom::Start(n)); if n == pos { g.ok() == Some(n) } else { g.is_err() } }
                        Seek(x) => a.seek(x).is_err(),
                        Pos => a.stream_position().ok() == Some(pos),
                    };
                    if !ok || a.get_ref().data != want || a.get_ref().seeks != 0 { bad = true; break; }
                }
                if bad { r.fail("noseek:wops", format!("expected content {} got {} after {seq:?} with chunk {chunk}", hex(&want), hex(&a.get_ref().data))); return; }
                if seq.len() < depth { stack.push(seq); }
            }
        }
    }
}
fn main() {
    let r = report::init("C16", "model_checking", "seek kinds and targets x level (field, type, enum variant, nested) x what precedes x field kinds x other attributes; every bounded input read from three positions of a stream and from a stream that cannot seek; every value and its single-site changes written onto existing content; all operation sequences on the non-seeking adapter up to a depth");
    let (budget, depth) = if r.thorough { (50_000, 5) } else { (400, 4) };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    v.0.push(("@noseek-read".into(), Box::new(move |l| adapter_read(l, depth))));
    v.0.push(("@noseek-write".into(), Box::new(move |l| adapter_write(l, depth))));
    r.extra("budget_per_length", budget); r.extra("adapter_depth", depth);
    run_jobs(v.0);
    r.finish_and_exit()
}
