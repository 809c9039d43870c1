//! C05: truncated input is reported as incomplete and never misread; trailing bytes change nothing.
use deku::reader::Reader;
use deku::DekuReader;
use deku_mc::{conform::*, deku, drive::*, model::*, report::{self, hex}, stream::FStream};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c05.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
/// read from a stream: value and bits consumed
fn stream<T: Full>(b: &[u8], chunk: usize) -> Got<(Val, usize)> {
    guard(|| {
        let mut s = FStream::new(b.to_vec());
        s.chunk = chunk;
        let mut r = Reader::new(&mut s);
        let v = T::from_reader_with_ctx(&mut r, ())?;
        Ok((v.to_val(), r.bits_read))
    })
}
fn model_stream(r: &Rec, b: &[u8]) -> Result<(Val, usize), Er> {
    let mut m = Rd::new(b);
    let v = read_rec(r, &[], &mut m)?;
    Ok((v, m.bitpos()))
}
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        // positions relative to the end depend on the end by declaration
        if m.tag("x:end") { return; }
        if m.tag("x:all") { return self.0.push((m.name.to_string(), to_end::<T>(m, self.1))); }
        let budget = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            accepted(&m, budget, l, |l, b, v, bits| {
                let used = bits.div_ceil(8);
                // furthest byte looked at: seeking types may consume less than they look at
                let far = far(&m.rec, b).max(used);
                // which byte is cut matters, not only whether: every cut position
                for cut in 0..far {
                    l.evals += 1; l.traces += 1;
                    let g = case(m.name, &b[..cut], || impl_from_bytes::<T>(&b[..cut], 0));
                    if g != Got::Err(Er::Incomplete) { r.fail(&format!("{}:slice", m.name), format!("input={} needs {far} bytes, but cut to {cut}: {g:?} | {}", hex(b), show(&m))); return; }
                    let mo = model_stream(&m.rec, &b[..cut]);
                    for chunk in [0, 1] {
                        l.evals += 1; l.traces += 1;
                        let g = case(m.name, &b[..cut], || stream::<T>(&b[..cut], chunk));
                        // only padding at the very end may be missing from a stream
                        let ok = match &mo { Err(Er::Incomplete) => g == Got::Err(Er::Incomplete), Ok(x) => m.tag("x:pad") && g.ok() == Some(x) || g == Got::Err(Er::Incomplete), _ => false };
                        if !ok { r.fail(&format!("{}:stream", m.name), format!("stream={} needs {far} bytes, but ends after {cut}: {g:?}, expected {mo:?} | {}", hex(b), show(&m))); return; }
                    }
                }
                for tail in [&[][..], &[0], &[0xff], &[0x5a, 0x01, 0x02], &[0; 9]] {
                    let mut x = b[..far].to_vec();
                    x.extend_from_slice(tail);
                    l.evals += 1; l.traces += 1;
                    let g = case(m.name, &x, || impl_from_bytes::<T>(&x, 0));
                    let want = (v.clone(), x.len() - bits / 8, bits % 8);
                    if g != Got::Ok(want.clone()) { r.fail(&format!("{}:tail", m.name), format!("input={} followed by [{}]: expected {want:?}, got {g:?} | {}", hex(&b[..far]), hex(tail), show(&m))); return; }
                    let g = case(m.name, &x, || stream::<T>(&x, 1));
                    if g.ok() != Some(&(v.clone(), bits)) { r.fail(&format!("{}:streamtail", m.name), format!("stream={}: expected {v:?} and {bits} bits, got {g:?} | {}", hex(&x), show(&m))); return; }
                }
                if l.distinct % 499 == 3 { r.sample(|| format!("{}: {} -> {v:?}, cut at 0..{far}", m.name, hex(b))); }
            });
        })));
    }
}
/// "until exhausted": fewer elements may be read from a cut input, but no element that is cut itself
fn to_end<T: Full + 'static>(m: Meta, budget: u64) -> Job {
    Box::new(move |l| {
        let r = report::get();
        accepted(&m, budget, l, |l, b, _, _| for cut in 0..b.len() {
            let b = &b[..cut];
            if !l.see((m.name, 'c', b)) { continue; }
            let (mo, _) = model_from_bytes(&m.rec, b, 0);
            if mo == Err(Er::Unspec) { l.skipped += 1; continue; }
            l.evals += 3; l.traces += 3;
            let g = case(m.name, b, || impl_from_bytes::<T>(b, 0));
            if !same(&g, &mo) { r.fail(&format!("{}:slice", m.name), format!("cut input={}: {g:?}, expected {mo:?} | {}", hex(b), show(&m))); return; }
            let mo = model_stream(&m.rec, b);
            for chunk in [0, 1] {
                let g = case(m.name, b, || stream::<T>(b, chunk));
                let late = m.tag("x:pad") && matches!(g, Got::Err(Er::Incomplete));
                if !same(&g, &mo) && !late { r.fail(&format!("{}:stream", m.name), format!("cut stream={}: {g:?}, expected {mo:?} | {}", hex(b), show(&m))); return; }
            }
        });
    })
}
/// number of leading bytes without which the model cannot read the value
fn far(r: &Rec, b: &[u8]) -> usize {
    (0..b.len()).rev().find(|n| model_from_bytes(r, &b[..*n], 0).0.is_err()).map_or(0, |n| n + 1)
}
fn main() {
    let r = report::init("C05", "model_checking", "every program not reading to or from the end x every input accepted by the model in the bounded input space x every cut position (from slices, whole streams and one-byte streams) x five kinds of trailing bytes");
    let budget = if r.thorough { 10_000 } else { 1_000 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
