//! Conformance exploration: every input in the bounded space through model and implementation.
use crate::drive::*;
use crate::enumv::inputs;
use crate::model::*;
use crate::report::{get, hex};

#[derive(Clone, Copy)]
pub struct Ops { pub write: bool, pub roundtrip: bool, pub budget: u64, /// also write every single-site change of every value read
    pub mutants: bool }
impl Ops { pub fn all(budget: u64) -> Self { Ops { write: true, roundtrip: true, budget, mutants: false } } }

impl Ops { pub fn mutants(self) -> Self { Ops { mutants: true, ..self } } }

pub fn show(m: &Meta) -> String { m.decl.split_whitespace().collect::<Vec<_>>().join(" ") }

pub fn conform<T: Full>(m: &Meta, l: &mut Local, o: Ops) {
    let r = get();
    inputs(m.maxlen, m.hints, o.budget, |b| {
        l.evals += 1;
        let (mo, st) = model_from_bytes(&m.rec, b, 0);
        l.trans += st;
        let g = case(m.name, b, || impl_from_bytes::<T>(b, 0));
        if matches!(mo, Err(Er::Unspec)) { l.skipped += 1; if let Got::Panic(p) = &g { r.fail(&format!("{}:panic", m.name), format!("panic {p} | input={} | {}", hex(b), show(m))); } return; }
        l.traces += 1;
        if !same(&g, &mo) {
            r.fail(&format!("{}:read", m.name), format!("input={} expected={mo:?} got={g:?} | {}", hex(b), show(m)));
            return;
        }
        let Ok((v, _, _)) = &mo else { l.see((m.name, format!("{:?}", mo.as_ref().err()))); return };
        if !l.see((m.name, v)) { return; }
        if l.distinct % 997 == 3 && r.want_sample() { r.sample(|| format!("{}: {} -> {v:?}", m.name, hex(b))); }
        if !o.write || m.tag("nowrite") { return; }
        check_write::<T>(m, l, v, o.roundtrip && m.sym);
        if o.mutants { crate::mutate::rec_mutants(&m.rec, v, &mut |x| if l.see((m.name, 1u8, &x)) { check_write::<T>(m, l, &x, false); }); }
    });
}
/// write `v` through model and implementation; optionally read it back
pub fn check_write<T: Full>(m: &Meta, l: &mut Local, v: &Val, back: bool) {
    let r = get();
    l.evals += 1;
    let (mw, st) = model_to_bytes(&m.rec, v);
    l.trans += st;
    let g = case(m.name, &[], || impl_to_bytes::<T>(v));
    let unspec = matches!(mw, Err(Er::Unspec));
    if unspec {
        // the model does not fix the byte layout; the value must still come back if it is written at all
        l.skipped += 1;
        match &g {
            Got::Panic(p) => { r.fail(&format!("{}:wpanic", m.name), format!("panic {p} | value={v:?} | {}", show(m))); return }
            Got::Err(e) => { if back { r.fail(&format!("{}:roundtrip", m.name), format!("value={v:?} read from a stream is refused: {e:?} | {}", show(m))); } return }
            _ => {}
        }
    } else {
        l.traces += 1;
        if !same(&g, &mw) && !unordered_same(m, &g, &mw) { r.fail(&format!("{}:write", m.name), format!("value={v:?} expected={} got={} | {}", fmtb(&mw), fmtg(&g), show(m))); return; }
    }
    if !back { return; }
    if let Got::Err(e) = &g { r.fail(&format!("{}:refused", m.name), format!("value={v:?} read from a stream is refused on write: {e:?} | {}", show(m))); return; }
    if let Got::Ok(b) = &g {
        l.evals += 1;
        let rb = case(m.name, b, || guard(|| { let t = T::from_val(v); let (_, u) = T::from_bytes((b, 0))?; Ok((u.to_val(), t == u)) }));
        match rb {
            // floats: NaN compares unequal, so compare bit patterns
            Got::Ok((u, eq)) if &u == v && (eq || m.name.contains("f32") || m.name.contains("f64")) => {}
            x => r.fail(&format!("{}:roundtrip", m.name), format!("value={v:?} written={} read back={x:?} | {}", hex(b), show(m))),
        }
    }
}
pub fn fmtb(m: &Result<Vec<u8>, Er>) -> String { match m { Ok(b) => format!("[{}]", hex(b)), Err(e) => format!("{e:?}") } }
pub fn fmtg(m: &Got<Vec<u8>>) -> String { match m { Got::Ok(b) => format!("[{}]", hex(b)), x => format!("{x:?}") } }

/// sets and maps are written in an unspecified element order: tag "unord:<prefix bits>:<element bits>[:<suffix bits>]"
fn unordered_same(m: &Meta, g: &Got<Vec<u8>>, w: &Result<Vec<u8>, Er>) -> bool {
    let Some(t) = m.tags.iter().find_map(|t| t.strip_prefix("unord:")) else { return false };
    let (Got::Ok(g), Ok(w)) = (g, w) else { return false };
    let n: Vec<usize> = t.split(':').map(|x| x.parse().unwrap()).collect();
    let (p, e, s) = (n[0], n[1], n.get(2).copied().unwrap_or(0));
    let canon = |b: &[u8]| -> (Vec<bool>, Vec<Vec<bool>>) {
        let bits: Vec<bool> = b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect();
        let end = bits.len().saturating_sub(s).max(p.min(bits.len()));
        let mut c: Vec<Vec<bool>> = bits[p.min(bits.len())..end].chunks(e).map(|c| c.to_vec()).collect();
        c.sort();
        c.push(bits[end..].to_vec());
        (bits[..p.min(bits.len())].to_vec(), c)
    };
    canon(g) == canon(w)
}

/// every input of the bounded space that the model accepts (after skipping `off` bits), once per distinct
/// (value, consumed bits, consumed bytes): `f(input, value, consumed bits)`
pub fn accepted(m: &Meta, budget: u64, l: &mut Local, mut f: impl FnMut(&mut Local, &[u8], &Val, usize)) {
    let mut seen = std::collections::HashSet::new();
    inputs(m.maxlen, m.hints, budget, |b| {
        let (mo, st) = model_from_bytes(&m.rec, b, 0);
        l.trans += st;
        let Ok((v, rest, o)) = mo else { return };
        let bits = (b.len() - rest) * 8 + o;
        let used = bits.div_ceil(8);
        if !seen.insert((b[..used].to_vec(), bits)) { return; }
        l.see((m.name, &v, bits));
        f(l, b, &v, bits);
    });
    if seen.is_empty() { get().miss(m.name); }
}
