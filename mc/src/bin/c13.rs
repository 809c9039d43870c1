//! C13: update recomputes exactly the declared fields; writing is pure.
use deku_mc::{conform::*, drive::*, model::*, mutate, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c13.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64, usize);

/// every way of writing `t`; the bytes of each
fn writes<T: Full>(t: &T) -> Vec<Got<Vec<u8>>> {
    let mut buf = vec![0u8; 4096];
    vec![
        guard(|| t.to_bytes()),
        guard(|| { let n = t.to_slice(&mut buf)?; Ok(buf[..n].to_vec()) }),
        guard(|| Ok(t.to_bits()?.into_vec())),
        guard(|| t.to_bytes()),
    ]
}
fn state<T: Full>(m: &Meta, l: &mut Local, v: &Val, depth: usize, again: u32) {
    let r = report::get();
    if !l.see((m.name, 0u8, v)) { return; }
    l.evals += 1;
    // ---- writing is pure
    let t = T::from_val(v);
    let before = t.clone();
    let ws = case(m.name, &[], || writes(&t));
    if t.to_val() != *v || t != before && !m.name.contains("f32") && !m.name.contains("f64") { r.fail(&format!("{}:pure", m.name), format!("writing changed {v:?} to {:?} | {}", t.to_val(), show(m))); return; }
    let w2 = case(m.name, &[], || guard(|| t.to_bytes()));
    if ws[0] != w2 || ws[0] != ws[3] { r.fail(&format!("{}:twice", m.name), format!("value={v:?} written twice: {} then {} | {}", fmtg(&ws[0]), fmtg(&w2), show(m))); return; }
    if let Got::Panic(p) = &ws[0] { r.fail(&format!("{}:wpanic", m.name), format!("panic {p} | value={v:?} | {}", show(m))); return; }
    l.trans += 5;
    // ---- update
    let mu = update(&m.rec, v);
    let mut t = t;
    let g = case(m.name, &[], || guard(|| { t.update()?; Ok(()) }));
    let after = t.to_val();
    l.traces += 1; l.trans += 1;
    match (&g, &mu) {
        (Got::Ok(()), Ok(x)) if after == *x => {}
        (Got::Err(a), Err(b)) if a == b => {
            // a failed update leaves the fields without a rule alone
            let (Val::R(n, x), Val::R(k, y)) = (v, &after) else { panic!() };
            let fs = match &m.rec.kind { Kind::Struct(f) => f, Kind::Enum { variants, .. } => &variants[*n as usize].fields };
            let keep: Vec<&Field> = fs.iter().filter(|f| !f.temp).collect();
            if n != k || keep.iter().zip(x.iter().zip(y)).any(|(f, (a, b))| f.update.is_none() && a != b) {
                r.fail(&format!("{}:failed-update", m.name), format!("value={v:?} failed update changed it to {after:?} | {}", show(m)));
            }
            return;
        }
        _ => { r.fail(&format!("{}:update", m.name), format!("value={v:?} update expected={mu:?} got={g:?} value {after:?} | {}", show(m))); return; }
    }
    // ---- the updated value is written and read back
    let (mw, s1) = model_to_bytes(&m.rec, &after);
    l.trans += s1;
    let gw = case(m.name, &[], || guard(|| t.to_bytes()));
    if !same(&gw, &mw) && !m.tag("x:unord") { r.fail(&format!("{}:write", m.name), format!("value={after:?} (updated) expected={} got={} | {}", fmtb(&mw), fmtg(&gw), show(m))); return; }
    if let (Got::Ok(b), Ok(_)) = (&gw, &mw) {
        let (mr, s2) = model_from_bytes(&m.rec, b, 0);
        l.trans += s2;
        let gr = case(m.name, b, || impl_from_bytes::<T>(b, 0));
        l.traces += 1;
        if !same(&gr, &mr) && !m.tag("x:unord") { r.fail(&format!("{}:reread", m.name), format!("value={after:?} written={} read expected={mr:?} got={gr:?} | {}", report::hex(b), show(m))); return; }
        if m.tag("consist") && mr.as_ref().ok().map(|x| &x.0) != Some(&after) {
            r.fail(&format!("{}:consistent", m.name), format!("value={after:?} updated, written={} read back as {gr:?} | {}", report::hex(b), show(m))); return;
        }
    }
    // ---- histories: change the updated value, update again
    if again > 0 { state::<T>(m, l, &after, 0, again - 1); }
    if depth > 0 { mutate::rec_mutants(&m.rec, &after, &mut |x| state::<T>(m, l, &x, depth - 1, 3)); }
}
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let (b, d) = (self.1, self.2);
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let depth = if m.tag("update") { d } else { 0 };
            let mut vals = vec![];
            accepted(&m, if m.tag("update") { b } else { b / 4 }, l, |_, _, v, _| vals.push(v.clone()));
            let mut n = std::collections::HashSet::new();
            vals.retain(|v| n.insert(v.clone()));
            for v in &vals { state::<T>(&m, l, v, depth, 3); mutate::rec_mutants(&m.rec, v, &mut |x| state::<T>(&m, l, &x, depth, 3)); }
        })));
    }
}
fn main() {
    let r = report::init("C13", "model_checking", "every value read from any bounded input, all their single-site changes, and histories change-update-change-update up to a depth: update against the model, every way of writing twice, value before and after, the updated value written and read back");
    let (budget, depth) = if r.thorough { (8_000, 2) } else { (300, 1) };
    let mut v = Vis(vec![], budget, depth);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget); r.extra("history_depth", depth);
    run_jobs(v.0);
    r.finish_and_exit()
}
