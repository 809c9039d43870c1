//! C10: enum variants are selected, written and identified by their declared id.
use deku_mc::{conform::*, deku, drive::*, enumv, model::*, report::{self, hex}};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c10.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
/// declared ids of the enum inside the program: per variant
fn dids(r: &Rec, k: usize) -> Vec<Option<i128>> {
    match &r.kind {
        Kind::Enum { variants, .. } => variants.iter().map(|v| v.did).collect(),
        Kind::Struct(f) => match &f[k].ty { Ty::Rec(r) => dids(r, 0), t => panic!("{t:?}") },
    }
}
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let budget = self.1;
        let m2 = m.clone();
        // ---- all bounded inputs and, for ids of up to 16 bits, all ids with a few fixed tails
        self.0.push((m.name.to_string(), Box::new(move |l| {
            conform::<T>(&m, l, Ops::all(budget));
            let r = report::get();
            let Some(n) = m.tags.iter().find_map(|t| t.strip_prefix("idbytes:")) else { return };
            let n: usize = n.parse().unwrap();
            enumv::strings(n, &(0..=255).collect::<Vec<u8>>(), |id| for tail in [&[0u8, 0, 0][..], &[0xff; 3], &[0x12, 0x34, 0x56], &[0x9a]] {
                let b: Vec<u8> = id.iter().chain(tail).copied().collect();
                l.evals += 1; l.traces += 1;
                let (mo, st) = model_from_bytes(&m.rec, &b, 0);
                l.trans += st;
                let g = case(m.name, &b, || impl_from_bytes::<T>(&b, 0));
                if !same(&g, &mo) { r.fail(&format!("{}:id", m.name), format!("input={} expected={mo:?} got={g:?} | {}", hex(&b), show(&m))); return; }
                if let Ok((v, _, _)) = &mo { if l.see((m.name, v)) { check_write::<T>(&m, l, v, m.sym); } }
            });
        })));
        // ---- the reported id
        let m = m2;
        self.0.push((format!("{} id", m.name), Box::new(move |l| {
            let Some((k, f)) = m.id else { return };
            let r = report::get();
            let ids = dids(&m.rec, k);
            accepted(&m, budget, l, |l, b, v, _| {
                let e = match v { Val::R(_, f) if k != usize::MAX => &f[k], v => v };
                let Val::R(i, _) = e else { panic!() };
                let want = ids[*i as usize];
                l.evals += 1; l.traces += 1;
                let g = case(m.name, b, || guard(|| f(v)));
                let ok = match (&g, want) { (Got::Ok(x), Some(w)) => idnum(x) == w, (Got::Err(Er::IdNotFound), None) => true, _ => false };
                if !ok { r.fail(&format!("{}:deku_id", m.name), format!("value={v:?}: expected id {want:?}, got {g:?} | {}", show(&m))); }
            });
        })));
    }
}
fn main() {
    let r = report::init("C10", "model_checking", "id types x sizes x byte orders x bit orders x id forms (see gen/prod.py), each over every bounded input (at most `budget` strings per length) and, for ids of up to 16 bits, over every id with four tails; values written and read back; deku_id of every value");
    let budget = if r.thorough { 30_000 } else { 1_500 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
