//! C22: the way a declaration is written down does not change its format.
use deku_mc::{conform::*, drive::*, model::*, report, size::rec_bits};
#[allow(non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, dead_code, unused, private_interfaces)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c22.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            conform::<T>(&m, l, Ops::all(b).mutants());
            let r = report::get();
            accepted(&m, b / 8, l, |l, _, v, _| {
                l.evals += 1; l.traces += 1; l.trans += 1;
                let mu = update(&m.rec, v);
                let g = case(m.name, &[], || guard(|| { let mut t = T::from_val(v); t.update()?; Ok(t.to_val()) }));
                if !same(&g, &mu) { r.fail(&format!("{}:update", m.name), format!("value={v:?} update expected={mu:?} got={g:?} | {}", show(&m))); }
            });
        })));
    }
}
struct Sizes(Vec<(String, Job)>);
impl SizeVisitor for Sizes {
    fn prog<T: Full + wire::DekuSize + 'static>(&mut self, m: Meta) {
        self.0.push((format!("{}:size", m.name), Box::new(move |l| {
            l.evals += 1; l.traces += 1;
            let n = rec_bits(&m.rec);
            if T::SIZE_BITS != n { report::get().fail(&format!("{}:size", m.name), format!("SIZE_BITS={} expected={n} | {}", T::SIZE_BITS, show(&m))); }
        })));
    }
}
fn main() {
    let r = report::init("C22", "model_checking", "programs rewritten (field, variant and type names incl. raw identifiers and names the library uses, order and grouping of attributes, cfg_attr, flags and numbers spelled differently, named and tuple form, type aliases, declarations made by macro_rules with every part passed as a fragment, under a renamed dependency), each over every byte string of each length 0..=maxlen of the largest boundary alphabet with at most `budget` strings per length; values and their single-site changes written, read back, updated; static sizes");
    let budget = if r.thorough { 20_000 } else { 600 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    let mut s = Sizes(vec![]);
    zoo::visit_sizes(&mut s);
    v.0.extend(s.0);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
