//! C12: conditional, skipped, defaulted, padded and temporary fields follow their rules.
use deku_mc::{conform::*, drive::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c12.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b).mutants()))));
    }
}
fn main() {
    let r = report::init("C12", "model_checking", "condition kinds x skip kinds x default x padding x field kinds x places, custom readers x skip kinds, temporaries (see gen/prod.py), each over every byte string of each length 0..=maxlen of the largest boundary alphabet with at most `budget` strings per length; values and all their single-site changes written, accepted values read back");
    let budget = if r.thorough { 20_000 } else { 1_500 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
