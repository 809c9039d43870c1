//! C11: magic bytes and assertions reject exactly the inputs that break them.
use deku_mc::{conform::*, drive::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c11.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b).mutants()))));
    }
}
fn main() {
    let r = report::init("C11", "model_checking", "magic sequences x placements x field attributes and assertion forms x field kinds x placements (see gen/prod.py), each over every byte string of each length 0..=maxlen of the largest boundary alphabet with at most `budget` strings per length; values and all their single-site changes written, accepted values read back");
    let budget = if r.thorough { 100_000 } else { 1_500 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
