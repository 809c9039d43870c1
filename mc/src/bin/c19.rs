//! C19: byte order, bit order, sizes and arguments reach exactly where they are declared.
use deku_mc::{conform::*, drive::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c19.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b)))));
    }
}
fn main() {
    let r = report::init("C19", "model_checking", "field level x type level (declared, from an argument, nothing) x byte order x bit order x leaf or container x host (struct, tuple struct, enum), argument lists and argument defaults (see gen/prod.py inherits), each over every byte string of each length 0..=maxlen of the largest boundary alphabet with at most `budget` strings per length; values written and read back");
    let budget = if r.thorough { 20_000 } else { 1_500 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
