//! C08: containers read exactly the elements their limit selects.
use deku_mc::{conform::*, direct, drive::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c08.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b)))));
    }
}
fn main() {
    let r = report::init("C08", "model_checking", "container kinds x limits x element kinds x positions (see gen/prod.py), each over every byte string of each length 0..=maxlen of the largest boundary alphabet with at most `budget` strings per length; values written and read back");
    let budget = if r.thorough { 60_000 } else { 4_000 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    v.0.extend(direct::jobs(if r.thorough { 150 } else { 8 }));
    run_jobs(v.0);
    r.finish_and_exit()
}
