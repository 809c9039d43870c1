//! C01: every value the format can express survives write-then-read.
use deku_mc::{conform::*, drive::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c01.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b)))));
    }
}
fn main() {
    let r = report::init("C01", "model_checking", "every program x every byte string of each length 0..=maxlen over the largest boundary alphabet with at most `budget` strings per length; every distinct decoded value is written, compared with the model bytes and read back");
    let budget = if r.thorough { 40_000 } else { 2_500 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
