//! C21: restricted-domain types accept exactly their domain.
use deku_mc::{conform::*, drive::*, prim::*, report};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c21.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64, u64);
impl Visitor for Vis {
    fn prog<T: Full + 'static>(&mut self, m: Meta) {
        let b = if m.maxlen <= 2 { self.1 } else if m.maxlen <= 8 { self.2 } else { self.2 / 8 };
        self.0.push((m.name.to_string(), Box::new(move |l| conform::<T>(&m, l, Ops::all(b).mutants()))));
    }
}
fn main() {
    let r = report::init("C21", "model_checking", "booleans, non-zero numbers, strings and addresses: every size x byte order x bit order x offset x surrounding type; every byte string up to 2 bytes and of a boundary alphabet above; all 8- and 16-bit encodings of non-zero numbers; values and their single-site changes written, accepted values read back");
    let (deep, budget, bits) = if r.thorough { (66_000, 66_000, 16) } else { (66_000, 3_000, 9) };
    let mut v = Vis(vec![], deep, budget);
    zoo::visit(&mut v);
    v.0.extend(nz_jobs(PrimOps { read: true, write_fit: true, write_over: true, exhaustive_bits: bits }).into_iter().filter(|(n, _)| r.thorough || !n.contains("128") && !n.contains("64") && !n.contains("size"))); // the others: C02, C09
    r.extra("budget_up_to_2_bytes", deep); r.extra("budget_per_length", budget); r.extra("exhaustive_bits", bits);
    run_jobs(v.0);
    r.finish_and_exit()
}
