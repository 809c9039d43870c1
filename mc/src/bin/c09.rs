//! C09: a value that does not fit its declared bits is refused, never truncated.
use deku_mc::{drive::*, prim::*, report};
#[global_allocator]
static G: report::Guard = report::Guard;
fn main() {
    let r = report::init("C09", "model_checking", "every integer type x every context form x every bit size 0..=width+9 x byte orders x bit orders x start offsets 0..7 (quick: 0,1,3,4,7 for 64 bits and more) x values around every power of two near the size, near the type's range ends and all values of 8-bit (thorough: 16-bit) types: written, or refused with the same error class as the model");
    let o = PrimOps { read: false, write_fit: true, write_over: true, exhaustive_bits: if r.thorough { 16 } else { 9 } };
    let mut j = num_jobs(o);
    j.extend(nz_jobs(o));
    run_jobs(j);
    r.finish_and_exit()
}
