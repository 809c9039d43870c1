//! C02: numbers have the documented bit layout at every size, order and offset.
use deku_mc::{drive::*, prim::*, report};
#[global_allocator]
static G: report::Guard = report::Guard;
/// the helper types that say which layout is meant
fn context(l: &mut Local) {
    use deku_mc::deku::ctx::{BitSize, Endian, Order};
    use std::str::FromStr;
    let r = report::get();
    let mut is = |what: &str, ok: bool| { l.evals += 1; if !ok { r.fail("@context", what.to_string()); } };
    is("Endian::new() is the byte order of the machine", Endian::new() == if 1u16.to_ne_bytes() == [1, 0] { Endian::Little } else { Endian::Big } && Endian::default() == Endian::new());
    for e in [Endian::Little, Endian::Big] { is("is_le/is_be", e.is_le() == (e == Endian::Little) && e.is_be() == (e == Endian::Big)); }
    is("Order::default() is Msb0", Order::default() == Order::Msb0);
    // every word of up to six letters that can be made from those of the names, and every one-letter change of the names
    let mut words: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..6 { let to = words.len(); for i in from..to { for c in "bigltle".chars().chain(['B']) { let w = format!("{}{c}", words[i]); words.push(w); } } from = to; }
    for n in ["little", "big"] { for i in 0..=n.len() { for c in ' '..='~' { words.push(format!("{}{c}{}", &n[..i], &n[i..])); if i < n.len() { words.push(format!("{}{c}{}", &n[..i], &n[i + 1..])); } } if i < n.len() { words.push(format!("{}{}", &n[..i], &n[i + 1..])); } } words.push(n.to_uppercase()); }
    for w in words { is(&format!("Endian::from_str({w:?})"), match w.as_str() { "little" => Endian::from_str(&w) == Ok(Endian::Little), "big" => Endian::from_str(&w) == Ok(Endian::Big), _ => Endian::from_str(&w).is_err() }); }
    macro_rules! of { ($($t:ty)*) => { $( is(concat!("BitSize::of::<", stringify!($t), ">()"), BitSize::of::<$t>() == BitSize(8 * std::mem::size_of::<$t>()) && BitSize::of_val(&[<$t>::default(); 3][..]) == BitSize(24 * std::mem::size_of::<$t>())); )* } }
    of!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool [u8; 3] [u16; 5]);
}
fn main() {
    let r = report::init("C02", "model_checking", "every number and non-zero type x every context form x every bit size 0..=width+9 / byte size 0..=width/8+2 x byte orders x bit orders x start offsets 0..7 (quick: 0,1,3,4,7 for 64 bits and more) x stream patterns (all strings when short, else walking bits/bytes on both backgrounds and ascending patterns, complete and cut by one byte) read, and x representable boundary values written");
    let o = PrimOps { read: true, write_fit: true, write_over: false, exhaustive_bits: if r.thorough { 16 } else { 9 } };
    let mut j = num_jobs(o);
    j.extend(nz_jobs(o));
    j.push(("@context".into(), Box::new(context)));
    run_jobs(j);
    r.finish_and_exit()
}
