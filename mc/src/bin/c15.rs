//! C15: the static size of a type equals what its values write.
use deku::prelude::*;
use deku_mc::{conform::*, drive::*, model::*, mutate, report, size::*};
#[allow(non_camel_case_types, dead_code, unused)]
mod zoo { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/c15.rs")); }
#[global_allocator]
static G: report::Guard = report::Guard;
struct Vis(Vec<(String, Job)>, u64);

fn has_enum(t: &Ty) -> bool {
    match t { Ty::Arr(t, _) => has_enum(t), Ty::Tup(t) => t.iter().any(has_enum), Ty::Rec(r) => rec_enum(r), _ => false }
}
fn rec_enum(r: &Rec) -> bool { match &r.kind { Kind::Struct(f) => f.iter().any(|f| has_enum(&f.ty)), _ => true } }
/// a value that takes up the most
fn big(t: &Ty) -> Val {
    match t {
        Ty::Arr(t, n) => Val::L((0..*n).map(|_| big(t)).collect()),
        Ty::Tup(t) => Val::L(t.iter().map(big).collect()),
        Ty::Rec(r) => big_rec(r),
        t => mutate::some(t),
    }
}
fn big_rec(r: &Rec) -> Val {
    let f = |fs: &[Field]| fs.iter().filter(|f| !f.temp).map(|f| big(&f.ty)).collect();
    match &r.kind {
        Kind::Struct(fs) => Val::R(0, f(fs)),
        Kind::Enum { variants, .. } => {
            let n = (0..variants.len()).max_by_key(|i| variant_bits(&variants[*i])).unwrap();
            Val::R(n as u16, f(&variants[n].fields))
        }
    }
}
fn one<T: Full + DekuSize>(m: &Meta, l: &mut Local, v: &Val, fixed: bool) -> usize {
    let r = report::get();
    l.evals += 1;
    let t = T::from_val(v);
    let (mw, st) = model_to_bytes(&m.rec, v);
    l.trans += st; l.traces += 1;
    let g = case(m.name, &[], || guard(|| Ok((t.to_bits()?.len(), t.to_bytes()?))));
    match g {
        Got::Panic(p) => { r.fail(&format!("{}:panic", m.name), format!("panic {p} | value={v:?} | {}", show(m))); 0 }
        Got::Err(e) => { if mw.is_ok() { r.fail(&format!("{}:write", m.name), format!("value={v:?} is refused: {e:?} | {}", show(m))); } 0 }
        Got::Ok((bits, bytes)) => {
            if bytes.len() != bits.div_ceil(8) || mw.as_ref().is_ok_and(|b| *b != bytes) { r.fail(&format!("{}:write", m.name), format!("value={v:?} {bits} bits, bytes {} expected {} | {}", report::hex(&bytes), fmtb(&mw), show(m))); }
            if bits > T::SIZE_BITS || fixed && bits != T::SIZE_BITS { r.fail(&format!("{}:size", m.name), format!("value={v:?} writes {bits} bits ({}), SIZE_BITS={} | {}", report::hex(&bytes), T::SIZE_BITS, show(m))); }
            // a buffer of the static size is large enough, and for a fixed size nothing less is
            let mut buf = vec![0xa5u8; T::SIZE_BITS.div_ceil(8)];
            let s = case(m.name, &[], || guard(|| t.to_slice(&mut buf)));
            l.trans += 1;
            if s != Got::Ok(bytes.len()) || buf[..bytes.len()] != bytes[..] { r.fail(&format!("{}:slice", m.name), format!("value={v:?} into a buffer of its static size: {s:?} | {}", show(m))); }
            if fixed && !buf.is_empty() {
                let n = buf.len() - 1;
                let s = case(m.name, &[], || guard(|| t.to_slice(&mut buf[..n])));
                if let Got::Ok(k) = s { r.fail(&format!("{}:short", m.name), format!("value={v:?} fits {n} bytes ({k}) but its static size is {} bits | {}", T::SIZE_BITS, show(m))); }
            }
            bits
        }
    }
}
impl SizeVisitor for Vis {
    fn prog<T: Full + DekuSize + 'static>(&mut self, m: Meta) {
        let b = self.1;
        self.0.push((m.name.to_string(), Box::new(move |l| {
            let r = report::get();
            let want = rec_bits(&m.rec);
            if T::SIZE_BITS != want { r.fail(&format!("{}:const", m.name), format!("SIZE_BITS={} expected {want} | {}", T::SIZE_BITS, show(&m))); return; }
            if T::SIZE_BYTES != (want % 8 == 0).then_some(want / 8) { r.fail(&format!("{}:bytes", m.name), format!("SIZE_BYTES={:?} SIZE_BITS={want} | {}", T::SIZE_BYTES, show(&m))); return; }
            let fixed = !rec_enum(&m.rec) && !m.tag("x:skip") || m.tag("x:skip") && !m.decl.contains("skip(write)") && !rec_enum(&m.rec);
            let mut vals = std::collections::BTreeSet::new();
            accepted(&m, b, l, |_, _, v, _| { vals.insert(v.clone()); });
            let bg = big_rec(&m.rec);
            let mut max = 0;
            if l.see((m.name, &bg)) { max = one::<T>(&m, l, &bg, fixed); }
            for v in &vals {
                max = max.max(one::<T>(&m, l, v, fixed));
                mutate::rec_mutants(&m.rec, v, &mut |x| if l.see((m.name, 1u8, &x)) { max = max.max(one::<T>(&m, l, &x, fixed)); });
            }
            if !vals.is_empty() && max != T::SIZE_BITS { r.fail(&format!("{}:max", m.name), format!("no value reaches SIZE_BITS={} (largest {max} bits) | {}", T::SIZE_BITS, show(&m))); }
        })));
    }
}
// ---- generic types and attributes outside the program language
#[derive(Debug, PartialEq, Clone, DekuRead, DekuWrite, DekuSize)]
struct G1<T> where T: for<'a> DekuReader<'a> + DekuWriter { a: T, #[deku(bits = 3)] b: u8 }
#[derive(Debug, PartialEq, Clone, DekuRead, DekuWrite, DekuSize)]
struct G2<const N: usize> { a: [u8; N], #[deku(pad_bytes_after = "2")] b: u16 }
#[derive(Debug, PartialEq, Clone, DekuRead, DekuWrite, DekuSize)]
#[deku(id_type = "u16")]
enum G3<T> where T: for<'a> DekuReader<'a> + DekuWriter { #[deku(id = 1)] A(T), #[deku(id = 2)] B { x: T, y: T }, #[deku(id_pat = "_")] C(u16) }
#[derive(Debug, PartialEq, Clone, DekuRead, DekuWrite, DekuSize)]
#[repr(u32)]
#[deku(id_type = "u32", bytes = 3)]
enum G4 { A = 1, B = 0x10203 }
const K: usize = 5;
#[derive(Debug, PartialEq, Clone, DekuRead, DekuWrite, DekuSize)]
struct G6 { a: [[u8; K]; 2], #[deku(bits = 4)] b: [u8; K], #[deku(bytes = 3)] c: [u32; 2], #[deku(magic = b"ab")] d: (u8, [u16; K]) }
fn generic<T: DekuContainerWrite + DekuSize>(name: &str, vals: &[T], want: usize) {
    let r = report::get();
    let mut max = 0;
    for t in vals {
        let b = t.to_bits().unwrap().len();
        max = max.max(b);
        let mut buf = vec![0; T::SIZE_BITS.div_ceil(8)];
        if t.to_slice(&mut buf).is_err() { r.fail(&format!("{name}:slice"), format!("{name}: a buffer of the static size is too small")); }
        r.add(&r.evals, 1);
    }
    if T::SIZE_BITS != want || max != want { r.fail(&format!("{name}:const"), format!("{name}: SIZE_BITS={} expected {want}, largest written {max}", T::SIZE_BITS)); }
}
fn main() {
    let r = report::init("C15", "model_checking", "types with a static size: field kinds x size attributes x wrapping x magic/padding/temporaries/skips, nested types, enums of every id size and form; every value read from any bounded input, its single-site changes and the largest value, written in every way");
    let budget = if r.thorough { 20_000 } else { 400 };
    let mut v = Vis(vec![], budget);
    zoo::visit(&mut v);
    generic("G1u16", &[G1 { a: 5u16, b: 1 }], 19);
    generic("G1arr", &[G1 { a: [5u8; 3], b: 1 }], 27);
    generic("G1tup", &[G1 { a: (5u8, 6u32), b: 1 }], 43);
    generic("G2_0", &[G2::<0> { a: [], b: 1 }], 32);
    generic("G2_7", &[G2::<7> { a: [0; 7], b: 1 }], 88);
    generic("G3u8", &[G3::A(1u8), G3::B { x: 1, y: 2 }, G3::C(9)], 32);
    generic("G3u64", &[G3::A(1u64), G3::B { x: 1, y: 2 }, G3::C(9)], 144);
    generic("G4", &[G4::A, G4::B], 24);
    generic("G6", &[G6 { a: [[1; K]; 2], b: [1; K], c: [1; 2], d: (1, [2; K]) }], 80 + 20 + 48 + 16 + 88);
    r.extra("budget_per_length", budget);
    run_jobs(v.0);
    r.finish_and_exit()
}
