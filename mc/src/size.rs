//! Static sizes from the description of the format.
use crate::model::*;
/// the size a value of the type takes up at most, from the description of the format
pub fn ty_bits(t: &Ty, bits: Option<i128>, bytes: Option<i128>) -> usize {
    let own = |w: usize| bits.map(|b| b as usize).or(bytes.map(|b| b as usize * 8)).unwrap_or(w);
    match t {
        Ty::U(w) | Ty::I(w) | Ty::F(w) | Ty::NzU(w) | Ty::NzI(w) => own(*w as usize),
        Ty::Bool => own(8),
        Ty::Unit => 0,
        Ty::Arr(t, n) => n * ty_bits(t, bits, bytes),
        Ty::Tup(ts) => ts.iter().map(|t| ty_bits(t, bits, bytes)).sum(),
        Ty::Rec(r) => rec_bits(r),
        _ => panic!("no static size"),
    }
}
fn c(e: &Option<E>) -> usize { e.as_ref().map_or(0, |e| ev(e, &Env { fields: &[], ctx: &[], bitpos: 0 }) as usize) }
fn o(e: &Option<E>) -> Option<i128> { e.as_ref().map(|e| ev(e, &Env { fields: &[], ctx: &[], bitpos: 0 })) }
pub fn fields_bits(fs: &[Field]) -> usize {
    fs.iter().map(|f| {
        let none = f.temp && f.temp_value.is_none() || f.skip == Some(Skip::All) && f.cond.is_none();
        f.magic.len() * 8 + c(&f.pad_before) + if none { 0 } else { ty_bits(&f.ty, o(&f.bits), o(&f.bytes)) } + c(&f.pad_after)
    }).sum()
}
pub fn variant_bits(v: &Variant) -> usize { fields_bits(if v.stores { &v.fields[1..] } else { &v.fields }) }
pub fn rec_bits(r: &Rec) -> usize {
    r.magic.len() * 8 + match &r.kind {
        Kind::Struct(f) => fields_bits(f),
        Kind::Enum { id, variants } => {
            let i = match id { IdK::Ctx(_) => 0, IdK::Ty { ty, bits, bytes, .. } => ty_bits(ty, o(bits), o(bytes)) };
            i + variants.iter().map(variant_bits).max().unwrap_or(0)
        }
    }
}
