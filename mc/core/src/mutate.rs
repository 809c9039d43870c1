//! All single-site changes of a value that its Rust type can hold.
use crate::model::*;

fn nums(w: u32, signed: bool, x: i128, nz: bool) -> Vec<i128> {
    let mut v = vec![0, 1, 2, 3, x ^ 1, x.wrapping_add(1), 127, 128, 255];
    if signed { v.extend([-1, -2, x.wrapping_neg(), -128]); v.push(if w >= 128 { i128::MIN } else { -(1 << (w - 1)) }); v.push(if w >= 128 { i128::MAX } else { (1 << (w - 1)) - 1 }); }
    else if w < 127 { v.push((1 << w) - 1); }
    v.retain(|y| *y != x && !(nz && *y == 0) && if signed { w >= 128 || *y >= -(1i128 << (w - 1)) && *y < 1i128 << (w - 1) } else { *y >= 0 && (w >= 127 || *y < 1i128 << w) });
    v.sort(); v.dedup();
    v
}
/// a value of the type (not necessarily the default)
pub fn some(t: &Ty) -> Val {
    match t {
        Ty::NzU(_) => Val::U(1), Ty::NzI(_) => Val::I(1),
        Ty::Arr(t, n) => Val::L((0..*n).map(|_| some(t)).collect()),
        Ty::Tup(ts) => Val::L(ts.iter().map(some).collect()),
        Ty::Wrap(t) => some(t),
        Ty::Rec(r) => match &r.kind {
            Kind::Struct(f) => Val::R(0, somef(f)),
            Kind::Enum { variants, .. } => Val::R(0, somef(&variants[0].fields)),
        },
        t => zero(t),
    }
}
fn somef(f: &[Field]) -> Vec<Val> { f.iter().filter(|f| !f.temp).map(|f| some(&f.ty)).collect() }
fn strs(f: &Field) -> bool { matches!(f.map, Some(MapK::ToStr)) }

pub fn mutants(t: &Ty, v: &Val, out: &mut dyn FnMut(Val)) {
    match (t, v) {
        (Ty::U(w) | Ty::F(w), Val::U(x)) => {
            if *w == 128 && *x > i128::MAX as u128 { out(Val::U(1)); return; }
            for y in nums(*w, false, *x as i128, false) { out(Val::U(y as u128)); }
            if *w == 128 { out(Val::U(u128::MAX)); }
        }
        (Ty::I(w), Val::I(x)) => for y in nums(*w, true, *x, false) { out(Val::I(y)); },
        (Ty::NzU(w), Val::U(x)) => for y in nums(*w, false, *x as i128, true) { out(Val::U(y as u128)); },
        (Ty::NzI(w), Val::I(x)) => for y in nums(*w, true, *x, true) { out(Val::I(y)); },
        (Ty::Bool, Val::B(b)) => out(Val::B(!b)),
        (Ty::CStr, Val::S(s)) => { let mut a = s.clone(); a.push(b'q'); out(Val::S(a)); if let Some((_, r)) = s.split_first() { out(Val::S(r.to_vec())); } }
        (Ty::Arr(t, _), Val::L(l)) => each(l, &|_| &**t, out, Val::L),
        (Ty::Tup(ts), Val::L(l)) => each(l, &|i| &ts[i], out, Val::L),
        (Ty::Opt(t), Val::O(None)) => out(Val::O(Some(Box::new(some(t))))),
        (Ty::Opt(t), Val::O(Some(x))) => { out(Val::O(None)); mutants(t, x, &mut |y| out(Val::O(Some(Box::new(y))))); }
        (Ty::Vec(t), Val::L(l)) => {
            if is_zst(t) { return; }
            for n in [1usize, 2] { let mut a = l.clone(); for _ in 0..n { a.push(some(t)); } out(Val::L(a)); }
            if !l.is_empty() { let mut a = l.clone(); a.pop(); out(Val::L(a)); }
            if l.len() > 1 { let mut a = l.clone(); a.reverse(); if a != *l { out(Val::L(a)); } out(Val::L(vec![])); }
            each(l, &|_| &**t, out, Val::L);
        }
        (Ty::Set(t), Val::L(l)) => each(l, &|_| &**t, &mut |v| { if let Val::L(mut l) = v { l.sort(); l.dedup(); out(Val::L(l)) } }, Val::L),
        (Ty::Map(..), _) => {}
        (Ty::Wrap(t), x) => mutants(t, x, out),
        (Ty::Rec(r), x) => rec_mutants(r, x, out),
        _ => {}
    }
}
fn each<'a>(l: &[Val], t: &dyn Fn(usize) -> &'a Ty, out: &mut dyn FnMut(Val), wrap: fn(Vec<Val>) -> Val) {
    for i in 0..l.len() {
        mutants(t(i), &l[i], &mut |y| { let mut a = l.to_vec(); a[i] = y; out(wrap(a)); });
    }
}
pub fn rec_mutants(r: &Rec, v: &Val, out: &mut dyn FnMut(Val)) {
    let Val::R(n, l) = v else { return };
    let fs = match &r.kind { Kind::Struct(f) => f, Kind::Enum { variants, .. } => &variants[*n as usize].fields };
    let keep: Vec<&Field> = fs.iter().filter(|f| !f.temp).collect();
    for (i, f) in keep.iter().enumerate() {
        if strs(f) { continue; }
        mutants(&f.ty, &l[i], &mut |y| { let mut a = l.clone(); a[i] = y; out(Val::R(*n, a)); });
    }
    if let Kind::Enum { variants, .. } = &r.kind {
        for (k, x) in variants.iter().enumerate() {
            if k != *n as usize && !x.fields.iter().any(strs) { out(Val::R(k as u16, somef(&x.fields))); }
        }
    }
}
