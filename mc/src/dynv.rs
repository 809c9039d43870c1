//! Conversion between concrete Rust values and the model's `Val`.
use crate::model::{Er, Val};
use deku::DekuError;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::hash::Hash;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::num::*;
use std::sync::Arc;

pub trait Dyn: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
macro_rules! uns { ($($t:ty),*) => { $(impl Dyn for $t {
    fn to_val(&self) -> Val { Val::U(*self as u128) }
    fn from_val(v: &Val) -> Self { match v { Val::U(u) => *u as $t, _ => panic!("from_val {v:?}") } }
})* } }
macro_rules! sig { ($($t:ty),*) => { $(impl Dyn for $t {
    fn to_val(&self) -> Val { Val::I(*self as i128) }
    fn from_val(v: &Val) -> Self { match v { Val::I(u) => *u as $t, _ => panic!("from_val {v:?}") } }
})* } }
uns!(u8, u16, u32, u64, u128, usize);
sig!(i8, i16, i32, i64, i128, isize);
macro_rules! nz { ($($t:ty, $i:ty);*) => { $(impl Dyn for $t {
    fn to_val(&self) -> Val { self.get().to_val() }
    fn from_val(v: &Val) -> Self { <$t>::new(<$i>::from_val(v)).expect("nonzero") }
})* } }
nz!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128; NonZeroUsize, usize;
    NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64; NonZeroI128, i128; NonZeroIsize, isize);
impl Dyn for f32 {
    fn to_val(&self) -> Val { Val::U(self.to_bits() as u128) }
    fn from_val(v: &Val) -> Self { f32::from_bits(u32::from_val(v)) }
}
impl Dyn for f64 {
    fn to_val(&self) -> Val { Val::U(self.to_bits() as u128) }
    fn from_val(v: &Val) -> Self { f64::from_bits(u64::from_val(v)) }
}
impl Dyn for bool {
    fn to_val(&self) -> Val { Val::B(*self) }
    fn from_val(v: &Val) -> Self { matches!(v, Val::B(true)) }
}
impl Dyn for () {
    fn to_val(&self) -> Val { Val::Unit }
    fn from_val(_: &Val) -> Self {}
}
impl Dyn for CString {
    fn to_val(&self) -> Val { Val::S(self.as_bytes().to_vec()) }
    fn from_val(v: &Val) -> Self { match v { Val::S(s) => CString::new(s.clone()).unwrap(), _ => panic!() } }
}
impl Dyn for String {
    fn to_val(&self) -> Val { Val::S(self.as_bytes().to_vec()) }
    fn from_val(v: &Val) -> Self { match v { Val::S(s) => String::from_utf8(s.clone()).unwrap(), _ => panic!() } }
}
impl Dyn for Ipv4Addr {
    fn to_val(&self) -> Val { Val::U(u32::from_be_bytes(self.octets()) as u128) }
    fn from_val(v: &Val) -> Self { Ipv4Addr::from(u32::from_val(v).to_be_bytes()) }
}
impl Dyn for Ipv6Addr {
    fn to_val(&self) -> Val { Val::U(u128::from_be_bytes(self.octets())) }
    fn from_val(v: &Val) -> Self { Ipv6Addr::from(u128::from_val(v).to_be_bytes()) }
}
fn list(v: &Val) -> &[Val] { match v { Val::L(l) => l, _ => panic!("list {v:?}") } }
impl<T: Dyn, const N: usize> Dyn for [T; N] {
    fn to_val(&self) -> Val { Val::L(self.iter().map(Dyn::to_val).collect()) }
    fn from_val(v: &Val) -> Self { let l = list(v); assert_eq!(l.len(), N); std::array::from_fn(|i| T::from_val(&l[i])) }
}
impl<T: Dyn> Dyn for Vec<T> {
    fn to_val(&self) -> Val { Val::L(self.iter().map(Dyn::to_val).collect()) }
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
}
impl<T: Dyn> Dyn for Box<[T]> {
    fn to_val(&self) -> Val { Val::L(self.iter().map(Dyn::to_val).collect()) }
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
}
impl<T: Dyn> Dyn for Arc<[T]> {
    fn to_val(&self) -> Val { Val::L(self.iter().map(Dyn::to_val).collect()) }
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
}
impl<T: Dyn> Dyn for Box<T> {
    fn to_val(&self) -> Val { (**self).to_val() }
    fn from_val(v: &Val) -> Self { Box::new(T::from_val(v)) }
}
impl<T: Dyn> Dyn for Arc<T> {
    fn to_val(&self) -> Val { (**self).to_val() }
    fn from_val(v: &Val) -> Self { Arc::new(T::from_val(v)) }
}
impl<T: Dyn + Clone> Dyn for Cow<'_, T> {
    fn to_val(&self) -> Val { (**self).to_val() }
    fn from_val(v: &Val) -> Self { Cow::Owned(T::from_val(v)) }
}
impl<T: Dyn> Dyn for Option<T> {
    fn to_val(&self) -> Val { Val::O(self.as_ref().map(|v| Box::new(v.to_val()))) }
    fn from_val(v: &Val) -> Self { match v { Val::O(o) => o.as_ref().map(|x| T::from_val(x)), _ => panic!() } }
}
impl<T: Dyn + Hash + Eq> Dyn for HashSet<T> {
    fn to_val(&self) -> Val { let mut v: Vec<Val> = self.iter().map(Dyn::to_val).collect(); v.sort(); Val::L(v) }
    fn from_val(v: &Val) -> Self { list(v).iter().map(T::from_val).collect() }
}
impl<K: Dyn + Hash + Eq, V: Dyn> Dyn for HashMap<K, V> {
    fn to_val(&self) -> Val { let mut v: Vec<Val> = self.iter().map(|(k, x)| Val::L(vec![k.to_val(), x.to_val()])).collect(); v.sort(); Val::L(v) }
    fn from_val(v: &Val) -> Self { list(v).iter().map(|e| { let l = list(e); (K::from_val(&l[0]), V::from_val(&l[1])) }).collect() }
}
macro_rules! tup { ($($t:ident $i:tt),+) => { impl<$($t: Dyn),+> Dyn for ($($t,)+) {
    fn to_val(&self) -> Val { Val::L(vec![$(self.$i.to_val()),+]) }
    fn from_val(v: &Val) -> Self { let l = list(v); ($($t::from_val(&l[$i]),)+) }
} } }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);

#[macro_export]
macro_rules! dynrec {
    ($n:ident) => { impl $crate::dynv::Dyn for $n {
        fn to_val(&self) -> $crate::model::Val { $crate::model::Val::R(0, vec![]) }
        fn from_val(_: &$crate::model::Val) -> Self { $n {} }
    } };
    ($n:ident { $($f:ident : $i:tt),* }) => { impl $crate::dynv::Dyn for $n {
        fn to_val(&self) -> $crate::model::Val { $crate::model::Val::R(0, vec![$($crate::dynv::Dyn::to_val(&self.$f)),*]) }
        fn from_val(v: &$crate::model::Val) -> Self { match v { $crate::model::Val::R(_, l) => { let _ = l; $n { $($f: $crate::dynv::Dyn::from_val(&l[$i])),* } }, _ => panic!() } }
    } };
}
pub fn er(e: &DekuError) -> Er {
    match e {
        DekuError::Incomplete(_) => Er::Incomplete,
        DekuError::Parse(_) => Er::Parse,
        DekuError::InvalidParam(_) => Er::InvalidParam,
        DekuError::Assertion(_) => Er::Assertion,
        DekuError::IdVariantNotFound => Er::IdNotFound,
        DekuError::Io(_) => Er::Io,
        _ => Er::Other,
    }
}
