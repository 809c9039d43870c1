//! C20: failed reads drop exactly what was built, once; successful reads own everything they built.
//! Every element is a token with an identity; a ledger records creations and drops.
use deku::ctx::{Limit, ReadExact};
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};
use deku_mc::{drive::*, report};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
#[global_allocator]
static ALLOC: report::Guard = report::Guard;

// ---- ledger
#[derive(Default)]
struct Ledger { live: BTreeSet<u64>, next: u64, bad: Vec<String>, z_made: u64, z_dropped: u64 }
thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }
fn with<T>(f: impl FnOnce(&mut Ledger) -> T) -> T { L.with(|l| f(&mut l.borrow_mut())) }
const SALT: u64 = 0x5afe_0000_0000_0000;
fn birth() -> u64 { with(|l| { l.next += 1; let id = SALT | l.next; l.live.insert(id); id }) }
fn death(id: u64) { let _ = L.try_with(|l| { let mut l = l.borrow_mut(); if !l.live.remove(&id) {
    let m = if id & 0xffff_0000_0000_0000 == SALT { format!("element #{} dropped twice", id & !SALT) } else { format!("a value that was never created was dropped (id bits {id:#x})") };
    if l.bad.len() < 4 { l.bad.push(m); } } }); }

const OK1: u8 = 1; const OK2: u8 = 2; const ERR: u8 = 0xEE; const PANIC: u8 = 0xDD; const LONG: u8 = 0xCC; const HPANIC: u8 = 0xBB;
const ALPHA: [u8; 6] = [OK1, OK2, ERR, PANIC, LONG, HPANIC];
/// bytes: ERR fails, PANIC panics, LONG needs a second byte, HPANIC panics when hashed, anything else is a value
fn raw<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>) -> Result<u8, DekuError> {
    let v = u8::from_reader_with_ctx(r, ())?;
    match v {
        ERR => Err(DekuError::InvalidParam("bad element".into())),
        PANIC => panic!("user panic"),
        LONG => u8::from_reader_with_ctx(r, ()),
        v => Ok(v),
    }
}
mod no_std_io { pub use deku::no_std_io::{Read, Seek, Write}; }

/// element with identity, padded to a size of its own
#[derive(Debug)]
struct Tok<const PAD: usize> { id: u64, v: u8, pad: [u64; PAD] }
impl<const P: usize> Tok<P> { fn new(v: u8) -> Self { Tok { id: birth(), v, pad: [0x77; P] } } }
impl<const P: usize> Drop for Tok<P> { fn drop(&mut self) { death(self.id); std::hint::black_box(&self.pad); } }
impl<const P: usize> Clone for Tok<P> { fn clone(&self) -> Self { Self::new(self.v) } }
impl<const P: usize> PartialEq for Tok<P> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<const P: usize> Eq for Tok<P> {}
impl<const P: usize> Hash for Tok<P> { fn hash<H: Hasher>(&self, h: &mut H) { if self.v == HPANIC { panic!("user panic in hash") } self.v.hash(h) } }
impl<const P: usize> DekuReader<'_, ()> for Tok<P> {
    fn from_reader_with_ctx<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, _: ()) -> Result<Self, DekuError> {
        // the first byte is held in a token while the second one is read
        let first = Tok::<P>::new(0);
        let v = raw(r)?;
        drop(first);
        Ok(Tok::new(v))
    }
}
impl<const P: usize> DekuWriter<()> for Tok<P> {
    fn to_writer<W: no_std_io::Write + no_std_io::Seek>(&self, w: &mut Writer<W>, _: ()) -> Result<(), DekuError> {
        if self.v == 2 { return Err(DekuError::InvalidParam("unwritable".into())); }
        self.v.to_writer(w, ())
    }
}
type T = Tok<0>;
type Big = Tok<40>;
/// zero-sized element: only numbers of creations and drops
#[derive(Debug, PartialEq, Eq, Hash)]
struct Zst(());
impl Drop for Zst { fn drop(&mut self) { let _ = L.try_with(|l| l.borrow_mut().z_dropped += 1); } }
impl Clone for Zst { fn clone(&self) -> Self { with(|l| l.z_made += 1); Zst(()) } }
impl DekuReader<'_, ()> for Zst {
    fn from_reader_with_ctx<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>, _: ()) -> Result<Self, DekuError> { raw(r)?; with(|l| l.z_made += 1); Ok(Zst(())) }
}
/// element owning heap memory
type Heap = (Box<T>, Box<T>);

// ---- which elements a value owns
trait Own { fn own(&self, out: &mut Vec<u64>, z: &mut u64); }
impl<const P: usize> Own for Tok<P> { fn own(&self, o: &mut Vec<u64>, _: &mut u64) { o.push(self.id) } }
impl Own for Zst { fn own(&self, _: &mut Vec<u64>, z: &mut u64) { *z += 1 } }
impl Own for u8 { fn own(&self, _: &mut Vec<u64>, _: &mut u64) {} }
impl<A: Own + ?Sized> Own for Box<A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { (**self).own(o, z) } }
impl<A: Own + ?Sized> Own for Arc<A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { (**self).own(o, z) } }
impl<A: Own + Clone> Own for Cow<'_, A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { (**self).own(o, z) } }
impl<A: Own> Own for Option<A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { if let Some(a) = self { a.own(o, z) } } }
impl<A: Own> Own for [A] { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { for a in self { a.own(o, z) } } }
impl<A: Own, const N: usize> Own for [A; N] { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { self[..].own(o, z) } }
impl<A: Own> Own for Vec<A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { self[..].own(o, z) } }
impl<A: Own> Own for HashSet<A> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { for a in self { a.own(o, z) } } }
impl<K: Own, V: Own> Own for HashMap<K, V> { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { for (k, v) in self { k.own(o, z); v.own(o, z) } } }
macro_rules! tup { ($($t:ident)+) => { impl<$($t: Own),+> Own for ($($t,)+) { #[allow(non_snake_case)] fn own(&self, o: &mut Vec<u64>, z: &mut u64) { let ($($t,)+) = self; $($t.own(o, z);)+ } } } }
tup!(A); tup!(A B); tup!(A B C); tup!(A B C D); tup!(A B C D E); tup!(A B C D E F); tup!(A B C D E F G); tup!(A B C D E F G H); tup!(A B C D E F G H I); tup!(A B C D E F G H I J); tup!(A B C D E F G H I J K);

// ---- derived programs over tokens
macro_rules! own { ($t:ident: $($f:ident)*) => { impl Own for $t { fn own(&self, _o: &mut Vec<u64>, _z: &mut u64) { $(self.$f.own(_o, _z);)* } } } }
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S1 { a: T, b: [T; 2], c: T }
own!(S1: a b c);
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S2 { n: u8, #[deku(count = "n")] v: Vec<T>, #[deku(count = "2")] w: Vec<[T; 2]> }
own!(S2: v w);
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S3 { a: T, #[deku(assert = "*b != 2")] b: u8, c: T, #[deku(magic = b"\x01")] d: T }
own!(S3: a c d);
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S4 { a: T, #[deku(cond = "a.v == 2")] o: Option<T>, #[deku(until = "|t: &T| { if t.v == 9 { panic!(\"user panic in until\") } t.v == 2 }")] u: Vec<T>, #[deku(read_all)] r: Vec<T> }
own!(S4: a o u r);
fn mapper(t: T) -> Result<[T; 2], DekuError> { match t.v { 2 => Err(DekuError::Parse("map".into())), 3 => panic!("user panic in map"), v => Ok([t, Tok::new(v)]) } }
#[derive(DekuRead, Debug)] struct S5 { a: T, #[deku(map = "mapper")] m: [T; 2], b: T }
own!(S5: a m b);
fn rd<R: no_std_io::Read + no_std_io::Seek>(r: &mut Reader<R>) -> Result<Vec<T>, DekuError> { let mut v = vec![]; for _ in 0..2 { v.push(T::from_reader_with_ctx(r, ())?); } Ok(v) }
#[deku_derive(DekuRead)] #[derive(Debug)] struct S6 { #[deku(reader = "rd(deku::reader)")] a: Vec<T>, #[deku(temp)] t: T, #[deku(skip, default = "Tok::new(7)")] s: T, b: Box<T> }
impl Own for S6 { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { self.a.own(o, z); self.s.own(o, z); self.b.own(o, z) } }
#[derive(DekuRead, DekuWrite, Debug, Clone)] #[deku(id_type = "u8")] enum E1 { #[deku(id = "1")] A(T, T), #[deku(id = "2")] B { x: [T; 3], y: Box<T> }, #[deku(id_pat = "_")] C(u8, T) }
impl Own for E1 { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { match self { E1::A(a, b) => { a.own(o, z); b.own(o, z) } E1::B { x, y } => { x.own(o, z); y.own(o, z) } E1::C(_, t) => t.own(o, z) } } }
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S7 { e: [E1; 2], s: S1b, #[deku(count = "2")] v: Vec<S1b> }
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S1b { a: T, b: Box<T> }
own!(S1b: a b);
own!(S7: e s v);
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S8 { a: T, #[deku(pad_bytes_after = "1")] b: T, #[deku(pad_bits_before = "4", bits = "4")] c: u8, d: T, #[deku(seek_from_current = "1")] e: [T; 2] }
own!(S8: a b d e);
#[derive(DekuRead, DekuWrite, Debug, Clone)] struct S9 { a: Cow<'static, T>, b: Arc<T>, #[deku(count = "2")] c: Arc<[T]>, #[deku(count = "2")] d: Box<[T]> }
impl Own for S9 { fn own(&self, o: &mut Vec<u64>, z: &mut u64) { self.a.own(o, z); self.b.own(o, z); self.c.own(o, z); self.d.own(o, z) } }

type Rr<'a> = Reader<std::io::Cursor<&'a [u8]>>;
/// run one read and audit the ledger
fn audit<V: Own>(l: &mut Local, name: &str, input: &[u8], write: Option<fn(&V)>, f: impl FnOnce(&mut Rr) -> Result<V, DekuError>) {
    let r = report::get();
    case(name, input, || {
        with(|l| { l.live.clear(); l.next = 0; l.bad.clear(); l.z_made = 0; l.z_dropped = 0; });
        let mut rd = Reader::new(std::io::Cursor::new(input));
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut rd)));
        let show = |k: &str, m: String| r.fail(&format!("{name}:{k}"), format!("{name} input [{}]: {m}", report::hex(input)));
        l.evals += 1; l.trans += with(|l| l.next + l.z_made); l.traces += 1;
        let kind = match &res { Ok(Ok(_)) => 0u8, Ok(Err(DekuError::Incomplete(_))) => 1, Ok(Err(_)) => 2, Err(_) => 3 };
        let mut ids = vec![]; let mut z = 0;
        if let Ok(Ok(v)) = &res { v.own(&mut ids, &mut z); }
        let want: BTreeSet<u64> = ids.iter().copied().collect();
        if want.len() != ids.len() { show("alias", format!("the result holds the same element twice: {ids:?}")); }
        let what = ["the read succeeded", "the read failed as incomplete", "the read failed", "the read panicked"][kind as usize];
        let check = |stage: &str, want: &BTreeSet<u64>, z: u64| with(|l| {
            if !l.bad.is_empty() { show("double", format!("{what}: {stage}: {}", l.bad.join("; "))); l.bad.clear(); }
            let leak: Vec<u64> = l.live.difference(want).map(|x| x & !SALT).collect();
            let lost: Vec<u64> = want.difference(&l.live).map(|x| x & !SALT).collect();
            if !leak.is_empty() { show("leak", format!("{what}: {stage}: elements {leak:?} of {} created are still alive but not owned by the result", l.next)); }
            if !lost.is_empty() { show("lost", format!("{what}: {stage}: elements {lost:?} are owned by the result but were already dropped (or never created)")); }
            if l.z_made - l.z_dropped.min(l.z_made) != z || l.z_dropped > l.z_made { show("zst", format!("{what}: {stage}: {} zero-sized elements created, {} dropped, {z} owned", l.z_made, l.z_dropped)); }
        });
        check("after the read", &want, z);
        if let (Ok(Ok(v)), Some(w)) = (&res, write) {
            let _ = catch_unwind(AssertUnwindSafe(|| w(v)));
            check("after writing the value", &want, z);
        }
        let (made, zm) = with(|l| (l.next, l.z_made));
        l.see((name, kind, ids.len(), made, zm, z));
        drop(res);
        check("after the result is dropped", &BTreeSet::new(), 0);
        if r.want_sample() && kind > 0 && made > 2 { r.sample(|| format!("{name} on [{}]: {what} with {made} elements created, all dropped once", report::hex(input))); }
    });
}
/// every string over the alphabet up to `full` bytes, then every string of up to `max` bytes with at most one (two) special bytes
fn inputs(full: usize, max: usize, pairs: bool, mut f: impl FnMut(&[u8])) {
    for n in 0..=full.min(max) {
        let mut s = vec![0usize; n];
        loop {
            let b: Vec<u8> = s.iter().map(|&i| ALPHA[i]).collect();
            f(&b);
            let Some(i) = s.iter().position(|&x| x + 1 < ALPHA.len()) else { break };
            for x in &mut s[..i] { *x = 0; }
            s[i] += 1;
        }
    }
    for n in full + 1..=max {
        let base: Vec<u8> = (0..n).map(|i| if i % 7 == 3 { OK2 } else { 3 + (i % 100) as u8 }).collect();
        f(&base);
        let pairs = pairs && (n <= 10 || report::get().thorough);
        for i in 0..n { for &a in &[ERR, PANIC, LONG, OK2] {
            let mut b = base.clone(); b[i] = a; f(&b);
            if pairs { for j in 0..i { for &c in &[LONG, HPANIC] { let mut b = b.clone(); b[j] = c; f(&b); } } }
        } }
    }
}
type Jobs = Vec<(String, Job)>;
fn add<V: Own + 'static>(j: &mut Jobs, name: String, full: usize, max: usize, pairs: bool, write: Option<fn(&V)>, f: impl Fn(&mut Rr) -> Result<V, DekuError> + Send + Sync + 'static) {
    let n = name.clone();
    j.push((name, Box::new(move |l| inputs(full, max, pairs, |b| audit(l, &n, b, write, &f)))));
}
fn wr<V: DekuWriter<()>>(v: &V) { let mut w = Writer::new(std::io::Cursor::new(Vec::new())); let _ = v.to_writer(&mut w, ()); }
fn main() {
    let r = report::init("C20", "fault_enumeration", "shapes (arrays of every length up to a bound of small, large, zero-sized and heap-owning elements; counted, bounded, predicate and read-all vectors, boxed and shared slices, maps, sets, tuples of every length, options, cows, nestings, derived structs and enums with every attribute that can fail after a field was built) x every input over {two plain values, failing element, panicking element, two-byte element, element whose hash panics} up to the full length, longer inputs with every single and pair of special elements at every position, every truncation; the ledger is audited after the read, after a write, and after the drop of the result");
    let full = if r.thorough { 8 } else { 5 };
    let pairs = true;
    let mut j: Jobs = vec![];
    macro_rules! arrs { ($max:expr; $($n:literal)*) => { $(
        add(&mut j, format!("[T;{}]", $n), full, $n + 1, pairs, Some(wr::<[T; $n]>), |r| <[T; $n]>::from_reader_with_ctx(r, ()));
        add(&mut j, format!("[Big;{}]", $n), full.min(5), $n + 1, pairs, Some(wr::<[Big; $n]>), |r| <[Big; $n]>::from_reader_with_ctx(r, ()));
        add(&mut j, format!("[Zst;{}]", $n), full.min(5), $n + 1, pairs, None, |r| <[Zst; $n]>::from_reader_with_ctx(r, ()));
        add(&mut j, format!("[Heap;{}]", $n), full.min(5), 2 * $n + 1, pairs, Some(wr::<[Heap; $n]>), |r| <[Heap; $n]>::from_reader_with_ctx(r, ()));
    )* } }
    arrs!(0; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 24 31 32 33 40);
    // nested arrays
    macro_rules! nest { ($($name:literal $t:ty, $len:expr;)*) => { $( add(&mut j, $name.to_string(), full, $len, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, ())); )* } }
    nest! {
        "[[T;2];3]" [[T; 2]; 3], 7; "[[[T;2];2];2]" [[[T; 2]; 2]; 2], 9; "[(T,Big);3]" [(T, Big); 3], 7; "[Option<T>;4]" [Option<T>; 4], 5;
        "[Box<T>;4]" [Box<T>; 4], 5; "Box<[T;4]>" Box<[T; 4]>, 5; "Arc<[T;4]>" Arc<[T; 4]>, 5; "Option<[T;3]>" Option<[T; 3]>, 4; "[E1;2]" [E1; 2], 9; "[S1;2]" [S1; 2], 9;
        "Box<(T,[T;3])>" Box<(T, [T; 3])>, 5; "Cow<T>" Cow<'static, T>, 2; "[[T;0];3]" [[T; 0]; 3], 2; "[[Big;3];2]" [[Big; 3]; 2], 7; "[(Box<T>,[T;2]);2]" [(Box<T>, [T; 2]); 2], 7;
        "(T,)" (T,), 2; "(T,T)" (T, T), 3; "(T*3)" (T, T, T), 4; "(T*4)" (T, Big, T, T), 5; "(T*5)" (T, T, T, T, T), 6; "(T*6)" (T, T, T, T, T, T), 7; "(T*7)" (T, T, T, T, T, T, T), 8;
        "(T*8)" (T, T, T, T, T, T, T, T), 9; "(T*9)" (T, T, T, T, T, T, T, T, T), 10; "(T*10)" (T, T, T, T, T, T, T, T, T, T), 11; "(T*11)" (T, T, T, T, T, T, T, T, T, T, T), 12; "([T;2],Box<T>,[T;3])" ([T; 2], Box<T>, [T; 3]), 7;
        "S1" S1, 5; "S2" S2, 8; "S3" S3, 6; "S4" S4, 7; "E1" E1, 5; "S7" S7, 12; "S8" S8, 9; "S9" S9, 8; "[S4;1]" [S4; 1], 7; "[S2;2]" [S2; 2], 8;
    }
    macro_rules! nowr { ($($name:literal $t:ty, $len:expr;)*) => { $( add(&mut j, $name.to_string(), full, $len, pairs, None, |r| <$t>::from_reader_with_ctx(r, ())); )* } }
    nowr! { "S5" S5, 4; "S6" S6, 5; "[S5;2]" [S5; 2], 7; "[S6;2]" [S6; 2], 8; "(S5,S6)" (S5, S6), 8; }
    // containers with every limit
    macro_rules! conts { ($($n:literal)*) => { $(
        macro_rules! lim { ($k:literal, $t:ty, $e:ty) => {
            add(&mut j, format!("{} count {}", $k, $n), full, $n + 2, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_count($n), ())));
            add(&mut j, format!("{} bytes {}", $k, $n), full, $n + 2, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_byte_size(deku::ctx::ByteSize($n)), ())));
            add(&mut j, format!("{} bits {}", $k, $n), full, $n + 2, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::new_bit_size(deku::ctx::BitSize($n * 8)), ())));
        } }
        lim!("Vec<T>", Vec<T>, T); lim!("Vec<Big>", Vec<Big>, Big); lim!("Box<[T]>", Box<[T]>, T); lim!("Arc<[T]>", Arc<[T]>, T); lim!("HashSet<T>", HashSet<T>, T);
        lim!("Vec<[T;2]>", Vec<[T; 2]>, [T; 2]); lim!("Vec<(T,Box<T>)>", Vec<(T, Box<T>)>, (T, Box<T>)); lim!("HashMap<T,T>", HashMap<T, T>, (T, T)); lim!("HashMap<T,[T;2]>", HashMap<T, [T; 2]>, (T, [T; 2]));
    )* } }
    conts!(0 1 2 3 4 5 6);
    macro_rules! until { ($($name:literal $t:ty, $e:ty, $p:expr;)*) => { $(
        add(&mut j, format!("{} until", $name), full, 8, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, (Limit::new_until($p as fn(&$e) -> bool), ())));
        add(&mut j, format!("{} to end", $name), full, 8, pairs, Some(wr::<$t>), |r| <$t>::from_reader_with_ctx(r, (Limit::<$e, fn(&$e) -> bool>::end(), ())));
    )* } }
    fn stop(v: u8) -> bool { if v == 9 { panic!("user panic in predicate") } v == 2 }
    until! { "Vec<T>" Vec<T>, T, |t| stop(t.v); "Box<[T]>" Box<[T]>, T, |t| stop(t.v); "Arc<[T]>" Arc<[T]>, T, |t| stop(t.v); "HashSet<T>" HashSet<T>, T, |t| stop(t.v); "HashMap<T,T>" HashMap<T, T>, (T, T), |t| stop(t.0.v); "Vec<[T;2]>" Vec<[T; 2]>, [T; 2], |t| stop(t[1].v); }
    add(&mut j, "Vec<u8> exact".into(), full, 6, pairs, None, |r| Vec::<u8>::from_reader_with_ctx(r, ReadExact(4)));
    // entry points that judge the value after it is complete
    macro_rules! entry { ($($name:literal $t:ident;)*) => { $(
        add(&mut j, format!("{} from_bytes", $name), full, 7, pairs, None, |r| { let b = *r.as_mut().get_ref(); <$t>::from_bytes((b, 0)).map(|x| x.1) });
        add(&mut j, format!("{} from_bytes at bit 3", $name), full, 7, pairs, None, |r| { let b = *r.as_mut().get_ref(); <$t>::from_bytes((b, 3)).map(|x| x.1) });
        add(&mut j, format!("{} try_from", $name), full, 7, pairs, None, |r| { let b = *r.as_mut().get_ref(); <$t>::try_from(b) });
        add(&mut j, format!("{} from_reader", $name), full, 7, pairs, None, |r| { let b = *r.as_mut().get_ref(); let mut c = std::io::Cursor::new(b); <$t>::from_reader((&mut c, 0)).map(|x| x.1) });
    )* } }
    entry! { "S1" S1; "S3" S3; "S4" S4; "S5" S5; "E1" E1; "S7" S7; }
    r.extra("full_length", full);
    run_jobs(j);
    r.finish_and_exit()
}
impl Own for () { fn own(&self, _: &mut Vec<u64>, _: &mut u64) {} }
