use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use crate::Facet;
use crate::alloc;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
/// Contract of the read-only view: what it shows of a value is that value, part by part.

/// the view shows exactly this part: at its address, with its type
fn is<T: Facet>(p: Peek<'_>, t: &T) -> bool { p.shape() == T::SHAPE && p.data().as_byte_ptr() == t as *const T as *const u8 && match p.get::<T>() { Ok(g) => core::ptr::eq(g, t), Err(_) => false } }
#[derive(Facet, PartialEq, Clone)] pub struct S1 { a: u8, b: u32, c: bool }
#[derive(Facet, PartialEq)] pub struct S2 { x: S1, y: u64, z: Option<u16> }
#[derive(Facet)] pub struct Un;
#[derive(Facet)] pub struct T1(u16, i64);
#[derive(Facet)] #[repr(C)] pub struct Rc { p: u8, q: u64, r: u8, s: u16 }
#[derive(Facet)] pub struct Gn<T> { before: u8, g: T, ab: u8, abc: u16, b: u8 }
fn s1() -> S1 { S1 { a: any(), b: any(), c: any() } }

macro_rules! walk { ($v:expr, $t:ty, [$($i:literal $n:literal $f:tt),*], $count:literal) => {{
    let v: $t = $v;
    let p = Peek::new(&v);
    assert!(is(p, &v));
    let s = ok(p.into_struct());
    assert!(s.field_count() == $count && s.def().fields.len() == $count);
    let i: usize = any();
    $( if i == $i { assert!(is(ok(s.field(i)), &v.$f), "the field at an index"); } )*
    if i >= $count { assert!(matches!(s.field(i), Err(FieldError::IndexOutOfBounds)), "an index that does not exist"); }
    $( assert!(is(ok(s.field_by_name($n)), &v.$f), "the field with a name"); )*
    let mut n = 0;
    for (f, q) in s.fields() {
        $( if n == $i { assert!(f.name == $n && is(q, &v.$f), "the fields in order"); } )*
        n += 1;
    }
    assert!(n == $count, "each field once");
}} }
/// any name: found if and only if a field has it
macro_rules! names { ($v:expr, [$($n:literal $f:tt),*], $max:literal) => {{
    let v = $v; let s = ok(Peek::new(&v).into_struct());
    let b: [u8; $max] = any(); let mut i = 0; while i < $max { assume(b[i] < 128); i += 1; }
    let l = below($max + 1); let name = unsafe { core::str::from_utf8_unchecked(&b[..l]) };
    let r = s.field_by_name(name);
    let mut found = false;
    $( if name == $n { found = true; match &r { Ok(p) => assert!(is(*p, &v.$f), "the field with a name"), Err(_) => assert!(false, "a field that exists was not found") } } )*
    if !found { assert!(matches!(r, Err(FieldError::NoSuchField)), "a name that does not exist"); }
}} }
macro_rules! list { ($t:ty, $n:literal) => {{
    let x: [$t; $n] = any();
    let v: alloc::vec::Vec<$t> = alloc::vec::Vec::from(x);
    let l = ok(Peek::new(&v).into_list());
    assert!(l.len() == $n && l.is_empty() == ($n == 0), "the length of a list");
    let i: usize = any();
    match l.get(i) { Some(p) => assert!(i < $n && is(p, &v[i]), "the item at an index"), None => assert!(i >= $n, "an item that exists was not found") }
    let mut n = 0;
    for p in l.iter() { assert!(n < $n && is(p, &v[n]), "the items in order"); n += 1; }
    assert!(n == $n, "each item once");
    let mut it = l.iter(); let k = below($n + 1); let mut j = 0; while j < k { it.next(); j += 1; }
    assert!(it.len() == $n - k, "the number of items left");
}} }
macro_rules! opt { ($t:ty) => {{
    let v: Option<$t> = any();
    let o = ok(Peek::new(&v).into_option());
    assert!(o.is_some() == v.is_some() && o.is_none() == v.is_none());
    match (o.value(), &v) { (Some(p), Some(t)) => assert!(is(p, t), "the payload"), (None, None) => {}, _ => assert!(false, "a payload exactly if there is one") }
}} }
pub struct Fnv(u64); impl Hasher for Fnv { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0 = (self.0 ^ b[i] as u64).rotate_left(7).wrapping_add(0x9E37); i += 1; } } }
fn own<T: Hash>(t: &T) -> u64 { let mut h = Fnv(1); t.hash(&mut h); h.0 }
/// comparisons of views are those of the values, where the type's table has them
fn compare<T: Facet + PartialOrd + Hash>(a: &T, b: &T) {
    let vt = T::SHAPE.vtable;
    let (p, q) = (Peek::new(a), Peek::new(b));
    if vt.eq.is_some() { assert!((p == q) == (a == b) && (p != q) == (a != b) && p.eq(&q) == Some(a == b), "comparing views for equality"); } else { assert!(p != q && p.eq(&q).is_none()); }
    let o = if vt.partial_ord.is_some() { a.partial_cmp(b) } else { None };
    assert!(PartialOrd::partial_cmp(&p, &q) == o && Peek::partial_cmp(&p, &q) == o, "ordering views");
    if vt.partial_ord.is_some() { assert!((p < q) == (a < b) && (p <= q) == (a <= b), "ordering views"); }
    let mut h = Fnv(1); assert!(Peek::hash(&p, &mut h) == vt.hash.is_some(), "hash");
    if vt.hash.is_some() { assert!(h.0 == own(a), "hash"); let mut h = Fnv(1); Hash::hash(&p, &mut h); assert!(h.0 == own(a), "hash"); }
    assert!(p.ptr_eq(&p) && !p.ptr_eq(&q) && p.id() == p.id() && p.id() != q.id());
}
fn float<T: Facet + PartialOrd>(a: &T, b: &T) {
    let (p, q) = (Peek::new(a), Peek::new(b));
    assert!((p == q) == (a == b) && p.eq(&q) == Some(a == b));
    assert!(PartialOrd::partial_cmp(&p, &q) == a.partial_cmp(b));
    let mut h = Fnv(1); assert!(!Peek::hash(&p, &mut h) && h.0 == 1);
}
/// values of different types are never equal nor ordered, whatever they hold
fn differ<A: Facet, B: Facet>(a: &A, b: &B) {
    let (p, q) = (Peek::new(a), Peek::new(b));
    assert!(p != q && q != p);
    assert!(PartialOrd::partial_cmp(&p, &q).is_none() && PartialOrd::partial_cmp(&q, &p).is_none());
    assert!(p.eq(&q) != Some(true) && q.eq(&p) != Some(true), "eq of values of different types");
    assert!(Peek::partial_cmp(&p, &q).is_none() && Peek::partial_cmp(&q, &p).is_none(), "ordering of values of different types");
}
/// a view is what its type is and nothing else
fn kind<T: Facet>(t: &T, st: bool, en: bool, map: bool, list: bool, opt: bool, sp: bool) {
    let p = Peek::new(t);
    assert!(p.into_struct().is_ok() == st && p.into_enum().is_ok() == en && p.into_map().is_ok() == map && p.into_list().is_ok() == list && p.into_option().is_ok() == opt && p.into_smart_pointer().is_ok() == sp);
}
#[derive(Facet)] #[repr(u8)] pub enum E1 { A, B(u8) }

crate::harness! {
    fn s_plain(6) { walk!(s1(), S1, [0 "a" a, 1 "b" b, 2 "c" c], 3) }
    fn s_nested(6) { walk!((S2 { x: s1(), y: any(), z: any() }), S2, [0 "x" x, 1 "y" y, 2 "z" z], 3) }
    fn s_tuple_struct(6) { walk!(T1(any(), any()), T1, [0 "0" 0, 1 "1" 1], 2) }
    fn s_tuple(6) { walk!((any::<u8>(), any::<u64>(), any::<bool>()), (u8, u64, bool), [0 "0" 0, 1 "1" 1, 2 "2" 2], 3) }
    fn s_repr_c(6) { walk!((Rc { p: any(), q: any(), r: any(), s: any() }), Rc, [0 "p" p, 1 "q" q, 2 "r" r, 3 "s" s], 4) }
    fn s_generic(8) { walk!((Gn { before: any(), g: (any::<u32>(), any::<u8>()), ab: any(), abc: any(), b: any() }), Gn<(u32, u8)>, [0 "before" before, 1 "g" g, 2 "ab" ab, 3 "abc" abc, 4 "b" b], 5) }
    fn s_unit(4) { let v = Un; let s = ok(Peek::new(&v).into_struct()); assert!(s.field_count() == 0 && s.field(any()).is_err() && s.field_by_name("").is_err() && s.fields().next().is_none()); }
    fn n_any(6) { names!(s1(), ["a" a, "b" b, "c" c], 2) }
    fn n_prefixes(10) { names!((Gn { before: any(), g: any::<u8>(), ab: any(), abc: any(), b: any() }), ["before" before, "g" g, "ab" ab, "abc" abc, "b" b], 4) }
    fn n_tuple(6) { names!((any::<u8>(), any::<u64>()), ["0" 0, "1" 1], 2) }
    fn l_0(4) { list!(u32, 0) }
    fn l_1(6) { list!(u32, 1) }
    fn l_2(6) { list!(u16, 2) }
    fn l_3(8) { list!(u32, 3) }
    fn t_l_5(8) { list!(u8, 5) }
    fn l_nested(8) { list!((u8, u32), 2) }
    fn o_u32(4) { opt!(u32) }
    fn o_bool(4) { opt!(bool) }
    fn o_nested(4) { opt!(Option<u8>) }
    fn o_tuple(4) { opt!((u8, u64)) }
    fn c_u8(12) { compare(&any::<u8>(), &any::<u8>()) }
    fn c_i64(12) { compare(&any::<i64>(), &any::<i64>()) }
    fn c_char(12) { compare(&any::<char>(), &any::<char>()) }
    fn c_option(12) { compare(&any::<Option<u16>>(), &any::<Option<u16>>()) }
    fn c_tuple(16) { compare(&any::<(u8, u32)>(), &any::<(u8, u32)>()) }
    fn c_array(16) { compare(&any::<[u16; 3]>(), &any::<[u16; 3]>()) }
    fn c_f64(12) { float(&any::<f64>(), &any::<f64>()) }
    fn d_sizes(4) { differ(&any::<u8>(), &any::<u64>()) }
    fn d_same_size(4) { differ(&any::<u32>(), &any::<i32>()) }
    fn d_option(4) { differ(&any::<Option<u32>>(), &any::<u32>()) }
    fn d_tuple(4) { differ(&any::<(u8, u8)>(), &any::<[u8; 2]>()) }

    fn kinds(4) {
        kind(&any::<u32>(), false, false, false, false, false, false);
        kind(&s1(), true, false, false, false, false, false);
        kind(&any::<(u8, u16)>(), true, false, false, false, false, false);
        kind(&E1::B(any()), false, true, false, false, false, false);
        kind(&any::<Option<u8>>(), false, false, false, false, true, false);
        kind(&alloc::vec::Vec::<u8>::new(), false, false, false, true, false, false);
        kind(&any::<[u8; 3]>(), false, false, false, false, false, false);
    }
}
crate::native! {
    /// lists of heap values of any length, nested lists
    fn m_list() {
        let v: alloc::vec::Vec<alloc::string::String> = (0..below(40)).map(|_| any_string(5)).collect();
        let l = ok(Peek::new(&v).into_list());
        assert!(l.len() == v.len());
        for i in 0..v.len() + 2 { match l.get(i) { Some(p) => assert!(is(p, &v[i])), None => assert!(i >= v.len()) } }
        assert!(l.iter().count() == v.len()); for (i, p) in l.iter().enumerate() { assert!(is(p, &v[i])) }
        for (i, p) in (&l).into_iter().enumerate() { assert!(is(p, &v[i])) }
        let w: alloc::vec::Vec<alloc::vec::Vec<u16>> = (0..below(6)).map(|_| (0..below(4)).map(|_| any()).collect()).collect();
        for (i, p) in ok(Peek::new(&w).into_list()).iter().enumerate() { for (j, q) in ok(p.into_list()).iter().enumerate() { assert!(is(q, &w[i][j])) } }
        assert!(Peek::new(&w) == Peek::new(&w.clone())); let mut x = w.clone(); x.push(std::vec![1]); assert!(Peek::new(&w) != Peek::new(&x)); let (vt, o) = (<alloc::vec::Vec<alloc::vec::Vec<u16>>>::SHAPE.vtable, PartialOrd::partial_cmp(&Peek::new(&w), &Peek::new(&x))); assert!(o == if vt.partial_ord.is_some() { Some(Ordering::Less) } else { None });
    }
    /// maps: each entry once, look-up by any key
    fn m_map() {
        let mut v: std::collections::HashMap<alloc::string::String, u32> = Default::default();
        for _ in 0..below(12) { v.insert(any_string(2), any()); }
        let m = ok(Peek::new(&v).into_map());
        assert!(m.len() == v.len() && m.is_empty() == v.is_empty());
        let mut seen: std::collections::HashSet<&str> = Default::default();
        for (k, x) in m.iter() { let k = ok(k.get::<alloc::string::String>()).clone(); let (kk, vv) = v.get_key_value(&k).unwrap(); assert!(seen.insert(kk), "an entry appears twice"); assert!(is(x, vv), "the value of an entry"); }
        assert!(seen.len() == v.len(), "each entry once");
        { let mut it = m.iter(); let n = below(v.len() + 1); for _ in 0..n { it.next(); } }
        for (k, x) in &v { assert!(m.contains_key(k) && is(m.get(k).unwrap(), x)) }
        let k = any_string(2); assert!(m.contains_key(&k) == v.contains_key(&k) && m.get(&k).is_some() == v.contains_key(&k));
        // a key of another type is in no map
        assert!(!m.contains_key(&any::<u32>()) && m.get(&any::<u8>()).is_none() && m.get(&any::<(u64, u64, u64)>()).is_none());
        let mut b: std::collections::BTreeMap<u16, (u8, alloc::string::String)> = Default::default();
        for _ in 0..below(12) { b.insert(any(), (any(), any_string(2))); }
        let m = ok(Peek::new(&b).into_map());
        assert!(m.len() == b.len());
        for ((k, x), (kk, vv)) in m.iter().zip(b.iter()) { assert!(is(k, kk) && is(x, vv), "entries of a sorted map in order") }
        assert!(m.iter().count() == b.len());
        let k: u16 = any(); assert!(m.contains_key(&k) == b.contains_key(&k)); match (m.get(&k), b.get(&k)) { (Some(p), Some(x)) => assert!(is(p, x)), (None, None) => {}, _ => panic!("look-up") }
        assert!(!m.contains_key(&any::<u64>()) && m.get(&any::<u32>()).is_none());
    }
    /// comparisons between views of heap types
    fn m_compare() {
        let (a, b) = (any_string(3), any_string(3)); compare(&a, &b);
        let (a, b): (alloc::vec::Vec<u16>, alloc::vec::Vec<u16>) = ((0..below(4)).map(|_| any()).collect(), (0..below(4)).map(|_| any()).collect()); compare(&a, &b);
        differ(&a, &any_string(3)); differ(&any_string(30), &any::<u8>()); differ(&any::<u8>(), &a); differ(&any::<u64>(), &b); differ(&Some(any_string(3)), &any_string(3));
        let (x, y): (S1, S1) = (s1(), s1()); if <S1 as Facet>::SHAPE.is_partial_eq() { assert!((Peek::new(&x) == Peek::new(&y)) == (x == y)); }
    }
    /// text through the view
    fn m_text() {
        let s = any_string(5); assert!(std::format!("{}", Peek::new(&s)) == s && std::format!("{:?}", Peek::new(&s)) == std::format!("{s:?}"));
        let n: i64 = any(); assert!(std::format!("{}", Peek::new(&n)) == std::format!("{n}"));
        let o: Option<u16> = any(); assert!(std::format!("{:?}", Peek::new(&o)) == std::format!("{o:?}"));
        let f: f64 = any(); assert!(std::format!("{} {:?}", Peek::new(&f), Peek::new(&f)) == std::format!("{f} {f:?}"));
    }
}
