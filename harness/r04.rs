use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use crate::Facet;
use crate::alloc;
use core::num::NonZeroU32;
/// Type safety of the dynamic layer: a place of type T is only ever read, written and taken out as a T.
/// A table of types (by index) and, per type, every use of it as each type of the table.

pub static mut DROPS: usize = 0;
pub struct Tk(u8);
impl Drop for Tk { fn drop(&mut self) { unsafe { DROPS += 1 } } }
unsafe impl Facet for Tk { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<Tk>()).layout(core::alloc::Layout::new::<Tk>())
    .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build())).vtable(&const { ValueVTable::builder().type_name(|_, _| Ok(())).drop_in_place(|p| unsafe { p.drop_in_place::<Tk>() }).build() }).build() }; }
#[derive(Facet, Clone, Copy, PartialEq)] pub struct S { pub a: u32 }
/// same content, another type
#[derive(Facet, Clone, Copy, PartialEq)] pub struct S2 { a: u32 }
#[derive(Facet, Clone, Copy, PartialEq)] pub struct G<T> { a: T }
#[derive(Facet, Clone, Copy, PartialEq)] #[repr(u8)] pub enum E { A, B(u8) }
/// any value of the type, and comparison of the representation
pub trait Ty: Facet + Copy + PartialEq { fn v() -> Self; }
macro_rules! tys { ($($t:ty = $e:expr),* $(,)?) => { $( impl Ty for $t { fn v() -> $t { $e } } )* } }
tys! { u8 = any(), i8 = any(), bool = any(), u16 = any(), u32 = any(), i32 = any(), char = any(), u64 = any(), i64 = any(), usize = any(), () = (),
    [u8; 4] = any(), [u16; 2] = any(), (u8, u8) = any(), (u32,) = (any(),), Option<u8> = any(), Option<u32> = any(), Option<Option<u8>> = any(), S = S { a: any() }, S2 = S2 { a: any() }, G<u32> = G { a: any() }, G<i32> = G { a: any() },
    NonZeroU32 = { let x: u32 = any(); assume(x != 0); NonZeroU32::new(x).unwrap() }, E = if any() { E::A } else { E::B(any()) } }

/// runs $m!(args; index type, ...) over the table
macro_rules! table { ($m:ident, $i:literal, $t:ty) => { $m!($i, $t; 0 u8, 1 i8, 2 bool, 3 u16, 4 u32, 5 i32, 6 char, 7 u64, 8 i64, 9 usize, 10 (), 11 [u8; 4], 12 [u16; 2], 13 (u8, u8), 14 (u32,), 15 Option<u8>, 16 Option<u32>, 17 Option<Option<u8>>, 18 S, 19 S2, 20 G<u32>, 21 G<i32>, 22 NonZeroU32, 23 E) } }
/// reading
macro_rules! get { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{
    let v = <$t>::v(); let p = Peek::new(&v);
    assert!(p.shape() == <$t as Facet>::SHAPE);
    $( match p.get::<$u>() { Ok(r) => assert!($i == $j && core::ptr::eq(r as *const $u as *const u8, &v as *const $t as *const u8), "read as another type"), Err(_) => assert!($i != $j, "refused to read as its own type") } )*
    assert!(v == v);
}} }
/// what an Option place also accepts: its payload
fn payload(i: usize, j: usize) -> bool { (i == 15 && j == 0) || (i == 16 && j == 4) || (i == 17 && j == 15) }
/// writing at the root of a builder
macro_rules! put { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{ $( {
    let w = Wip::alloc::<$t>();
    assert!(w.shape() == <$t as Facet>::SHAPE && w.current_is_type::<$u>() == ($i == $j));
    match w.put::<$u>(<$u>::v()) { Ok(w) => { assert!($i == $j || payload($i, $j), "a value of another type was accepted"); drop(w) } Err(_) => assert!($i != $j && !payload($i, $j), "a value of the right type was refused") }
} )* }} }
/// writing into a field
#[derive(Facet)] pub struct Pl<T> { pub pad: u8, pub t: T }
macro_rules! putf { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{ $( {
    let w = ok(Wip::alloc::<Pl<$t>>().field(1));
    match w.put::<$u>(<$u>::v()) { Ok(w) => { assert!($i == $j || payload($i, $j), "a value of another type was accepted"); drop(w) } Err(_) => assert!($i != $j && !payload($i, $j), "a value of the right type was refused") }
} )* }} }
/// taking out; the value itself comes out when asked for as what it is
macro_rules! take { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{ $( {
    let v = <$t>::v();
    let h = ok(ok(Wip::alloc::<$t>().put(v)).build());
    assert!(h.peek().shape() == <$t as Facet>::SHAPE && *ok(h.peek().get::<$t>()) == v);
    match h.materialize::<$u>() { Ok(x) => assert!($i == $j && unsafe { *(&x as *const $u as *const $t) } == v, "taken out as another type"), Err(_) => assert!($i != $j, "refused to be taken out as its own type") }
} )* }} }
/// a clone of a value behind a view
macro_rules! putp { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{ $( {
    let u = <$u>::v();
    if <$u as Facet>::SHAPE.vtable.clone_into.is_some() {
        match Wip::alloc::<$t>().put_peek(Peek::new(&u)) { Ok(w) => { assert!($i == $j || payload($i, $j), "a value of another type was accepted"); drop(w) } Err(_) => assert!($i != $j && !payload($i, $j), "a value of the right type was refused") }
    }
} )* }} }
/// comparing views of different types
macro_rules! cmp { ($i:literal, $t:ty; $($j:literal $u:ty),*) => {{
    let v = <$t>::v(); let p = Peek::new(&v);
    $( { let u = <$u>::v(); let q = Peek::new(&u);
        if $i == $j { assert!(<$t as Facet>::SHAPE.vtable.eq.is_none() || (p == q) == unsafe { *(&u as *const $u as *const $t) == v }) }
        else { assert!(p != q && p.eq(&q) != Some(true) && PartialOrd::partial_cmp(&p, &q).is_none() && Peek::partial_cmp(&p, &q).is_none(), "values of different types compared") } } )*
}} }
crate::harness! {
    fn get_u8(6) { table!(get, 0, u8) }
    fn cmp_u8(8) { table!(cmp, 0, u8) }
    fn t_get_bool(6) { table!(get, 2, bool) }
    fn t_cmp_bool(8) { table!(cmp, 2, bool) }
    fn get_u32(6) { table!(get, 4, u32) }
    fn cmp_u32(8) { table!(cmp, 4, u32) }
    fn t_get_char(6) { table!(get, 6, char) }
    fn t_cmp_char(8) { table!(cmp, 6, char) }
    fn t_get_i64(6) { table!(get, 8, i64) }
    fn t_cmp_i64(8) { table!(cmp, 8, i64) }
    fn t_get_unit(6) { table!(get, 10, ()) }
    fn t_cmp_unit(8) { table!(cmp, 10, ()) }
    fn get_array(6) { table!(get, 11, [u8; 4]) }
    fn cmp_array(8) { table!(cmp, 11, [u8; 4]) }
    fn t_get_tuple(6) { table!(get, 14, (u32,)) }
    fn t_cmp_tuple(8) { table!(cmp, 14, (u32,)) }
    fn get_option(6) { table!(get, 16, Option<u32>) }
    fn t_cmp_option(8) { table!(cmp, 16, Option<u32>) }
    fn get_struct(6) { table!(get, 18, S) }
    fn cmp_struct(8) { table!(cmp, 18, S) }
    fn t_get_generic(6) { table!(get, 20, G<u32>) }
    fn t_cmp_generic(8) { table!(cmp, 20, G<u32>) }
    fn t_get_nz(6) { table!(get, 22, NonZeroU32) }
    fn t_cmp_nz(8) { table!(cmp, 22, NonZeroU32) }
    fn get_enum(6) { table!(get, 23, E) }
    fn t_cmp_enum(8) { table!(cmp, 23, E) }
}
macro_rules! all_of { ($m:ident) => { match below(24) {
    0 => table!($m, 0, u8), 1 => table!($m, 1, i8), 2 => table!($m, 2, bool), 3 => table!($m, 3, u16), 4 => table!($m, 4, u32), 5 => table!($m, 5, i32), 6 => table!($m, 6, char), 7 => table!($m, 7, u64), 8 => table!($m, 8, i64), 9 => table!($m, 9, usize), 10 => table!($m, 10, ()), 11 => table!($m, 11, [u8; 4]),
    12 => table!($m, 12, [u16; 2]), 13 => table!($m, 13, (u8, u8)), 14 => table!($m, 14, (u32,)), 15 => table!($m, 15, Option<u8>), 16 => table!($m, 16, Option<u32>), 17 => table!($m, 17, Option<Option<u8>>), 18 => table!($m, 18, S), 19 => table!($m, 19, S2), 20 => table!($m, 20, G<u32>), 21 => table!($m, 21, G<i32>), 22 => table!($m, 22, NonZeroU32), _ => table!($m, 23, E) } } }
crate::native! {
    fn n_root() { all_of!(put) }
    fn n_field() { all_of!(putf) }
    fn n_take() { all_of!(take) }
    fn n_peek() { all_of!(putp) }
    fn n_get() { all_of!(get) }
    fn n_cmp() { all_of!(cmp) }
    fn n_map() { let mut m: std::collections::HashMap<u64, u8> = Default::default(); m.insert(any(), any()); let v = Peek::new(&m); let v = ok(v.into_map());
        assert!(!v.contains_key(&any::<u8>()) && v.get(&any::<u32>()).is_none() && !v.contains_key(&()) && !v.contains_key(&any_string(3)) && v.get(&any::<i64>()).is_none(), "a key of another type was looked up"); }
    /// heap types: refused values stay whole and are dropped once
    fn n_heap() {
        use alloc::{string::String, vec::Vec};
        let before = live();
        { let s = any_string(20); let v: Vec<u8> = any_bytes(20);
        assert!(Peek::new(&s).get::<Vec<u8>>().is_err() && Peek::new(&v).get::<String>().is_err() && Peek::new(&v).get::<Vec<i8>>().is_err() && ok(Peek::new(&v).get::<Vec<u8>>()) == &v);
        err(Wip::alloc::<String>().put(v.clone())); err(Wip::alloc::<Vec<u8>>().put(s.clone())); err(Wip::alloc::<Vec<i8>>().put(v.clone())); err(Wip::alloc::<Option<String>>().put(v.clone())); err(Wip::alloc::<Option<String>>().put(Some(v.clone()))); err(Wip::alloc::<Option<Option<String>>>().put(s.clone()));
        err(ok(ok(Wip::alloc::<String>().put(s.clone())).build()).materialize::<Vec<u8>>()); err(ok(ok(Wip::alloc::<Vec<u8>>().put(v.clone())).build()).materialize::<String>());
        let a = alloc::sync::Arc::new(any_string(3)); err(Wip::alloc::<String>().put(a.clone())); assert!(alloc::sync::Arc::strong_count(&a) == 1);
        err(ok(ok(Wip::alloc::<alloc::sync::Arc<String>>().put(a.clone())).build()).materialize::<String>()); assert!(alloc::sync::Arc::strong_count(&a) == 1);
        let r = ok(ok(ok(Wip::alloc::<alloc::sync::Arc<String>>().put(a.clone())).build()).materialize::<alloc::sync::Arc<String>>()); assert!(alloc::sync::Arc::ptr_eq(&r, &a));
        if any() { err(ok(ok(Wip::alloc::<Vec<String>>().begin_pushback()).push()).put(v.clone())) } else { err(ok(ok(Wip::alloc::<Vec<String>>().begin_pushback()).push()).put(any::<u32>())) }
        let mut h = ok(ok(Wip::alloc::<std::collections::HashMap<String, u32>>().begin_map_insert()).push_map_key());
        if any() { err(h.put(any::<u32>())) } else { h = ok(ok(h.put(s.clone())).push_map_value()); err(h.put(s.clone())) } }
        assert!(live() == before, "leak");
    }
}
