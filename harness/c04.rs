use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::ScalarType;
use crate::ops::advertised;
use crate::alloc;
use alloc::{borrow::Cow, string::String, vec::Vec, sync::{Arc, Weak}, collections::BTreeMap};
use core::num::NonZero;
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

#[derive(crate::Facet)] pub struct Sa { a: u32 }
#[derive(crate::Facet)] pub struct Sb { a: u32 }
#[derive(crate::Facet)] pub struct Ga<T> { a: T }

/// the scalar types the classification lists
pub static SCALARS: [(&'static Shape, ScalarType); 22] = [
    (<()>::SHAPE, ScalarType::Unit), (bool::SHAPE, ScalarType::Bool), (<&'static str>::SHAPE, ScalarType::Str), (String::SHAPE, ScalarType::String), (<Cow<'static, str>>::SHAPE, ScalarType::CowStr),
    (f32::SHAPE, ScalarType::F32), (f64::SHAPE, ScalarType::F64), (u8::SHAPE, ScalarType::U8), (u16::SHAPE, ScalarType::U16), (u32::SHAPE, ScalarType::U32), (u64::SHAPE, ScalarType::U64), (usize::SHAPE, ScalarType::USize),
    (i8::SHAPE, ScalarType::I8), (i16::SHAPE, ScalarType::I16), (i32::SHAPE, ScalarType::I32), (i64::SHAPE, ScalarType::I64), (isize::SHAPE, ScalarType::ISize),
    (SocketAddr::SHAPE, ScalarType::SocketAddr), (IpAddr::SHAPE, ScalarType::IpAddr), (Ipv4Addr::SHAPE, ScalarType::Ipv4Addr), (Ipv6Addr::SHAPE, ScalarType::Ipv6Addr), (ConstTypeId::SHAPE, ScalarType::ConstTypeId),
];
/// every other kind of type: not scalars of the classification
pub static OTHERS: [&'static Shape; 37] = [
    char::SHAPE, u128::SHAPE, i128::SHAPE, <NonZero<u8>>::SHAPE, <NonZero<u16>>::SHAPE, <NonZero<u32>>::SHAPE, <NonZero<u64>>::SHAPE, <NonZero<i8>>::SHAPE, <NonZero<i16>>::SHAPE, <NonZero<i32>>::SHAPE, <NonZero<i64>>::SHAPE, <NonZero<usize>>::SHAPE, <NonZero<isize>>::SHAPE, <NonZero<u128>>::SHAPE, <NonZero<i128>>::SHAPE,
    <Option<u32>>::SHAPE, <Option<i32>>::SHAPE, <Vec<u32>>::SHAPE, <Vec<u8>>::SHAPE, <[u32; 1]>::SHAPE, <[u32; 2]>::SHAPE, <[u8; 1]>::SHAPE, <&'static [u32]>::SHAPE, <&'static [u8]>::SHAPE, <(u32,)>::SHAPE, <(u32, u8)>::SHAPE, <(u8, u32)>::SHAPE,
    <BTreeMap<u8, u8>>::SHAPE, <Arc<u8>>::SHAPE, <Weak<u8>>::SHAPE, <core::ptr::NonNull<u8>>::SHAPE, Sa::SHAPE, Sb::SHAPE, <Ga<u32>>::SHAPE, <Ga<i32>>::SHAPE, <core::marker::PhantomData<u32>>::SHAPE, <Option<Option<u32>>>::SHAPE,
];
fn shape(i: usize) -> &'static Shape { if i < 22 { SCALARS[i].0 } else { OTHERS[i - 22] } }

const CH: [Characteristic; 14] = [Characteristic::Default, Characteristic::Clone, Characteristic::Display, Characteristic::Debug, Characteristic::PartialEq, Characteristic::PartialOrd, Characteristic::Ord, Characteristic::Hash, Characteristic::FromStr,
    Characteristic::Eq, Characteristic::Send, Characteristic::Sync, Characteristic::Copy, Characteristic::Unpin];
/// a symbolic vtable: every combination of advertised operations and markers
macro_rules! is_type_row { ($i:ident: $($n:literal $t:ty),*) => { $( assert!(shape($i).is_type::<$t>() == ($i == $n), "is_type recognises exactly the type"); )* } }

crate::harness! {
    /// two shapes are equal exactly when they describe the same type
    fn shape_eq(3) {
        let (i, j) = (below(59), below(59));
        assert!((shape(i) == shape(j)) == (i == j), "shapes are equal exactly for the same type");
        assert!(shape(i).is_shape(shape(j)) == (i == j), "is_shape");
    }
    fn is_type_scalars(3) {
        let i = below(59);
        is_type_row!(i: 0 (), 1 bool, 2 &'static str, 3 String, 4 Cow<'static, str>, 5 f32, 6 f64, 7 u8, 8 u16, 9 u32, 10 u64, 11 usize, 12 i8, 13 i16, 14 i32, 15 i64, 16 isize, 17 SocketAddr, 18 IpAddr, 19 Ipv4Addr, 20 Ipv6Addr, 21 ConstTypeId);
    }
    fn is_type_others(3) {
        let i = below(59);
        is_type_row!(i: 22 char, 23 u128, 25 NonZero<u8>, 37 Option<u32>, 38 Option<i32>, 39 Vec<u32>, 41 [u32; 1], 42 [u32; 2], 44 &'static [u32], 46 (u32,), 47 (u32, u8), 48 (u8, u32), 53 Sa, 54 Sb, 55 Ga<u32>, 56 Ga<i32>, 58 Option<Option<u32>>);
    }
    /// the classification names exactly the scalar types it lists
    fn scalar_type_of_scalars(3) { let i = below(22); assert!(ScalarType::try_from_shape(SCALARS[i].0) == Some(SCALARS[i].1), "the scalar's own name"); }
    fn scalar_type_of_others(3) { let i = below(37); assert!(ScalarType::try_from_shape(OTHERS[i]).is_none(), "not a scalar of the list"); }
    /// `is` answers exactly what the operation table says
    fn is_reads_the_table(3) {
        let (i, c) = (below(59), below(14));
        assert!(shape(i).is(CH[c]) == advertised(shape(i))[c], "is");
    }
    fn named_queries(3) {
        let s = shape(below(59)); let a = advertised(s);
        assert!(s.is_default() == a[0] && s.is_clone() == a[1] && s.is_display() == a[2] && s.is_debug() == a[3] && s.is_partial_eq() == a[4] && s.is_partial_ord() == a[5] && s.is_ord() == a[6] && s.is_hash() == a[7] && s.is_from_str() == a[8], "named queries");
        assert!(s.is_eq() == a[9] && s.is_send() == a[10] && s.is_sync() == a[11] && s.is_copy() == a[12], "named marker queries");
        assert!(s.vtable.is_eq() == a[9] && s.vtable.is_send() == a[10] && s.vtable.is_sync() == a[11] && s.vtable.is_copy() == a[12] && s.vtable.is_unpin() == a[13], "marker queries of the table");
    }
    /// all / any / none over every set of up to 3 shapes
    fn all_any_none(6) {
        let n = below(4); let c = CH[below(14)];
        static FEW: [&'static Shape; 6] = [u32::SHAPE, f64::SHAPE, String::SHAPE, Sa::SHAPE, <()>::SHAPE, <Vec<u32>>::SHAPE];
        let v: [&'static Shape; 3] = [FEW[below(6)], FEW[below(6)], FEW[below(6)]];
        let s: &'static [&'static Shape] = unsafe { core::mem::transmute(&v[..n]) };
        let (mut all, mut any_) = (true, false);
        let mut i = 0; while i < n { let h = v[i].is(c); all &= h; any_ |= h; i += 1 }
        assert!(c.all(s) == all, "all");
        assert!(c.any(s) == any_, "any");
        assert!(c.none(s) == !any_, "none");
    }
}

#[cfg(not(kani))]
macro_rules! truth { ($t:ty) => {{
    use impls::impls;
    [impls!($t: Default), impls!($t: Clone), impls!($t: core::fmt::Display), impls!($t: core::fmt::Debug), impls!($t: PartialEq), impls!($t: PartialOrd), impls!($t: Ord), impls!($t: core::hash::Hash), impls!($t: core::str::FromStr),
     impls!($t: Eq), impls!($t: Send), impls!($t: Sync), impls!($t: Copy), impls!($t: Unpin)]
}} }
#[cfg(not(kani))]
macro_rules! exact { ($($t:ty),* $(,)?) => { $( let (g, w) = (advertised(<$t as Facet>::SHAPE), truth!($t)); for c in 0..14 { assert!(g[c] == w[c], "{}: {:?} advertised {} but implemented {}", stringify!($t), CH[c], g[c], w[c]); counted(1); } )* } }
#[cfg(not(kani))]
macro_rules! never_over { ($($t:ty),* $(,)?) => { $( let (g, w) = (advertised(<$t as Facet>::SHAPE), truth!($t)); for c in 0..14 { if c == 2 || c == 8 { continue } assert!(!g[c] || w[c], "{}: {:?} advertised but not implemented", stringify!($t), CH[c]); counted(1); } )* } }
#[cfg(not(kani))]
macro_rules! at_least { ($($t:ty: $($c:ident)*);* $(;)?) => { $( $( assert!(<$t as Facet>::SHAPE.is(Characteristic::$c), "{} is {:?}", stringify!($t), Characteristic::$c); counted(1); )* )* } }

#[cfg(not(kani))]
mod types {
    #[derive(crate::Facet, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct Full { pub a: u32, pub b: bool }
    #[derive(crate::Facet)] pub struct Bare { pub a: u32 }
    #[derive(crate::Facet, Clone)] pub struct OnlyClone { pub a: String }
    #[derive(crate::Facet, Debug, PartialEq)] pub struct Dbg { pub a: f64 }
    #[derive(crate::Facet, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] #[repr(u8)] pub enum En { A, B(u8) }
    #[derive(crate::Facet)] #[repr(u8)] pub enum EnBare { A, B(u8) }
    #[derive(crate::Facet, Default)] pub struct Un;
    pub struct Disp { pub a: u8 }
}
#[cfg(not(kani))]
use types::*;
crate::native! {
    fn b_scalars_exact() {
        exact!((), bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, String, &'static str, Cow<'static, str>, SocketAddr, IpAddr, Ipv4Addr, Ipv6Addr,
            NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>, NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
            std::path::PathBuf, &'static std::path::Path, std::collections::hash_map::RandomState, ConstTypeId);
    }
    fn b_derived_exact() { exact!(Full, Bare, OnlyClone, Dbg, En, EnBare, Un); }
    fn b_composites_never_over_claim() {
        macro_rules! over { ($($e:ty),*) => { $( never_over!(Option<$e>, Vec<$e>, [$e; 3], [$e; 1], &'static [$e], ($e,), ($e, u8), (u8, $e), (u8, $e, u8), (u8, u8, u8, $e), (u8, $e, u8, u8, u8), (u8, u8, u8, u8, u8, $e), (u8, u8, u8, $e, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, $e), (u8, u8, u8, u8, u8, u8, u8, u8, $e), Arc<$e>, Weak<$e>, core::ptr::NonNull<$e>, Option<Vec<$e>>, Vec<Option<$e>>, [[$e; 2]; 2], BTreeMap<u8, $e>); )* } }
        over!(u32, f64, String, bool, char, &'static str, Bare, OnlyClone, Full, Dbg, Vec<f64>, En, EnBare, core::ptr::NonNull<u8>, [f32; 2], (u8, f32));
        never_over!([u8; 0], [u8; 32], [u8; 33], [Bare; 0], [f64; 33]);
    }
    fn k_hashmap_claims_hash() {
        use std::collections::HashMap;
        never_over!(HashMap<u8, u32>, HashMap<String, f64>, HashMap<u8, Bare>);
    }
    fn b_hashmap_other() {
        use std::collections::HashMap;
        macro_rules! over { ($($t:ty),*) => { $( let (g, w) = (advertised(<$t as Facet>::SHAPE), truth!($t)); for c in 0..14 { if c == 7 { continue } assert!(!g[c] || w[c], "{}: {:?} advertised but not implemented", stringify!($t), CH[c]); counted(1); } )* } }
        over!(HashMap<u8, u32>, HashMap<String, f64>, HashMap<u8, Bare>, HashMap<char, Vec<f64>>);
    }
    fn b_composites_claim() {
        // what composites of capable elements offer
        at_least!(Vec<u32>: Default Clone Debug PartialEq Hash Eq Send Sync Unpin; Vec<String>: Default Clone Debug PartialEq Hash Eq; [u32; 3]: Default Clone Debug PartialEq PartialOrd Ord Hash Eq Copy Send Sync Unpin;
            &'static [u32]: Default Clone Debug PartialEq PartialOrd Ord Hash Eq Copy Send Sync; (u32, u8): Debug PartialEq Eq Send Sync Copy; Option<u32>: Default Debug; Arc<u32>: Clone; BTreeMap<u8, u8>: Default Clone Debug PartialEq Hash; std::collections::HashMap<u8, u8>: Default Clone Debug PartialEq);
    }
    fn n_all_any_none() {
        let n = below(12); let c = CH[below(14)];
        let v: Vec<&'static Shape> = (0..n).map(|_| shape(below(59))).collect();
        let s: &'static [&'static Shape] = unsafe { core::mem::transmute(&v[..]) };
        assert!(c.all(s) == v.iter().all(|x| x.is(c)), "all");
        assert!(c.any(s) == v.iter().any(|x| x.is(c)), "any");
        assert!(c.none(s) == !v.iter().any(|x| x.is(c)), "none");
    }
    fn b_pairs() {
        for i in 0..59 { for j in 0..59 { assert!((shape(i) == shape(j)) == (i == j), "{} vs {}", shape(i), shape(j)); assert!((shape(i).id == shape(j).id) == (i == j)); counted(1); } }
        // lifetimes do not distinguish types
        fn of<T: Facet>(_: &T) -> &'static Shape { T::SHAPE }
        let s = String::from("x"); let r: &str = &s;
        assert!(of(&r) == <&'static str>::SHAPE);
    }
    fn b_typeid_order() {
        // ConstTypeId: equality, order and hash agree with core::any::TypeId
        use core::any::TypeId; use std::hash::*;
        let ids = [(ConstTypeId::of::<u8>(), TypeId::of::<u8>()), (ConstTypeId::of::<String>(), TypeId::of::<String>()), (ConstTypeId::of::<Sa>(), TypeId::of::<Sa>()), (ConstTypeId::of::<Vec<u8>>(), TypeId::of::<Vec<u8>>()), (ConstTypeId::of::<[u8]>(), TypeId::of::<[u8]>())];
        let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| { let mut h = std::collections::hash_map::DefaultHasher::new(); x(&mut h); h.finish() };
        for a in &ids { for b in &ids { assert!((a.0 == b.0) == (a.1 == b.1)); assert!(a.0.cmp(&b.0) == a.1.cmp(&b.1)); assert!(a.0.partial_cmp(&b.0) == a.1.partial_cmp(&b.1)); assert!((a.0 == b.1) == (a.1 == b.1)); counted(1); } assert!(h(&|s| a.0.hash(s)) == h(&|s| a.1.hash(s))); }
    }
}
