use crate::sym::*;
use crate::facet_core::*;
use crate::ops::*;
use core::num::NonZero;

const T: bool = true;
const F: bool = false;
//                        default clone display debug eq pord ord hash parse EQ SEND SYNC COPY UNPIN
const ALL: [bool; 14] =   [T, T, T, T, T, T, T, T, T, T, T, T, T, T];
const FLOAT: [bool; 14] = [T, T, T, T, T, T, F, F, T, F, T, T, T, T];
const NZ: [bool; 14] =    [F, T, T, T, T, T, T, T, T, T, T, T, T, T];
const UNIT: [bool; 14] =  [T, T, F, T, T, T, T, T, F, T, T, T, T, T];
const STRING: [bool; 14] =[T, T, T, T, T, T, T, T, T, T, T, T, F, T];
const COW: [bool; 14] =   [T, T, T, T, T, T, T, T, F, T, T, T, F, T];
const STR: [bool; 14] =   [T, T, T, T, T, T, T, T, F, T, T, T, T, T];
const TYPEID: [bool; 14] =[F, T, F, T, T, T, T, T, F, T, T, T, T, T];
const PATH: [bool; 14] =  [T, T, F, T, T, T, T, T, T, T, T, T, F, T];
const PATHREF: [bool; 14]=[F, T, F, T, T, T, T, T, F, T, T, T, T, T];
const RSTATE: [bool; 14] =[T, T, F, T, F, F, F, F, F, F, T, T, F, T];

fn same_adv<S: Facet>(want: [bool; 14]) { let g = advertised(S::SHAPE); let mut i = 0; while i < 14 { assert!(g[i] == want[i], "advertised exactly when implemented"); i += 1 } layout_ok::<S>(); }
/// contract of the table of a totally ordered scalar, for two arbitrary values
fn total<S: Facet + Clone + Ord + core::hash::Hash>(a: S, b: S) {
    assert!(refl_eq(&a, &b) == Some(a == b), "eq");
    assert!(refl_ord(&a, &b) == Some(a.cmp(&b)), "ord");
    assert!(refl_pord(&a, &b) == Some(a.partial_cmp(&b)), "partial_ord");
    assert!(refl_hash(&a) == Some(own_hash(&a)), "hash");
    let c = refl_clone(&a);
    assert!(c == Some(a.clone()), "clone");
    assert!(refl_drop(a), "drop");
}
fn default_is<S: Facet + Default + PartialEq>() { assert!(refl_default::<S>() == Some(S::default()), "default"); }
macro_rules! bounds { ($t:ty, $signed:expr) => {{
    match <$t as Facet>::SHAPE.def {
        Def::Scalar(d) => match d.affinity {
            ScalarAffinity::Number(n) => {
                assert!(unsafe { *n.min.get::<$t>() } == <$t>::MIN, "min of the affinity");
                assert!(unsafe { *n.max.get::<$t>() } == <$t>::MAX, "max of the affinity");
            }
            _ => panic!("number affinity"),
        },
        _ => panic!("scalar"),
    }
}} }
macro_rules! int { ($t:ident) => {{ let (a, b): ($t, $t) = (any(), any()); same_adv::<$t>(ALL); default_is::<$t>(); total(a, b); bounds!($t, 0); }} }
macro_rules! nz { ($t:ident) => {{ let (a, b): ($t, $t) = (any(), any()); assume(a != 0 && b != 0); same_adv::<NonZero<$t>>(NZ); total(NonZero::new(a).unwrap(), NonZero::new(b).unwrap()); bounds!(NonZero<$t>, 0); }} }
macro_rules! float { ($t:ident) => {{
    let (a, b): ($t, $t) = (any(), any());
    same_adv::<$t>(FLOAT);
    assert!(refl_eq(&a, &b) == Some(a == b), "eq");
    assert!(refl_pord(&a, &b) == Some(a.partial_cmp(&b)), "partial_ord");
    assert!(refl_clone(&a).unwrap().to_bits() == a.to_bits(), "clone");
    assert!(refl_default::<$t>().unwrap().to_bits() == 0, "default");
    assert!(refl_drop(a));
    bounds!($t, 1);
}} }

crate::harness! {
    fn s_unit(20) { same_adv::<()>(UNIT); default_is::<()>(); total((), ()); }
    fn s_bool(20) { let (a, b): (bool, bool) = (any(), any()); same_adv::<bool>(ALL); default_is::<bool>(); total(a, b); }
    fn s_char(20) { let (a, b): (char, char) = (any(), any()); same_adv::<char>(ALL); default_is::<char>(); total(a, b); }
    fn s_u8(20) { int!(u8) }
    fn s_u16(20) { int!(u16) }
    fn s_u32(20) { int!(u32) }
    fn s_u64(20) { int!(u64) }
    fn s_u128(20) { int!(u128) }
    fn s_usize(20) { int!(usize) }
    fn s_i8(20) { int!(i8) }
    fn s_i16(20) { int!(i16) }
    fn s_i32(20) { int!(i32) }
    fn s_i64(20) { int!(i64) }
    fn s_i128(20) { int!(i128) }
    fn s_isize(20) { int!(isize) }
    fn s_f32(20) { float!(f32) }
    fn s_f64(20) { float!(f64) }
    fn s_nz_u8(20) { nz!(u8) }
    fn s_nz_u16(20) { nz!(u16) }
    fn s_nz_u32(20) { nz!(u32) }
    fn s_nz_u64(20) { nz!(u64) }
    fn s_nz_u128(20) { nz!(u128) }
    fn s_nz_usize(20) { nz!(usize) }
    fn s_nz_i8(20) { nz!(i8) }
    fn s_nz_i16(20) { nz!(i16) }
    fn s_nz_i32(20) { nz!(i32) }
    fn s_nz_i64(20) { nz!(i64) }
    fn s_nz_i128(20) { nz!(i128) }
    fn s_nz_isize(20) { nz!(isize) }
    fn s_phantom(20) { let x = core::marker::PhantomData::<u32>; layout_ok::<core::marker::PhantomData<u32>>(); assert!(refl_eq(&x, &x) == Some(true)); assert!(refl_hash(&x) == Some(Rec::new())); assert!(refl_clone(&x).is_some() && refl_default::<core::marker::PhantomData<u32>>().is_some()); }
    fn s_ipv4(20) {
        let (a, b): (u32, u32) = (any(), any());
        same_adv::<core::net::Ipv4Addr>(NZ);
        total(core::net::Ipv4Addr::from(a), core::net::Ipv4Addr::from(b));
    }
    /// strings of up to 3 bytes (bounded; longer ones natively)
    fn s_str(24) {
        let (x, y): ([u8; 3], [u8; 3]) = (any(), any());
        let mut i = 0; while i < 3 { assume(x[i] < 0x80 && y[i] < 0x80); i += 1 }
        let (n, m) = (below(4), below(4));
        let a: &str = unsafe { core::str::from_utf8_unchecked(&x[..n]) };
        let b: &str = unsafe { core::str::from_utf8_unchecked(&y[..m]) };
        same_adv::<&str>(STR);
        assert!(refl_eq(&a, &b) == Some(a == b), "eq");
        assert!(refl_ord(&a, &b) == Some(a.cmp(&b)), "ord");
        assert!(refl_pord(&a, &b) == Some(a.partial_cmp(&b)), "partial_ord");
        assert!(refl_hash(&a) == Some(own_hash(&a)), "hash");
        assert!(refl_clone(&a).map(|c| c.as_ptr() == a.as_ptr() && c.len() == n) == Some(true), "clone");
        assert!(refl_default::<&str>().map(|s| s.len()) == Some(0), "default");
    }
}
#[cfg(not(kani))]
fn texts<S: Facet + Clone + core::fmt::Display + core::fmt::Debug + core::str::FromStr + PartialEq>(a: &S, s: &str) {
    use crate::ops::text::*;
    assert!(refl_display(a) == std::format!("{a}"), "display");
    assert!(refl_debug(a) == std::format!("{a:?}"), "debug");
    parses::<S>(&std::format!("{a}"));
    parses::<S>(s);
}
#[cfg(not(kani))]
fn parses<S: Facet + core::str::FromStr + PartialEq>(s: &str) {
    match (crate::ops::text::refl_parse::<S>(s), s.parse::<S>()) {
        (Ok(x), Ok(y)) => assert!(x == y || (x != x && y != y), "parse"),
        (Err(()), Err(_)) => {}
        _ => panic!("parse accepts what FromStr accepts"),
    }
}
#[cfg(not(kani))]
fn numtext() -> String { let n = below(7); (0..n).map(|_| ['0', '1', '2', '5', '9', '-', '+', '.', 'e', ' ', 'x', '_'][below(12)]).collect() }
#[cfg(not(kani))]
fn totals<S: Facet + Clone + Ord + core::hash::Hash>(a: S, b: S) {
    let l = live();
    total(a.clone(), b.clone()); total(a.clone(), a.clone());
    assert!(live() == l, "a reflected operation leaked");
}
crate::native! {
    fn n_string() {
        let (a, b) = (any_string(24), if any() { any_string(24) } else { String::new() });
        same_adv::<String>(STRING); default_is::<String>(); totals(a.clone(), b.clone());
        texts(&a, &b);
        same_adv::<&'static str>(STR);
        let (x, y): (&str, &str) = (&a, &b);
        let (x, y): (&'static str, &'static str) = unsafe { (core::mem::transmute(x), core::mem::transmute(y)) };
        totals(x, y);
        // one a prefix of the other
        let k = below(x.chars().count() + 1); let pre: String = x.chars().take(k).collect();
        totals(a.clone(), pre.clone());
    }
    fn n_cow() {
        use std::borrow::Cow;
        let (a, b) = (any_string(24), any_string(24));
        same_adv::<Cow<'static, str>>(COW); default_is::<Cow<'static, str>>();
        let x: Cow<'static, str> = if any() { Cow::Owned(a.clone()) } else { Cow::Borrowed("shared") };
        let y: Cow<'static, str> = if any() { Cow::Owned(b) } else { Cow::Borrowed("shared") };
        totals(x, y);
    }
    fn n_net() {
        use core::net::*;
        let v6 = |x: u128| Ipv6Addr::from(x);
        let (a, b): (u128, u128) = (any(), any());
        same_adv::<Ipv6Addr>(NZ); same_adv::<IpAddr>(NZ); same_adv::<SocketAddr>(NZ); same_adv::<Ipv4Addr>(NZ);
        totals(v6(a), v6(b));
        let ip = |x: u128, k: bool| if k { IpAddr::V6(Ipv6Addr::from(x)) } else { IpAddr::V4(Ipv4Addr::from(x as u32)) };
        let (i, j) = (ip(a, any()), ip(b, any()));
        totals(i, j);
        let (s, t) = (SocketAddr::new(i, any()), SocketAddr::new(j, any()));
        totals(s, t);
        let junk = any_string(8);
        texts(&i, &junk); texts(&s, &junk); texts(&v6(a), &junk); texts(&Ipv4Addr::from(a as u32), &junk);
    }
    fn n_path() {
        use std::path::*;
        let (a, b) = (PathBuf::from(any_string(12)), PathBuf::from(any_string(12)));
        same_adv::<PathBuf>(PATH); default_is::<PathBuf>();
        let l = live();
        {
            assert!(refl_eq(&a, &b) == Some(a == b)); assert!(refl_eq(&a, &a.clone()) == Some(true));
            assert!(refl_ord(&a, &b) == Some(a.cmp(&b))); assert!(refl_clone(&a) == Some(a.clone()));
            assert!(refl_drop(a.clone()));
            let (x, y): (&'static Path, &'static Path) = unsafe { core::mem::transmute((a.as_path(), b.as_path())) };
            same_adv::<&'static Path>(PATHREF);
            assert!(refl_eq(&x, &y) == Some(x == y)); assert!(refl_ord(&x, &y) == Some(x.cmp(&y)));
        }
        assert!(live() == l, "a reflected operation leaked");
        same_adv::<std::collections::hash_map::RandomState>(RSTATE);
    }
    fn n_typeid() {
        same_adv::<ConstTypeId>(TYPEID);
        let ids = [ConstTypeId::of::<u8>(), ConstTypeId::of::<u16>(), ConstTypeId::of::<String>(), ConstTypeId::of::<&str>()];
        let (a, b) = (ids[below(4)], ids[below(4)]);
        totals(a, b);
    }
    fn n_text() {
        let s = numtext();
        macro_rules! t { ($($t:ident)*) => { $( texts::<$t>(&any(), &s); )* } }
        t!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char);
        macro_rules! z { ($($t:ident)*) => { $( let x: $t = any(); if let Some(z) = NonZero::new(x) { texts(&z, &s) } )* } }
        z!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    }
    fn n_hash_std() {
        // through a real hasher
        use std::hash::*; use std::collections::hash_map::DefaultHasher;
        let (s, n): (String, u64) = (any_string(12), any());
        unsafe fn w(this: PtrMut<'_>, b: &[u8]) { unsafe { this.as_mut::<DefaultHasher>() }.write(b) }
        let go = |f: &dyn Fn(&mut DefaultHasher)| { let mut h = DefaultHasher::new(); f(&mut h); h.finish() };
        assert!(go(&|h| n.hash(h)) == go(&|h| unsafe { (vt::<u64>().hash.unwrap())(p(&n), PtrMut::new(h as *mut _), w) }));
        let _ = s;
    }
}
