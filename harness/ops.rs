//! Reflected operations of a type, called through its operation table (shared by C01, C02, C03).
use crate::facet_core::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::mem::MaybeUninit;

/// What a Hash implementation feeds to its hasher, byte for byte.
#[derive(Clone, Copy)]
pub struct Rec { pub b: [u8; 160], pub n: usize }
impl Rec { pub fn new() -> Rec { Rec { b: [0; 160], n: 0 } } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, bytes: &[u8]) { assert!(self.n + bytes.len() <= 160); let mut i = 0; while i < bytes.len() { self.b[self.n + i] = bytes[i]; i += 1 } self.n += bytes.len(); }
}
impl PartialEq for Rec { fn eq(&self, o: &Rec) -> bool { if self.n != o.n { return false } let mut i = 0; while i < self.n { if self.b[i] != o.b[i] { return false } i += 1 } true } }
unsafe fn rec_write(this: PtrMut<'_>, bytes: &[u8]) { unsafe { this.as_mut::<Rec>() }.write(bytes) }

pub fn vt<T: Facet>() -> &'static ValueVTable { T::SHAPE.vtable }
pub fn p<T>(t: &T) -> PtrConst<'_> { PtrConst::new(t as *const T) }
/// the bytes the type's own Hash writes
pub fn own_hash<T: Hash>(t: &T) -> Rec { let mut r = Rec::new(); t.hash(&mut r); r }
/// the bytes the reflected hash writes
pub fn refl_hash<T: Facet>(t: &T) -> Option<Rec> {
    let h = vt::<T>().hash?;
    let mut r = Rec::new();
    let rp: *mut Rec = &mut r;
    unsafe { h(p(t), PtrMut::new(rp), rec_write) };
    Some(r)
}
pub fn refl_eq<T: Facet>(a: &T, b: &T) -> Option<bool> { vt::<T>().eq.map(|f| unsafe { f(p(a), p(b)) }) }
pub fn refl_ord<T: Facet>(a: &T, b: &T) -> Option<Ordering> { vt::<T>().ord.map(|f| unsafe { f(p(a), p(b)) }) }
pub fn refl_pord<T: Facet>(a: &T, b: &T) -> Option<Option<Ordering>> { vt::<T>().partial_ord.map(|f| unsafe { f(p(a), p(b)) }) }
pub fn refl_clone<T: Facet>(a: &T) -> Option<T> {
    vt::<T>().clone_into.map(|f| {
        let mut m = MaybeUninit::<T>::uninit();
        let tp = m.as_mut_ptr();
        let base = tp as *const u8;
        let q = unsafe { f(p(a), PtrUninit::new(tp)) };
        assert!(q.as_byte_ptr() == base, "clone_into returns the target");
        unsafe { m.assume_init() }
    })
}
pub fn refl_default<T: Facet>() -> Option<T> {
    vt::<T>().default_in_place.map(|f| {
        let mut m = MaybeUninit::<T>::uninit();
        let tp = m.as_mut_ptr();
        let base = tp as *const u8;
        let q = unsafe { f(PtrUninit::new(tp)) };
        assert!(q.as_byte_ptr() == base, "default_in_place returns the target");
        unsafe { m.assume_init() }
    })
}
pub fn refl_drop<T: Facet>(a: T) -> bool {
    let mut m = MaybeUninit::new(a);
    match vt::<T>().drop_in_place { Some(f) => { unsafe { f(PtrMut::new(m.as_mut_ptr())) }; true } None => false }
}
/// the layout of the shape is the layout of the type
pub fn layout_ok<T: Facet>() { assert!(T::SHAPE.layout == core::alloc::Layout::new::<T>(), "layout"); }
/// default, clone, display, debug, eq, partial_ord, ord, hash, parse, EQ, SEND, SYNC, COPY, UNPIN
pub fn advertised(s: &'static Shape) -> [bool; 14] {
    let v = s.vtable;
    let m = v.marker_traits;
    [v.default_in_place.is_some(), v.clone_into.is_some(), v.display.is_some(), v.debug.is_some(), v.eq.is_some(), v.partial_ord.is_some(), v.ord.is_some(), v.hash.is_some(), v.parse.is_some(),
     m.contains(MarkerTraits::EQ), m.contains(MarkerTraits::SEND), m.contains(MarkerTraits::SYNC), m.contains(MarkerTraits::COPY), m.contains(MarkerTraits::UNPIN)]
}
#[cfg(not(kani))]
pub mod text {
    use super::*;
    struct D<T: Facet>(T);
    impl<T: Facet> core::fmt::Display for D<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { (vt::<T>().display.unwrap())(p(&self.0), f) } } }
    impl<T: Facet> core::fmt::Debug for D<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { (vt::<T>().debug.unwrap())(p(&self.0), f) } } }
    pub fn refl_display<T: Facet + Clone>(t: &T) -> String { std::format!("{}", D(t.clone())) }
    pub fn refl_debug<T: Facet + Clone>(t: &T) -> String { std::format!("{:?}", D(t.clone())) }
    pub fn refl_parse<T: Facet>(s: &str) -> Result<T, ()> {
        let mut m = MaybeUninit::<T>::uninit();
        match unsafe { (vt::<T>().parse.unwrap())(s, PtrUninit::new(m.as_mut_ptr())) } { Ok(_) => Ok(unsafe { m.assume_init() }), Err(_) => Err(()) }
    }
}
