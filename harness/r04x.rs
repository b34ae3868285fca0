#![cfg(kani)]
use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use crate::Facet;
use crate::alloc;
use crate::r04::*;
/// A type of its own (4 bytes, its drop is counted).  The code under proof can only compare identities for equality,
/// so it stands for every other type.
pub struct Fresh(u32);
unsafe impl Facet for Fresh { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<Fresh>()).layout(core::alloc::Layout::new::<u32>())
    .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build())).vtable(&const { ValueVTable::builder().type_name(|_, _| Ok(())).drop_in_place(|p| unsafe { DROPS += 1; PtrUninit::new(p.as_mut_byte_ptr()) }).build() }).build() }; }
fn fresh() -> &'static Shape { Fresh::SHAPE }
/// A shape whose identity is arbitrary
fn other(not: &[&'static Shape]) -> &'static Shape {
    let id: usize = any(); assume(id != 0);
    let id: ConstTypeId = unsafe { core::mem::transmute(id) };
    let mut i = 0; while i < not.len() { assume(id != not[i].id); i += 1; }
    let o = core::mem::ManuallyDrop::new(Shape { id, ..*Fresh::SHAPE }); unsafe { &*(alloc::boxed::Box::leak(alloc::boxed::Box::new(*o)) as *const Shape) }
}
fn get_other<T: Facet>() { let v: u64 = any(); let p = unsafe { Peek::unchecked_new(PtrConst::new(&v as *const u64 as *const u8), other(&[T::SHAPE])) }; assert!(p.get::<T>().is_err(), "a value of another type was read"); }
fn put_other<T: Facet>(w: Wip<'static>) {
    let v: u32 = any(); let was = v;
    match w.put_shape(PtrConst::new(&v as *const u32 as *const u8), fresh()) { Ok(_) => assert!(false, "a value of another type was accepted"), Err(_) => assert!(v == was && unsafe { DROPS } == 0, "the refused value was touched") }
}
fn put_root<T: Facet>() { put_other::<T>(Wip::alloc::<T>()) }
fn take_other<T: Facet>() {
    let o = fresh(); let v: u32 = any();
    let h = ok(ok(Wip::alloc_shape(o).put_shape(PtrConst::new(&v as *const u32 as *const u8), o)).build());
    assert!(unsafe { DROPS } == 0);
    match h.materialize::<T>() { Ok(_) => assert!(false, "a value of another type was taken out"), Err(_) => assert!(unsafe { DROPS } == 1, "the value is dropped once") }
}
fn cmp_other<T: Facet>(t: &T) { let v: u64 = any(); let p = unsafe { Peek::unchecked_new(PtrConst::new(&v as *const u64 as *const u8), other(&[T::SHAPE])) }; let q = Peek::new(t);
    assert!(p != q && q != p && q.eq(&p).is_none() && Peek::partial_cmp(&q, &p).is_none() && PartialOrd::partial_cmp(&q, &p).is_none(), "values of different types compared"); }
crate::harness! {
    fn t_get_any(4) { get_other::<u8>(); get_other::<u32>(); get_other::<f64>(); get_other::<()>(); get_other::<S>(); get_other::<E>(); get_other::<Option<u32>>(); get_other::<[u8; 4]>(); get_other::<(u8, u8)>(); get_other::<alloc::string::String>(); get_other::<&'static str>(); get_other::<alloc::vec::Vec<u8>>(); get_other::<alloc::sync::Arc<u8>>(); get_other::<Tk>(); }
    fn t_cmp_any(4) { cmp_other(&any::<u8>()); cmp_other(&any::<u64>()); cmp_other(&any::<f64>()); cmp_other(&any::<char>()); cmp_other(&any::<(u8, u8)>()); cmp_other(&any::<[u8; 2]>()); cmp_other(&S { a: any() }) }
    fn get_fresh(4) { macro_rules! g { ($($t:ty),*) => {{ $( { let v: u64 = any(); let p = unsafe { Peek::unchecked_new(PtrConst::new(&v as *const u64 as *const u8), fresh()) }; assert!(p.get::<$t>().is_err(), "a value of another type was read"); } )* }} } g!(u8, u32, f64, (), S, E, Option<u32>, [u8; 4], (u8, u8), alloc::string::String, &'static str, alloc::vec::Vec<u8>, alloc::sync::Arc<u8>, Tk) }
    fn put_u8(4) { put_root::<u8>() }
    fn t_put_u64(4) { put_root::<u64>() }
    fn put_struct(4) { put_root::<S>() }
    fn t_put_enum(4) { put_root::<E>() }
    fn t_put_tuple(4) { put_root::<(u8, u8)>() }
    fn t_put_array(4) { put_root::<[u8; 4]>() }
    fn t_put_vec(4) { put_root::<alloc::vec::Vec<u8>>() }
    fn t_put_tk(4) { put_root::<Tk>() }
    fn put_option(4) { put_other::<Option<u32>>(Wip::alloc::<Option<u32>>()) }
    fn put_field(4) { put_other::<u32>(ok(Wip::alloc::<Pl<u32>>().field(1))) }
    fn take_u8(4) { take_other::<u8>() }
    fn t_take_u64(4) { take_other::<u64>() }
    fn t_take_struct(4) { take_other::<S>() }
    fn t_take_string(4) { take_other::<alloc::string::String>() }
}
