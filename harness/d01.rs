use crate::sym::*;
use crate::facet_core::*;
use crate::ops::*;
use crate::alloc;
use alloc::string::String;
use alloc::vec::Vec;
use core::mem::MaybeUninit;
use core::marker::PhantomData;

/// Contract of the derive on a family of definitions: fields in order, with the name, type and byte offset that the
/// compiler gave them; reading through (offset, type) gives the field of any value.
fn sd<T: Facet>() -> Struct { match T::SHAPE.def { Def::Struct(s) => s, _ => panic!("a derived struct is a struct") } }
macro_rules! layout { ($t:ty, $kind:ident, $v:expr, [$($name:literal $f:tt : $ft:ty),*]) => {{
    let v: $t = $v;
    let vp = &v as *const $t;
    let base = vp as *const u8;
    layout_ok::<$t>();
    let s = sd::<$t>();
    assert!(s.kind == StructKind::$kind, "kind");
    let mut i = 0;
    $( {
        let f = &s.fields[i];
        assert!(f.name == $name, "field name");
        let sh = f.shape();
        assert!(sh.id == ConstTypeId::of::<$ft>(), "field type");
        assert!(sh.layout == core::alloc::Layout::new::<$ft>(), "field layout");
        let fp = unsafe { core::ptr::addr_of!((*vp).$f) };
        assert!(f.offset == fp as usize - base as usize, "field offset");
        let q = unsafe { PtrConst::new(vp).field(f.offset) };
        assert!(q.as_byte_ptr() == fp as *const u8, "field place");
        assert!(unsafe { *q.get::<$ft>() == (*vp).$f }, "the value read through the reported offset and type");
    } i += 1; )*
    assert!(s.fields.len() == i, "number of fields");
    core::mem::forget(v);
}} }

#[derive(crate::Facet)] struct Reordered { a: u8, b: u32, c: u8, d: u64, e: u16 }
#[derive(crate::Facet)] #[repr(C)] struct ReprC { a: u8, b: u32, c: u8, d: u64, e: u16 }
#[derive(crate::Facet)] struct Tup(u8, u64, bool, u16);
#[derive(crate::Facet)] #[repr(C)] struct TupC(u8, u64, bool, u16);
#[derive(crate::Facet)] #[repr(transparent)] struct Transparent(u32);
#[derive(crate::Facet)] struct UnitS;
#[derive(crate::Facet)] struct EmptyNamed {}
#[derive(crate::Facet, PartialEq)] struct Inner { x: u8, y: u32 }
#[derive(crate::Facet)] struct Nested { p: u8, i: Inner, q: u16, j: Inner }
#[derive(crate::Facet)] struct Gen<T> { a: u8, t: T, b: u8 }
#[derive(crate::Facet)] struct GenPair<A, B> { a: A, b: B, c: A }
#[derive(crate::Facet)] struct ConstGen<const N: usize> { n: u8, a: [u16; N], z: u64 }
#[derive(crate::Facet)] struct Life<'a> { s: &'a str, n: u8 }
#[derive(crate::Facet)] struct Mixed { o: Option<u32>, c: char, t: (u8, u32), f: f64, u: (), b: bool, w: u128 }
#[derive(crate::Facet)] struct Heap { a: u8, s: String, b: bool, v: Vec<u16>, c: u32 }
#[derive(crate::Facet)] struct Zsts { u: (), p: PhantomData<u64>, a: u8, e: [u32; 0] }
#[derive(crate::Facet)] struct Wide { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128, k: usize, l: isize }
#[derive(crate::Facet)] struct Attrs {
    /// doc
    #[facet(sensitive)] a: u8,
    #[facet(rename = "bee")] b: u32,
    #[facet(default)] c: u8,
    #[facet(default = "nine")] d: u64,
    #[facet(something)] e: u16,
}
fn nine() -> u64 { 9 }
#[derive(crate::Facet)] #[facet(deny_unknown_fields)] struct Deny { a: u8 }
#[derive(crate::Facet)] #[facet(invariants = "fine")] struct Inv { a: u8, b: u8 }
impl Inv { fn fine(&self) -> bool { self.a <= self.b } }

crate::harness! {
    fn reordered(20) { layout!(Reordered, Struct, Reordered { a: any(), b: any(), c: any(), d: any(), e: any() }, ["a" a: u8, "b" b: u32, "c" c: u8, "d" d: u64, "e" e: u16]) }
    fn repr_c(20) { layout!(ReprC, Struct, ReprC { a: any(), b: any(), c: any(), d: any(), e: any() }, ["a" a: u8, "b" b: u32, "c" c: u8, "d" d: u64, "e" e: u16]) }
    fn tuple(20) { layout!(Tup, TupleStruct, Tup(any(), any(), any(), any()), ["0" 0: u8, "1" 1: u64, "2" 2: bool, "3" 3: u16]) }
    fn tuple_c(20) { layout!(TupC, TupleStruct, TupC(any(), any(), any(), any()), ["0" 0: u8, "1" 1: u64, "2" 2: bool, "3" 3: u16]) }
    fn transparent(20) { layout!(Transparent, TupleStruct, Transparent(any()), ["0" 0: u32]) }
    fn unit(20) { layout!(UnitS, Unit, UnitS, []); layout!(EmptyNamed, Struct, EmptyNamed {}, []) }
    fn nested(20) {
        layout!(Nested, Struct, Nested { p: any(), i: Inner { x: any(), y: any() }, q: any(), j: Inner { x: any(), y: any() } }, ["p" p: u8, "i" i: Inner, "q" q: u16, "j" j: Inner]);
        layout!(Inner, Struct, Inner { x: any(), y: any() }, ["x" x: u8, "y" y: u32])
    }
    fn generic(20) {
        layout!(Gen<u8>, Struct, Gen { a: any(), t: any(), b: any() }, ["a" a: u8, "t" t: u8, "b" b: u8]);
        layout!(Gen<u64>, Struct, Gen { a: any(), t: any(), b: any() }, ["a" a: u8, "t" t: u64, "b" b: u8]);
        layout!(Gen<(u8, u32)>, Struct, Gen { a: any(), t: any(), b: any() }, ["a" a: u8, "t" t: (u8, u32), "b" b: u8]);
        layout!(GenPair<u16, u64>, Struct, GenPair { a: any(), b: any(), c: any() }, ["a" a: u16, "b" b: u64, "c" c: u16])
    }
    fn const_generic(20) {
        layout!(ConstGen<0>, Struct, ConstGen { n: any(), a: any(), z: any() }, ["n" n: u8, "a" a: [u16; 0], "z" z: u64]);
        layout!(ConstGen<3>, Struct, ConstGen { n: any(), a: any(), z: any() }, ["n" n: u8, "a" a: [u16; 3], "z" z: u64])
    }
    fn lifetime(20) { layout!(Life<'static>, Struct, Life { s: if any() { "a" } else { "bcd" }, n: any() }, ["s" s: &'static str, "n" n: u8]) }
    fn mixed(20) {
        let f: f64 = any(); assume(f == f);
        layout!(Mixed, Struct, Mixed { o: any(), c: any(), t: any(), f, u: (), b: any(), w: any() }, ["o" o: Option<u32>, "c" c: char, "t" t: (u8, u32), "f" f: f64, "u" u: (), "b" b: bool, "w" w: u128])
    }
    fn heap(20) { layout!(Heap, Struct, Heap { a: any(), s: String::new(), b: any(), v: Vec::new(), c: any() }, ["a" a: u8, "s" s: String, "b" b: bool, "v" v: Vec<u16>, "c" c: u32]) }
    fn zsts(20) { layout!(Zsts, Struct, Zsts { u: (), p: PhantomData, a: any(), e: [] }, ["u" u: (), "p" p: PhantomData<u64>, "a" a: u8, "e" e: [u32; 0]]) }
    fn wide(20) {
        layout!(Wide, Struct, Wide { a: any(), b: any(), c: any(), d: any(), e: any(), f: any(), g: any(), h: any(), i: any(), j: any(), k: any(), l: any() },
            ["a" a: u8, "b" b: u16, "c" c: u32, "d" d: u64, "e" e: u128, "f" f: i8, "g" g: i16, "h" h: i32, "i" i: i64, "j" j: i128, "k" k: usize, "l" l: isize])
    }
    fn attributes(20) {
        layout!(Attrs, Struct, Attrs { a: any(), b: any(), c: any(), d: any(), e: any() }, ["a" a: u8, "b" b: u32, "c" c: u8, "d" d: u64, "e" e: u16]);
        let s = sd::<Attrs>();
        assert!(s.fields[0].flags == FieldFlags::SENSITIVE && s.fields[1].flags == FieldFlags::EMPTY && s.fields[2].flags == FieldFlags::EMPTY && s.fields[3].flags == FieldFlags::EMPTY, "flags");
        assert!(s.fields[0].doc.len() == 1 && s.fields[0].doc[0] == " doc" && s.fields[1].doc.len() == 0, "docs");
        assert!(s.fields[0].attributes.len() == 1 && matches!(s.fields[0].attributes[0], FieldAttribute::Sensitive), "sensitive");
        match s.fields[1].attributes { [FieldAttribute::Rename(n)] => assert!(*n == "bee", "rename"), _ => panic!("rename") }
        match s.fields[2].attributes { [FieldAttribute::Default(None)] => {} _ => panic!("default") }
        match s.fields[3].attributes { [FieldAttribute::Default(Some(f))] => {
            let mut m = MaybeUninit::<u64>::uninit();
            let q = unsafe { f(PtrUninit::new(m.as_mut_ptr())) };
            assert!(q.as_byte_ptr() == m.as_ptr() as *const u8 && unsafe { m.assume_init() } == 9, "default function");
        } _ => panic!("default function") }
        match s.fields[4].attributes { [FieldAttribute::Arbitrary(n)] => assert!(*n == "something", "arbitrary"), _ => panic!("arbitrary") }
        assert!(matches!(Deny::SHAPE.attributes, [ShapeAttribute::DenyUnknownFields]) && Inner::SHAPE.attributes.len() == 0, "container attributes");
    }
    fn invariants(20) {
        let v = Inv { a: any(), b: any() };
        assert!(vt::<Inner>().invariants.is_none());
        match vt::<Inv>().invariants { Some(f) => assert!(unsafe { f(p(&v)) } == (v.a <= v.b), "invariant"), None => panic!("invariants") }
    }
    fn type_params(20) {
        let s = <GenPair<u16, u64> as Facet>::SHAPE;
        assert!(s.type_params.len() == 2 && s.type_params[0].name == "A" && s.type_params[1].name == "B");
        assert!((s.type_params[0].shape)().id == ConstTypeId::of::<u16>() && (s.type_params[1].shape)().id == ConstTypeId::of::<u64>());
        assert!(Inner::SHAPE.type_params.len() == 0);
    }
}
