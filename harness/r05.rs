use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use crate::Facet;
use crate::alloc;
/// Contract of the views of enums and of the selection of variants: what is shown of a value is its variant, its
/// discriminant and its fields, and what is built after selecting a variant is that variant of these fields.
fn is<T: Facet>(p: Peek<'_>, t: &T) -> bool { p.shape() == T::SHAPE && p.data().as_byte_ptr() == t as *const T as *const u8 }

/// one enum per representation, derived; data, a named variant, unit variants, implicit and explicit discriminants up to the largest
macro_rules! family { ($m:ident, $r:tt, $mid:tt, $max:tt) => { pub mod $m {
    use super::*;
    #[derive(Facet, PartialEq, Clone, Debug)] #[repr($r)]
    pub enum E { A = $max, B(u32, bool) = $mid, Cc { x: u16, y: u8, z: u64 }, D = 0 }
    pub const DISC: [i64; 4] = [$max as i64, $mid, $mid + 1, 0];
    pub const NAMES: [&str; 4] = ["A", "B", "Cc", "D"];
    pub fn make(k: usize) -> E { match k { 0 => E::A, 1 => E::B(any(), any()), 2 => E::Cc { x: any(), y: any(), z: any() }, _ => E::D } }
    pub fn disc() { let k = below(4); let v = make(k); let e = ok(Peek::new(&v).into_enum()); assert!(e.discriminant() == DISC[k], "the discriminant of a value"); assert!(e.variant_index() == k, "the variant of a value"); match (&v, e.field(1)) { (E::B(_, b), Some(p)) => assert!(is(p, b)), (E::Cc { y, .. }, Some(p)) => assert!(is(p, y)), (E::A | E::D, None) => {}, _ => assert!(false, "the fields of a value") } }
    pub fn read() { read_k(0); read_k(1); read_k(2); read_k(3) }
    fn read_k(k: usize) {
        let v = make(k);
        let e = ok(Peek::new(&v).into_enum());
        assert!(e.variant_count() == 4 && e.variants().len() == 4);
        assert!(e.discriminant() == DISC[k], "the discriminant of a value");
        assert!(e.variant_index() == k, "the variant of a value");
        assert!(e.active_variant().name == NAMES[k] && e.variant_name_active() == NAMES[k] && e.active_variant().discriminant == DISC[k]);
        let i: usize = any(); assert!(match e.variant_name(i) { Some(n) => i < 4 && n == NAMES[i], None => i >= 4 }, "variant names by index");
        let n = match k { 1 => 2, 2 => 3, _ => 0 };
        match e.field(i) { None => assert!(i >= n, "a field that exists"), Some(p) => { assert!(i < n, "a field that does not exist"); match &v {
            E::B(a, b) => assert!(if i == 0 { is(p, a) } else { is(p, b) }, "the field at an index"),
            E::Cc { x, y, z } => assert!(if i == 0 { is(p, x) } else if i == 1 { is(p, y) } else { is(p, z) }, "the field at an index"),
            _ => assert!(false) } } }
        let mut j = 0;
        for (f, p) in e.fields() { match &v {
            E::B(a, b) => assert!(if j == 0 { is(p, a) } else { is(p, b) }, "the fields in order"),
            E::Cc { x, y, z } => assert!(if j == 0 { f.name == "x" && is(p, x) } else if j == 1 { f.name == "y" && is(p, y) } else { f.name == "z" && is(p, z) }, "the fields in order"),
            _ => assert!(false) } j += 1; }
        assert!(j == n, "each field once");
        match &v { E::Cc { x, y, z } => { assert!(matches!(e.field_by_name("x"), Some(p) if is(p, x)) && matches!(e.field_by_name("y"), Some(p) if is(p, y)) && matches!(e.field_by_name("z"), Some(p) if is(p, z)), "the field with a name"); }
            _ => assert!(e.field_by_name("x").is_none() && e.field_by_name("z").is_none() && e.field_index("y").is_none(), "a name of another variant") }
        assert!(e.field_by_name("A").is_none() && e.field_by_name("").is_none());
    }
    pub fn build(k: usize, named: bool) {
        let w = Wip::alloc::<E>();
        let w = if named { ok(w.variant_named(NAMES[k])) } else { ok(w.variant(k)) };
        assert!(match w.selected_variant() { Some(v) => v.name == NAMES[k] && v.discriminant == DISC[k], None => false }, "the variant that was selected");
        let (w, want) = match k {
            0 => (w, E::A), 3 => (w, E::D),
            1 => { let (a, b): (u32, bool) = (any(), any()); let w = ok(ok(ok(ok(ok(ok(w.field(1)).put(b)).pop()).field(0)).put(a)).pop()); (w, E::B(a, b)) }
            _ => { let (x, y, z): (u16, u8, u64) = (any(), any(), any()); let w = ok(ok(ok(w.field(0)).put(x)).pop()); let w = ok(ok(ok(w.field(2)).put(z)).pop()); let w = ok(ok(ok(w.field(1)).put(y)).pop()); (w, E::Cc { x, y, z }) }
        };
        let v: E = ok(ok(w.build()).materialize());
        assert!(v == want, "the variant that was selected, of the fields that were put");
    }
    /// native: any sequence of selections ends in the last one
    #[cfg(not(kani))] pub fn reselect() {
        let mut w = Wip::alloc::<E>();
        for _ in 0..below(5) { let k = below(4); w = ok(w.variant(k)); for f in 0..[0, 2, 3, 0][k] { if any() { w = ok(w.field(f)); w = match (k, f) { (1, 0) => ok(w.put(any::<u32>())), (1, _) => ok(w.put(any::<bool>())), (_, 0) => ok(w.put(any::<u16>())), (_, 1) => ok(w.put(any::<u8>())), _ => ok(w.put(any::<u64>())) }; w = ok(w.pop()); } } }
        let k = below(4); let want = make(k); w = ok(w.variant(k));
        match &want { E::B(a, b) => { w = ok(ok(ok(w.field(0)).put(*a)).pop()); w = ok(ok(ok(w.field_named("_1")).put(*b)).pop()); } E::Cc { x, y, z } => { w = ok(ok(ok(w.field_named("z")).put(*z)).pop()); w = ok(ok(ok(w.field_named("x")).put(*x)).pop()); assert!(w.field_index("y") == Some(1)); w = ok(ok(ok(w.field(1)).put(*y)).pop()); } _ => {} }
        let v: E = ok(ok(w.build()).materialize()); assert!(v == want);
    }
} } }
family!(u8_, u8, 7, 255);
family!(u16_, u16, 300, 65535);
family!(u32_, u32, 70000, 4294967295);
family!(u64_, u64, 5000000000, 9223372036854775806);
family!(us_, usize, 5000000001, 9223372036854775806);
family!(i8_, i8, 7, 127);
family!(i16_, i16, 300, 32767);
family!(i32_, i32, 70000, 2147483647);
family!(i64_, i64, 5000000000, 9223372036854775806);
family!(is_, isize, 5000000000, 9223372036854775806);

/// signed representations with negative discriminants (which the derive cannot read): shapes written by hand
macro_rules! signed { ($m:ident, $r:tt, $er:ident) => { pub mod $m {
    use super::*;
    #[derive(PartialEq, Clone, Debug)] #[repr($r)]
    pub enum N { Min = <$r>::MIN, Neg = -1, Zero, Two(u16) = 2, Max(u8) = <$r>::MAX }
    /// layout of a variant with data: as the Rust reference defines it
    #[repr(C)] struct TwoS(#[allow(dead_code)] $r, #[allow(dead_code)] u16);
    #[repr(C)] struct MaxS(#[allow(dead_code)] $r, #[allow(dead_code)] u8);
    pub const DISC: [i64; 5] = [<$r>::MIN as i64, -1, 0, 2, <$r>::MAX as i64];
    pub const NAMES: [&str; 5] = ["Min", "Neg", "Zero", "Two", "Max"];
    unsafe impl Facet for N { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<N>()).layout(core::alloc::Layout::new::<N>())
        .def(Def::Enum(EnumDef::builder().repr(EnumRepr::$er).variants(&const { [
            Variant::builder().name("Min").discriminant(DISC[0]).fields(Struct::builder().unit().build()).build(),
            Variant::builder().name("Neg").discriminant(DISC[1]).fields(Struct::builder().unit().build()).build(),
            Variant::builder().name("Zero").discriminant(DISC[2]).fields(Struct::builder().unit().build()).build(),
            Variant::builder().name("Two").discriminant(DISC[3]).fields(Struct::builder().tuple().fields(&const { [Field::builder().name("_0").shape(|| u16::SHAPE).offset(core::mem::offset_of!(TwoS, 1)).flags(FieldFlags::EMPTY).build()] }).build()).build(),
            Variant::builder().name("Max").discriminant(DISC[4]).fields(Struct::builder().tuple().fields(&const { [Field::builder().name("_0").shape(|| u8::SHAPE).offset(core::mem::offset_of!(MaxS, 1)).flags(FieldFlags::EMPTY).build()] }).build()).build(),
        ] }).build())).vtable(&const { ValueVTable::builder().type_name(|_, _| Ok(())).drop_in_place(|p| unsafe { p.drop_in_place::<N>() }).build() }).build() }; }
    pub fn make(k: usize) -> N { match k { 0 => N::Min, 1 => N::Neg, 2 => N::Zero, 3 => N::Two(any()), _ => N::Max(any()) } }
    pub fn read() {
        let k = below(5); let v = make(k);
        let e = ok(Peek::new(&v).into_enum());
        assert!(e.discriminant() == DISC[k] && e.variant_index() == k && e.active_variant().name == NAMES[k], "the variant of a value");
        match (&v, e.field(0)) { (N::Two(x), Some(p)) => assert!(is(p, x)), (N::Max(x), Some(p)) => assert!(is(p, x)), (N::Two(_) | N::Max(_), None) => assert!(false), (_, p) => assert!(p.is_none()) }
    }
    pub fn build(k: usize) {
        let mut w = ok(Wip::alloc::<N>().variant(k));
        let want = make(k);
        if let N::Two(x) = &want { w = ok(ok(ok(w.field(0)).put(*x)).pop()); }
        if let N::Max(x) = &want { w = ok(ok(ok(w.field(0)).put(*x)).pop()); }
        let v: N = ok(ok(w.build()).materialize());
        assert!(v == want, "the variant that was selected");
    }
} } }
signed!(n8, i8, I8);
signed!(n16, i16, I16);
signed!(n32, i32, I32);
signed!(n64, i64, I64);
signed!(nsz, isize, ISize);

#[derive(Facet, PartialEq, Clone, Debug)] #[repr(C)] pub enum Cu { A, B, D }
#[derive(Facet, PartialEq, Clone, Debug)] #[repr(C)] pub enum Cd { A(u8), B { s: u16, t: u64 }, C }
#[derive(Facet, PartialEq, Clone, Debug)] #[repr(C, u16)] pub enum Cp { A(u8), B { s: u8, t: u32 } }
#[derive(Facet, PartialEq, Clone, Debug)] #[repr(u8)] pub enum Nest { Z, In(u8_::E), Ge(Option<u16>, [u8; 3]) }
fn cd(k: usize) -> Cd { match k { 0 => Cd::A(any()), 1 => Cd::B { s: any(), t: any() }, _ => Cd::C } }
fn cp(k: usize) -> Cp { if k == 0 { Cp::A(any()) } else { Cp::B { s: any(), t: any() } } }
crate::harness! {
    fn disc_u8(6) { u8_::disc() }
    fn disc_u16(6) { u16_::disc() }
    fn disc_u32(6) { u32_::disc() }
    fn disc_u64(6) { u64_::disc() }
    fn disc_usize(6) { us_::disc() }
    fn disc_i8(6) { i8_::disc() }
    fn disc_i16(6) { i16_::disc() }
    fn disc_i32(6) { i32_::disc() }
    fn disc_i64(6) { i64_::disc() }
    fn disc_isize(6) { is_::disc() }
    fn t_read_u8(6) { u8_::read() }
    fn t_read_u16(6) { u16_::read() }
    fn t_read_u32(6) { u32_::read() }
    fn read_u64(6) { u64_::read() }
    fn t_read_usize(6) { us_::read() }
    fn t_read_i8(6) { i8_::read() }
    fn t_read_i16(6) { i16_::read() }
    fn t_read_i32(6) { i32_::read() }
    fn t_read_i64(6) { i64_::read() }
    fn t_read_isize(6) { is_::read() }
    fn read_neg_i8(6) { n8::read() }
    fn read_neg_i16(6) { n16::read() }
    fn read_neg_i32(6) { n32::read() }
    fn read_neg_i64(6) { n64::read() }
    fn read_neg_isize(6) { nsz::read() }
    fn read_c_unit(6) { let k = below(3); let v = match k { 0 => Cu::A, 1 => Cu::B, _ => Cu::D }; let e = ok(Peek::new(&v).into_enum()); assert!(e.discriminant() == k as i64 && e.variant_index() == k); }
    fn read_c(6) { let k = below(3); let v = cd(k); let e = ok(Peek::new(&v).into_enum()); assert!(e.variant_index() == k && e.discriminant() == k as i64); match (&v, e.field(0), e.field(1), e.field(2)) { (Cd::A(x), Some(p), None, None) => assert!(is(p, x)), (Cd::B { s, t }, Some(p), Some(q), None) => assert!(is(p, s) && is(q, t)), (Cd::C, None, None, None) => {}, _ => assert!(false, "the fields of a value") } }
    fn read_c_prim(6) { let k = below(2); let v = cp(k); let e = ok(Peek::new(&v).into_enum()); assert!(e.variant_index() == k && e.discriminant() == k as i64); match (&v, e.field(0), e.field(1), e.field(2)) { (Cp::A(x), Some(p), None, None) => assert!(is(p, x)), (Cp::B { s, t }, Some(p), Some(q), None) => assert!(is(p, s) && is(q, t)), _ => assert!(false, "the fields of a value") } }
    fn read_nested(6) { let v = Nest::In(u8_::make(below(4))); let e = ok(Peek::new(&v).into_enum()); assert!(e.variant_index() == 1); if let Nest::In(x) = &v { let p = e.field(0); match p { Some(p) => { assert!(is(p, x)); let f = ok(p.into_enum()); assert!(f.variant_name_active() == match x { u8_::E::A => "A", u8_::E::B(..) => "B", u8_::E::Cc { .. } => "Cc", u8_::E::D => "D" }) } None => assert!(false) } } }
    fn t_build_u8_b(8) { u8_::build(1, false) }
    fn t_build_u8_c(8) { u8_::build(2, true) }
    fn t_build_u16_d(8) { u16_::build(0, true) }
    fn build_u32_d(8) { u32_::build(0, false) }
    fn build_u64_d(8) { u64_::build(0, false) }
    fn t_build_usize_d(8) { us_::build(0, false) }
    fn build_i8_neg(8) { n8::build(0) }
    fn build_i16_neg(8) { n16::build(1) }
    fn build_i32_neg(8) { n32::build(0) }
    fn t_build_i64_neg(8) { n64::build(1) }
    fn t_build_isize_neg(8) { nsz::build(0) }
    fn t_build_i8_data(8) { n8::build(4) }
    fn t_build_i64_data(8) { n64::build(3) }
    fn no_variant_next(8) { assert!(Wip::alloc::<u8_::E>().variant(4).is_err(), "a variant that does not exist") }
    fn t_no_variant_max(8) { assert!(Wip::alloc::<u8_::E>().variant(usize::MAX).is_err(), "a variant that does not exist") }
    fn find_variant(8) { let w = Wip::alloc::<u8_::E>(); assert!(w.find_variant("Cc").map(|x| x.0) == Some(2) && w.find_variant("").is_none() && w.find_variant("D").map(|x| x.1.discriminant) == Some(0)); core::mem::forget(w); }
}
crate::native! {
    fn e_read() { u8_::read(); u16_::read(); u32_::read(); u64_::read(); us_::read(); i8_::read(); i16_::read(); i32_::read(); i64_::read(); is_::read(); n8::read(); n16::read(); n32::read(); n64::read(); nsz::read(); }
    fn e_build() { let (k, n) = (below(4), any()); u8_::build(k, n); u16_::build(k, n); u32_::build(k, n); u64_::build(k, n); us_::build(k, n); i8_::build(k, n); i16_::build(k, n); i32_::build(k, n); i64_::build(k, n); is_::build(k, n); let k = below(5); n8::build(k); n16::build(k); n32::build(k); n64::build(k); nsz::build(k); }
    fn e_reselect() { u8_::reselect(); u16_::reselect(); u32_::reselect(); u64_::reselect(); us_::reselect(); i8_::reselect(); i16_::reselect(); i32_::reselect(); i64_::reselect(); is_::reselect(); }
    fn e_c() {
        let want = cd(below(3)); let mut w = Wip::alloc::<Cd>();
        w = match &want { Cd::A(x) => ok(ok(ok(ok(w.variant(0)).field(0)).put(*x)).pop()), Cd::B { s, t } => { let w = ok(ok(ok(ok(w.variant_named("B")).field_named("t")).put(*t)).pop()); ok(ok(ok(w.field(0)).put(*s)).pop()) } Cd::C => ok(w.variant(2)) };
        assert!(ok(ok(w.build()).materialize::<Cd>()) == want);
        let want = cp(below(2)); let mut w = Wip::alloc::<Cp>();
        w = match &want { Cp::A(x) => ok(ok(ok(ok(w.variant(0)).field(0)).put(*x)).pop()), Cp::B { s, t } => { let w = ok(ok(ok(ok(w.variant_named("B")).field_named("t")).put(*t)).pop()); ok(ok(ok(w.field(0)).put(*s)).pop()) } };
        assert!(ok(ok(w.build()).materialize::<Cp>()) == want);
        for (k, want) in [Cu::A, Cu::B, Cu::D].into_iter().enumerate() { assert!(ok(ok(ok(Wip::alloc::<Cu>().variant(k)).build()).materialize::<Cu>()) == want) }
    }
    /// enums in enums, in structs, in lists and options, put as a whole and read back
    fn e_nested() {
        let n = any_string(2); assert!(Wip::alloc::<u8_::E>().variant_named(&n).is_ok() == u8_::NAMES.contains(&n.as_str()), "a variant that does not exist");
        let want = match below(3) { 0 => Nest::Z, 1 => Nest::In(u8_::make(below(4))), _ => Nest::Ge(any(), any()) };
        let v: alloc::vec::Vec<Nest> = ok(ok(ok(ok(ok(Wip::alloc::<alloc::vec::Vec<Nest>>().push()).put(want.clone())).pop()).build()).materialize());
        assert!(v.len() == 1 && v[0] == want);
        let l = ok(Peek::new(&v).into_list()); let e = ok(l.get(0).unwrap().into_enum());
        assert!(e.variant_index() == match &want { Nest::Z => 0, Nest::In(_) => 1, Nest::Ge(..) => 2 });
        let w = ok(ok(Wip::alloc::<Nest>().put(want.clone())).variant(1)); let inner = u8_::make(below(4));
        let w = ok(ok(ok(w.field(0)).put(inner.clone())).pop()); assert!(ok(ok(w.build()).materialize::<Nest>()) == Nest::In(inner));
    }
}
