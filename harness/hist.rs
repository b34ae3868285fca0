use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use std::vec::Vec;
use std::vec;
use std::string::String;
use std::boxed::Box;
use std::collections::{HashMap, BTreeMap};
use std::cell::RefCell;

/// Reference model of the builder.  A history is a random sequence of builder operations; the model predicts what is
/// initialised, what the finished value is and which results are certain.  Every `Tk` is counted.
thread_local! { static TK: RefCell<Vec<(i32, i32)>> = const { RefCell::new(Vec::new()) }; }
fn tk_next() -> u64 { TK.with(|t| { t.borrow_mut().push((0, 0)); t.borrow().len() as u64 - 1 }) }
#[derive(Debug)]
pub struct Tk { id: u64, heap: Vec<u8> }
unsafe impl Facet for Tk { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<Tk>()).layout(core::alloc::Layout::new::<Tk>())
    .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build())).vtable(crate::facet_core::value_vtable!(Tk, |f, _| core::fmt::Write::write_str(f, "Tk"))).build() }; }
impl Tk { fn of(id: u64) -> Tk { TK.with(|t| t.borrow_mut()[id as usize].0 += 1); Tk { id, heap: vec![id as u8; 3] } } }
impl Default for Tk { fn default() -> Tk { Tk::of(tk_next()) } }
impl Drop for Tk { fn drop(&mut self) {
    assert!(self.heap.len() == 3 && self.heap[0] == self.id as u8, "dropped value is corrupted");
    TK.with(|t| { let mut t = t.borrow_mut(); t[self.id as usize].1 += 1; let x = t[self.id as usize]; assert!(x.1 <= x.0, "value {} dropped twice", self.id) })
} }
/// a value without bytes still has to be dropped exactly once
thread_local! { static ZC: std::cell::Cell<(i32, i32)> = const { std::cell::Cell::new((0, 0)) }; }
#[derive(Debug)] pub struct Zst(());
impl Default for Zst { fn default() -> Zst { ZC.with(|z| z.set((z.get().0 + 1, z.get().1))); Zst(()) } }
impl Drop for Zst { fn drop(&mut self) { ZC.with(|z| { z.set((z.get().0, z.get().1 + 1)); assert!(z.get().1 <= z.get().0, "a zero-sized value was dropped twice") }) } }
unsafe impl Facet for Zst { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<Zst>()).layout(core::alloc::Layout::new::<Zst>())
    .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build())).vtable(crate::facet_core::value_vtable!(Zst, |f, _| core::fmt::Write::write_str(f, "Zst"))).build() }; }
fn tk_check() { ZC.with(|z| { let (c, d) = z.replace((0, 0)); assert!(c == d, "zero-sized values: created {c} times, dropped {d} times") });
     TK.with(|t| for (i, (c, d)) in t.borrow().iter().enumerate() { assert!(c == d, "value {i}: created {c} times, dropped {d} times"); }) }

#[derive(Clone, Debug)]
pub enum Val { N(u64), S(String), Tk(u64), AnyTk, St(Vec<Val>), En(usize, Vec<Val>), Li(Vec<Val>), Op(Option<Box<Val>>), Mp(Vec<(Val, Val)>) }
impl PartialEq for Val { fn eq(&self, o: &Val) -> bool { use Val::*; match (self, o) {
    (N(a), N(b)) => a == b, (S(a), S(b)) => a == b, (Tk(a), Tk(b)) => a == b, (AnyTk, Tk(_)) | (Tk(_), AnyTk) | (AnyTk, AnyTk) => true,
    (St(a), St(b)) | (Li(a), Li(b)) => a == b, (En(i, a), En(j, b)) => i == j && a == b, (Op(a), Op(b)) => a == b,
    (Mp(a), Mp(b)) => { a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && v == v2)) }
    _ => false } } }

type W = Wip<'static>;
type Fd = (&'static str, fn() -> D);
pub enum Kind { Leaf, Struct(Vec<Fd>), Enum(Vec<(&'static str, Vec<Fd>)>), List(fn() -> D), Opt(fn() -> D), Map(fn() -> D, fn() -> D) }
pub struct D { shape: &'static Shape, kind: Kind, put: fn(W, &Val) -> Result<W, ReflectError>, peek: fn(W, &Val) -> Result<W, ReflectError>, fin: fn(HeapValue<'static>) -> Result<Val, ()>, mk: fn(u32) -> Val, dflt: Option<fn() -> Val>, alloc: fn() -> W, parse: bool, show: fn(Peek<'_>) -> Option<Val> }
pub trait Ty: Facet + Sized + 'static { fn kind() -> Kind; fn make(v: &Val) -> Self; fn read(&self) -> Val; fn mk(d: u32) -> Val; const PARSE: bool = false; fn dflt() -> Option<fn() -> Val> { None } }
fn d<T: Ty>() -> D { D {
    shape: T::SHAPE, kind: T::kind(), mk: T::mk, dflt: T::dflt(), parse: T::PARSE,
    put: |w, v| w.put::<T>(T::make(v)),
    peek: |w, v| { let b = Box::into_raw(Box::new(T::make(v))); let r = w.put_peek(Peek::new(unsafe { &*b })); let b = unsafe { Box::from_raw(b) }; assert!(b.read() == *v, "the borrowed value changed"); r },
    fin: |h| match h.materialize::<T>() { Ok(t) => Ok(t.read()), Err(_) => Err(()) },
    alloc: || Wip::alloc::<T>(),
    show: |p| p.get::<T>().ok().map(|t| t.read()),
} }
macro_rules! nums { ($($t:ty),*) => { $( impl Ty for $t { fn kind() -> Kind { Kind::Leaf } fn make(v: &Val) -> $t { match v { Val::N(n) => *n as $t, _ => panic!() } } fn read(&self) -> Val { Val::N(*self as u64) } fn mk(_: u32) -> Val { Val::N(any::<$t>() as u64) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::N(0)) } const PARSE: bool = true; } )* } }
nums!(u8, u32, u64);
impl Ty for String { fn kind() -> Kind { Kind::Leaf } fn make(v: &Val) -> String { match v { Val::S(n) => n.clone(), _ => panic!() } } fn read(&self) -> Val { Val::S(self.clone()) } fn mk(_: u32) -> Val { Val::S(std::format!("string {}", below(100))) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::S(String::new())) } const PARSE: bool = true; }
impl Ty for Tk { fn kind() -> Kind { Kind::Leaf } fn make(v: &Val) -> Tk { match v { Val::Tk(n) => Tk::of(*n), _ => panic!() } } fn read(&self) -> Val { Val::Tk(self.id) } fn mk(_: u32) -> Val { Val::Tk(tk_next()) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::AnyTk) } }
impl Ty for Zst { fn kind() -> Kind { Kind::Leaf } fn make(_: &Val) -> Zst { Zst::default() } fn read(&self) -> Val { Val::N(7) } fn mk(_: u32) -> Val { Val::N(7) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::N(7)) } }
impl<T: Ty> Ty for Option<T> { fn kind() -> Kind { Kind::Opt(d::<T>) } fn make(v: &Val) -> Self { match v { Val::Op(o) => o.as_ref().map(|x| T::make(x)), _ => panic!() } } fn read(&self) -> Val { Val::Op(self.as_ref().map(|x| Box::new(x.read()))) } fn mk(k: u32) -> Val { Val::Op(if any() { Some(Box::new(T::mk(k))) } else { None }) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::Op(None)) } const PARSE: bool = T::PARSE; }
impl<T: Ty> Ty for Vec<T> { fn kind() -> Kind { Kind::List(d::<T>) } fn make(v: &Val) -> Self { match v { Val::Li(o) => o.iter().map(|x| T::make(x)).collect(), _ => panic!() } } fn read(&self) -> Val { Val::Li(self.iter().map(|x| x.read()).collect()) } fn mk(k: u32) -> Val { let n = below(if k > 2 { 1 } else { 3 }); Val::Li((0..n).map(|_| T::mk(k + 1)).collect()) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::Li(vec![])) } }
macro_rules! maps { ($m:ident, $($b:tt)*) => { impl<K: Ty $($b)*, T: Ty> Ty for $m<K, T> { fn kind() -> Kind { Kind::Map(d::<K>, d::<T>) } fn make(v: &Val) -> Self { match v { Val::Mp(o) => o.iter().map(|(k, x)| (K::make(k), T::make(x))).collect(), _ => panic!() } } fn read(&self) -> Val { Val::Mp(self.iter().map(|(k, x)| (k.read(), x.read())).collect()) }
    fn mk(k: u32) -> Val { let n = below(3); let mut r: Vec<(Val, Val)> = vec![]; for _ in 0..n { let key = K::mk(k + 1); let v = T::mk(k + 1); if !r.iter().any(|x| x.0 == key) { r.push((key, v)) } } Val::Mp(r) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::Mp(vec![])) } } } }
maps!(HashMap, + Eq + std::hash::Hash); maps!(BTreeMap, + Ord + Eq);
macro_rules! structs { ($($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* })*) => { $(
    $(#[$m])* #[derive(crate::Facet, Debug)] pub struct $n { $($f: $t),* }
    impl Ty for $n { fn kind() -> Kind { Kind::Struct(vec![$((stringify!($f), d::<$t>)),*]) }
        fn make(v: &Val) -> $n { match v { Val::St(x) => { let mut i = x.iter(); $n { $($f: <$t>::make(i.next().unwrap())),* } } _ => panic!() } }
        fn read(&self) -> Val { Val::St(vec![$(self.$f.read()),*]) }
        fn mk(k: u32) -> Val { Val::St(vec![$(<$t>::mk(k + 1)),*]) } }
)* } }
structs! {
    Inner { x: Tk, y: String }
    Deep { m: Inner, t: Tk, k: u8 }
    Outer { i: Inner, n: u8, o: Option<Tk>, v: Vec<Tk>, j: Deep }
    Opts { o: Option<Inner>, p: Option<Option<u32>>, s: Option<String>, u: Option<u32> }
    Lists { v: Vec<Vec<Tk>>, w: Vec<Inner>, s: Vec<String>, o: Vec<Option<Tk>> }
    Maps { m: HashMap<String, Tk>, b: HashMap<u32, Inner>, l: HashMap<String, Vec<Tk>> }
    Mixed { t: (Tk, u32), s: Ts, a: [Tk; 2], r: std::sync::Arc<Tk>, g: Gn<Vec<Tk>>, l: Vec<(Tk, Tk, u8)> }
    WithEnum { e: E, t: Tk, f: F, g: E }
    Enums { v: Vec<E>, o: Option<E>, m: HashMap<u8, E>, b: String }
    One { only: Tk }
    OneDeep { only: One }
    Pair { first: OneDeep, second: OneDeep }
    Same { a: Tk, b: Tk, c: Tk, d: Tk }
    #[derive(PartialEq, Eq, Hash, PartialOrd, Ord)] Key { a: u32, b: String }
    #[derive(PartialEq, Eq, Hash, PartialOrd, Ord)] Key2 { k: Key, o: Option<u8>, v: Vec<u8> }
    Keyed { m: HashMap<Key, Tk>, b: BTreeMap<Key2, Inner> }
    Zs { a: u8, z: Zst, t: Tk, o: Option<Zst>, v: Vec<Zst> }
}
#[derive(crate::Facet, Debug)] #[repr(u8)] pub enum E { U, T(Tk, u32), R { a: String, b: Tk }, L(Vec<Tk>), N(Inner) }
impl Ty for E {
    fn kind() -> Kind { Kind::Enum(vec![("U", vec![]), ("T", vec![("_0", d::<Tk>), ("_1", d::<u32>)]), ("R", vec![("a", d::<String>), ("b", d::<Tk>)]), ("L", vec![("_0", d::<Vec<Tk>>)]), ("N", vec![("_0", d::<Inner>)])]) }
    fn make(v: &Val) -> E { match v { Val::En(i, x) => match i { 0 => E::U, 1 => E::T(Ty::make(&x[0]), Ty::make(&x[1])), 2 => E::R { a: Ty::make(&x[0]), b: Ty::make(&x[1]) }, 3 => E::L(Ty::make(&x[0])), _ => E::N(Ty::make(&x[0])) }, _ => panic!() } }
    fn read(&self) -> Val { match self { E::U => Val::En(0, vec![]), E::T(a, b) => Val::En(1, vec![a.read(), b.read()]), E::R { a, b } => Val::En(2, vec![a.read(), b.read()]), E::L(a) => Val::En(3, vec![a.read()]), E::N(a) => Val::En(4, vec![a.read()]) } }
    fn mk(k: u32) -> Val { match below(5) { 0 => Val::En(0, vec![]), 1 => Val::En(1, vec![Tk::mk(k), u32::mk(k)]), 2 => Val::En(2, vec![String::mk(k), Tk::mk(k)]), 3 => Val::En(3, vec![<Vec<Tk>>::mk(k + 1)]), _ => Val::En(4, vec![Inner::mk(k)]) } }
}
#[derive(crate::Facet, Debug)] #[repr(C)] pub enum F { A(u8), B { s: String, t: u64 }, C }
impl Ty for F {
    fn kind() -> Kind { Kind::Enum(vec![("A", vec![("_0", d::<u8>)]), ("B", vec![("s", d::<String>), ("t", d::<u64>)]), ("C", vec![])]) }
    fn make(v: &Val) -> F { match v { Val::En(i, x) => match i { 0 => F::A(Ty::make(&x[0])), 1 => F::B { s: Ty::make(&x[0]), t: Ty::make(&x[1]) }, _ => F::C }, _ => panic!() } }
    fn read(&self) -> Val { match self { F::A(a) => Val::En(0, vec![a.read()]), F::B { s, t } => Val::En(1, vec![s.read(), t.read()]), F::C => Val::En(2, vec![]) } }
    fn mk(k: u32) -> Val { match below(3) { 0 => Val::En(0, vec![u8::mk(k)]), 1 => Val::En(1, vec![String::mk(k), u64::mk(k)]), _ => Val::En(2, vec![]) } }
}

impl<A: Ty, B: Ty> Ty for (A, B) { fn kind() -> Kind { Kind::Struct(vec![("0", d::<A>), ("1", d::<B>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => (A::make(&x[0]), B::make(&x[1])), _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.0.read(), self.1.read()]) } fn mk(k: u32) -> Val { Val::St(vec![A::mk(k + 1), B::mk(k + 1)]) } }
impl<A: Ty, B: Ty, C: Ty> Ty for (A, B, C) { fn kind() -> Kind { Kind::Struct(vec![("0", d::<A>), ("1", d::<B>), ("2", d::<C>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => (A::make(&x[0]), B::make(&x[1]), C::make(&x[2])), _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.0.read(), self.1.read(), self.2.read()]) } fn mk(k: u32) -> Val { Val::St(vec![A::mk(k + 1), B::mk(k + 1), C::mk(k + 1)]) } }
impl Ty for [Tk; 2] { fn kind() -> Kind { Kind::Leaf } fn make(v: &Val) -> Self { match v { Val::Li(x) => [Tk::make(&x[0]), Tk::make(&x[1])], _ => panic!() } } fn read(&self) -> Val { Val::Li(vec![self[0].read(), self[1].read()]) } fn mk(k: u32) -> Val { Val::Li(vec![Tk::mk(k), Tk::mk(k)]) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::Li(vec![Val::AnyTk, Val::AnyTk])) } }
impl Ty for std::sync::Arc<Tk> { fn kind() -> Kind { Kind::Leaf } fn make(v: &Val) -> Self { std::sync::Arc::new(Tk::make(v)) } fn read(&self) -> Val { (**self).read() } fn mk(k: u32) -> Val { Tk::mk(k) } fn dflt() -> Option<fn() -> Val> { if <std::sync::Arc<Tk>>::SHAPE.vtable.default_in_place.is_some() { Some(|| Val::AnyTk) } else { None } } }
#[derive(crate::Facet, Debug)] pub struct Ts(Tk, u32, pub Inner);
impl Ty for Ts { fn kind() -> Kind { Kind::Struct(vec![("0", d::<Tk>), ("1", d::<u32>), ("2", d::<Inner>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => Ts(Ty::make(&x[0]), Ty::make(&x[1]), Ty::make(&x[2])), _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.0.read(), self.1.read(), self.2.read()]) } fn mk(k: u32) -> Val { Val::St(vec![Tk::mk(k), u32::mk(k), Inner::mk(k)]) } }
/// a generic struct, and one with a default
#[derive(crate::Facet, Debug)] pub struct Gn<T> { g: T, h: Tk }
impl<T: Ty> Ty for Gn<T> { fn kind() -> Kind { Kind::Struct(vec![("g", d::<T>), ("h", d::<Tk>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => Gn { g: T::make(&x[0]), h: Ty::make(&x[1]) }, _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.g.read(), self.h.read()]) } fn mk(k: u32) -> Val { Val::St(vec![T::mk(k + 1), Tk::mk(k)]) } }
#[derive(crate::Facet, Debug, Default)] pub struct Df { a: Tk, b: String, c: One2 }
#[derive(crate::Facet, Debug, Default)] pub struct One2 { z: Tk }
impl Ty for One2 { fn kind() -> Kind { Kind::Struct(vec![("z", d::<Tk>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => One2 { z: Ty::make(&x[0]) }, _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.z.read()]) } fn mk(k: u32) -> Val { Val::St(vec![Tk::mk(k)]) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::St(vec![Val::AnyTk])) } }
impl Ty for Df { fn kind() -> Kind { Kind::Struct(vec![("a", d::<Tk>), ("b", d::<String>), ("c", d::<One2>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => Df { a: Ty::make(&x[0]), b: Ty::make(&x[1]), c: Ty::make(&x[2]) }, _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.a.read(), self.b.read(), self.c.read()]) } fn mk(k: u32) -> Val { Val::St(vec![Tk::mk(k), String::mk(k), One2::mk(k)]) } fn dflt() -> Option<fn() -> Val> { Some(|| Val::St(vec![Val::AnyTk, Val::S(String::new()), Val::St(vec![Val::AnyTk])])) } }
/// building must check the invariant, and give everything back when it fails
#[derive(crate::Facet, Debug)] #[facet(invariants = "holds")] pub struct Inv { a: u8, t: Tk, i: Inner }
impl Inv { fn holds(&self) -> bool { self.a % 2 == 0 && self.t.heap.len() == 3 } }
impl Ty for Inv { fn kind() -> Kind { Kind::Struct(vec![("a", d::<u8>), ("t", d::<Tk>), ("i", d::<Inner>)]) } fn make(v: &Val) -> Self { match v { Val::St(x) => Inv { a: Ty::make(&x[0]), t: Ty::make(&x[1]), i: Ty::make(&x[2]) }, _ => panic!() } } fn read(&self) -> Val { Val::St(vec![self.a.read(), self.t.read(), self.i.read()]) } fn mk(k: u32) -> Val { Val::St(vec![u8::mk(k), Tk::mk(k), Inner::mk(k)]) } }

/// state of one place
enum St { Empty, Whole(Val), Parts(Vec<Node>), Var(usize, Vec<Node>) }
struct Node { d: fn() -> D, st: St, visited: bool }
fn node(d: fn() -> D) -> Node { Node { d, st: St::Empty, visited: false } }
impl Node {
    /// the value if complete
    fn val(&self) -> Option<Val> { match &self.st {
        St::Empty => None, St::Whole(v) => Some(v.clone()),
        St::Parts(p) => p.iter().map(|n| n.val()).collect::<Option<Vec<_>>>().map(Val::St),
        St::Var(i, p) => p.iter().map(|n| n.val()).collect::<Option<Vec<_>>>().map(|v| Val::En(*i, v)),
    } }
    fn touched(&self) -> bool { !matches!(self.st, St::Empty) }
    /// the fields, splitting a whole value into its parts
    fn parts(&mut self) -> Option<&mut Vec<Node>> {
        let k = (self.d)().kind;
        if let St::Whole(v) = &self.st { match (&k, v.clone()) {
            (Kind::Struct(fs), Val::St(x)) => self.st = St::Parts(fs.iter().zip(x).map(|(f, v)| Node { d: f.1, st: St::Whole(v), visited: true }).collect()),
            (Kind::Enum(vs), Val::En(i, x)) => self.st = St::Var(i, vs[i].1.iter().zip(x).map(|(f, v)| Node { d: f.1, st: St::Whole(v), visited: true }).collect()),
            _ => {}
        } }
        if let (St::Empty, Kind::Struct(fs)) = (&self.st, &k) { self.st = St::Parts(fs.iter().map(|f| node(f.1)).collect()) }
        match &mut self.st { St::Parts(p) => Some(p), St::Var(_, p) => Some(p), _ => None }
    }
    fn list(&mut self) -> &mut Vec<Val> { if let St::Empty = self.st { self.st = St::Whole(Val::Li(vec![])) } match &mut self.st { St::Whole(Val::Li(l)) => l, _ => panic!("model: list") } }
    fn map(&mut self) -> &mut Vec<(Val, Val)> { if let St::Empty = self.st { self.st = St::Whole(Val::Mp(vec![])) } match &mut self.st { St::Whole(Val::Mp(l)) => l, _ => panic!("model: map") } }
}
#[derive(Clone, Copy, PartialEq)]
enum At { Root, Field(usize), Elem, Some_, None_, Key, Value }
struct Fr { n: Node, at: At }

pub struct H { st: Vec<Fr>, pub noise: usize, pub steps: usize, pub log: String }
/// what the result of the operation must be
#[derive(PartialEq, Clone, Copy)]
enum Must { Ok, Err, Either }

impl H {
    fn top(&mut self) -> &mut Fr { self.st.last_mut().unwrap() }
    fn field_names(&mut self) -> Vec<&'static str> {
        let n = &self.top().n; match ((n.d)().kind, &n.st) {
            (Kind::Struct(f), _) => f.iter().map(|x| x.0).collect(),
            (Kind::Enum(v), St::Var(i, _)) => v[*i].1.iter().map(|x| x.0).collect(),
            (Kind::Enum(v), St::Whole(Val::En(i, _))) => v[*i].1.iter().map(|x| x.0).collect(),
            _ => vec![] }
    }
    fn agree(&mut self, w: &W) {
        let dd = (self.top().n.d)();
        if self.top().at == At::None_ { return }
        assert!(w.shape() == dd.shape, "the current frame has the selected shape");
        assert!(w.frames_count() == self.st.len(), "frame count");
        assert!(w.in_option() == (self.top().at == At::Some_), "in_option");
        let names = self.field_names();
        for (i, nm) in names.iter().enumerate() { assert!(w.field_index(nm) == Some(i), "field_index") }
        assert!(w.field_index("no such field").is_none());
        if !names.is_empty() {
            let n = &mut self.top().n;
            let flags: Vec<Option<bool>> = match &n.st { St::Whole(_) => names.iter().map(|_| Some(true)).collect(), St::Empty => names.iter().map(|_| Some(false)).collect(),
                St::Parts(p) | St::Var(_, p) => p.iter().map(|c| Some(c.val().is_some())).collect() };
            for (i, f) in flags.iter().enumerate() { if let Some(f) = f { assert!(w.is_field_set(i).ok() == Some(*f), "is_field_set({i}) must be {f}"); } }
            assert!(w.is_field_set(names.len()).is_err(), "is_field_set out of range");
        }
        if let Kind::Enum(vs) = dd.kind { match &self.top().n.st { St::Var(i, _) => assert!(w.selected_variant().map(|v| v.name) == Some(vs[*i].0), "selected_variant"), St::Empty => assert!(w.selected_variant().is_none(), "no variant selected"), _ => {} } }
    }
    /// model of leaving the current frame
    fn leave(&mut self) {
        let f = self.st.pop().unwrap();
        match f.at {
            At::Root => { self.st.push(f) }
            At::Field(i) => { let mut n = f.n; n.visited = true; self.top().n.parts().unwrap()[i] = n }
            At::Elem => { if let Some(v) = f.n.val() { self.top().n.list().push(v) } }
            At::Some_ => { if let Some(v) = f.n.val() { self.top().n.st = St::Whole(Val::Op(Some(Box::new(v)))) } }
            At::None_ => {}
            At::Key => {}
            At::Value => { if let Some(v) = f.n.val() { let k = self.st.pop().unwrap().n.val().unwrap(); let m = self.top().n.map(); match m.iter_mut().find(|x| x.0 == k) { Some(e) => e.1 = v, None => m.push((k, v)) } } }
        }
    }
    fn check(&self, m: Must, r: &Result<W, ReflectError>, what: &str) {
        match m { Must::Ok => assert!(r.is_ok(), "{what} must succeed: {:?}\n{}", r.as_ref().err().map(|e| std::format!("{e}")), self.log), Must::Err => assert!(r.is_err(), "{what} must fail\n{}", self.log), Must::Either => {} }
    }
    /// enter field i (index already valid in the model)
    fn enter(&mut self, i: usize) { let c = core::mem::replace(&mut self.top().n.parts().unwrap()[i], node(d::<u8>)); self.st.push(Fr { n: c, at: At::Field(i) }) }
    /// the place is empty and so are all the flags above that could refuse a put
    fn fresh(&mut self) -> bool { !self.top().n.touched() }

    /// one operation; None when the history ended (the builder was consumed by an error)
    fn step(&mut self, w: W, op: usize) -> Option<W> {
        macro_rules! go { ($r:expr, $must:expr, $what:expr, $ok:block) => {{ let m = $must; let r = $r; self.check(m, &r, $what); match r { Ok(w) => { $ok; return Some(w) } Err(e) => { let _ = std::format!("{e} {e:?}"); return None } } }} }
        let dd = (self.top().n.d)();
        self.log.push_str(&std::format!("{}:{op} ", dd.shape));
        let fresh = self.fresh();
        let none = self.top().at == At::None_;
        let names = self.field_names();
        if none { match op {
            7 => match below(4) { 0 => go!(w.begin_pushback(), Must::Err, "begin_pushback in None", {}), 1 => go!(w.put_empty_list(), Must::Err, "put_empty_list in None", {}), 2 => go!(w.begin_map_insert(), Must::Err, "begin_map_insert in None", {}), _ => go!(w.put_empty_map(), Must::Err, "put_empty_map in None", {}) },
            8 => go!(w.push(), Must::Err, "push in None", {}), 9 => go!(w.push_some(), Must::Err, "push_some in None", {}), 11 => go!(w.push_map_key(), Must::Err, "push_map_key in None", {}), 6 => go!(w.variant(0), Must::Err, "variant in None", {}), _ => {} } }
        match op {
            0 => { let i = below(names.len() + 2); if names.get(i).is_some() && !none { go!(w.field(i), Must::Ok, "selecting an existing field", { self.enter(i) }) } else { go!(w.field(i), Must::Err, "selecting a field that does not exist", {}) } }
            1 => { if names.is_empty() || none { go!(w.field_named("x"), Must::Err, "selecting a field that does not exist", {}) } let i = below(names.len() + 1); if i < names.len() { go!(w.field_named(names[i]), Must::Ok, "selecting an existing field", { self.enter(i) }) } else { go!(w.field_named("nope"), Must::Err, "a field that does not exist", {}) } }
            2 => { // put a whole value
                if none { go!((dd.put)(w, &(dd.mk)(0)), Must::Either, "put after None", { panic!("put into a None") }) }
                let v = (dd.mk)(0);
                let opt = if let Kind::Opt(t) = dd.kind { if any() { Some(t) } else { None } } else { None };
                let must = if fresh { Must::Ok } else { Must::Either };
                match opt {
                    Some(t) => { let v = (t().mk)(0); go!((t().put)(w, &v), must, "putting T into Option<T>", { self.top().n.st = St::Whole(Val::Op(Some(Box::new(v)))) }) }
                    None => go!((dd.put)(w, &v), must, "put", { self.top().n.st = St::Whole(v) }),
                }
            }
            3 => { // wrong type
                let wrong: [fn() -> D; 8] = [d::<u8>, d::<u32>, d::<String>, d::<Tk>, d::<Inner>, d::<Vec<Tk>>, d::<E>, d::<Option<Tk>>];
                let t = wrong[below(8)]();
                if t.shape == dd.shape { return Some(w) }
                if let Kind::Opt(i) = dd.kind { if i().shape == t.shape { return Some(w) } }
                if none { return Some(w) }
                go!((t.put)(w, &(t.mk)(0)), Must::Err, "putting a value of another type", {})
            }
            4 => { let must = if none { Must::Either } else if dd.dflt.is_none() { Must::Err } else if fresh { Must::Ok } else { Must::Either };
                let v = dd.dflt.map(|f| f());
                go!(w.put_default(), must, "put_default", { self.top().n.st = St::Whole(v.expect("default")) }) }
            5 => { let must = if none { Must::Either } else if !dd.parse { Must::Err } else if fresh { Must::Ok } else { Must::Either };
                fn text(dd: &D) -> (Val, String) { if let Kind::Opt(t) = dd.kind { let (v, s) = text(&t()); (Val::Op(Some(Box::new(v))), s) } else { let v = (dd.mk)(0); let s = match &v { Val::N(n) => std::format!("{n}"), Val::S(s) => s.clone(), _ => panic!() }; (v, s) } }
                let (v, s) = if dd.parse { text(&dd) } else { (Val::N(0), String::new()) };
                go!(w.parse(&s), must, "parse", { self.top().n.st = St::Whole(v) }) }
            6 => { if let (Kind::Enum(vs), false) = (&dd.kind, none) { let i = below(vs.len() + 1); if i < vs.len() { let must = if fresh { Must::Ok } else { Must::Either };
                    let st = St::Var(i, vs[i].1.iter().map(|f| node(f.1)).collect());
                    if any() { go!(w.variant(i), must, "selecting a variant", { self.top().n.st = st }) } else { go!(w.variant_named(vs[i].0), must, "selecting a variant", { self.top().n.st = st }) } }
                  else if any() { go!(w.variant(i), Must::Err, "selecting a variant that does not exist", {}) } else { go!(w.variant_named("Nope"), Must::Err, "selecting a variant that does not exist", {}) } }
                else if !none { go!(w.variant(0), Must::Err, "variant of a non-enum", {}) } else { return Some(w) } }
            7 => { if let Kind::List(_) = dd.kind { if any() { go!(w.begin_pushback(), Must::Ok, "begin_pushback", { self.top().n.list(); }) } else { go!(w.put_empty_list(), if fresh { Must::Ok } else { Must::Either }, "put_empty_list", { self.top().n.st = St::Whole(Val::Li(vec![])) }) } }
                else if let Kind::Map(..) = dd.kind { if any() { go!(w.begin_map_insert(), Must::Ok, "begin_map_insert", { self.top().n.map(); }) } else { go!(w.put_empty_map(), if fresh { Must::Ok } else { Must::Either }, "put_empty_map", { self.top().n.st = St::Whole(Val::Mp(vec![])) }) } }
                else if !none { match below(4) { 0 => go!(w.begin_pushback(), Must::Err, "begin_pushback", {}), 1 => go!(w.put_empty_list(), Must::Err, "put_empty_list", {}), 2 => go!(w.begin_map_insert(), Must::Err, "begin_map_insert", {}), _ => go!(w.put_empty_map(), Must::Err, "put_empty_map", {}) } }
                else { return Some(w) } }
            8 => { if let Kind::List(t) = dd.kind { go!(w.push(), Must::Ok, "push", { self.top().n.list(); self.st.push(Fr { n: node(t), at: At::Elem }) }) } else if !none { go!(w.push(), Must::Err, "push", {}) } else { return Some(w) } }
            9 => { if let Kind::Opt(t) = dd.kind { if none { return Some(w) } go!(w.push_some(), Must::Ok, "push_some", { self.st.push(Fr { n: node(t), at: At::Some_ }) }) } else if !none { go!(w.push_some(), Must::Err, "push_some", {}) } else { return Some(w) } }
            10 => { let ok = self.top().at == At::Some_ && self.top().n.val().is_none(); let full = self.top().n.val().is_some();
                go!(w.pop_some_push_none(), if ok && !self.top().n.touched() { Must::Ok } else if self.top().at != At::Some_ || full { Must::Err } else { Must::Either }, "pop_some_push_none", { let f = self.st.pop().unwrap(); self.top().n.st = St::Whole(Val::Op(None)); self.st.push(Fr { n: Node { d: f.n.d, st: St::Empty, visited: true }, at: At::None_ }) }) }
            11 => { if let Kind::Map(k, _) = dd.kind { go!(w.push_map_key(), Must::Ok, "push_map_key", { self.top().n.map(); self.st.push(Fr { n: node(k), at: At::Key }) }) } else if !none { go!(w.push_map_key(), Must::Err, "push_map_key", {}) } else { return Some(w) } }
            12 => { if none { return Some(w) } let ok = self.top().at == At::Key && self.top().n.val().is_some();
                go!(w.push_map_value(), if ok { Must::Ok } else { Must::Err }, "push_map_value", { let n = self.st.len(); let v = match (self.st[n - 2].n.d)().kind { Kind::Map(_, v) => v, _ => panic!() }; self.st.push(Fr { n: node(v), at: At::Value }) }) }
            14 => { // a clone of a borrowed value
                let v = (dd.mk)(0); let must = if none { Must::Err } else if dd.shape.vtable.clone_into.is_none() { Must::Err } else if fresh { Must::Ok } else { Must::Either };
                go!((dd.peek)(w, &v), must, "put_peek", { self.top().n.st = St::Whole(v) }) }
            15 => { if dd.shape.vtable.default_in_place.is_none() { return Some(w) } let must = if none { Must::Err } else if dd.dflt.is_some() { if fresh { Must::Ok } else { Must::Either } } else { return Some(w) };
                let v = dd.dflt.map(|f| f()); go!(w.put_from_fn(dd.shape.vtable.default_in_place.unwrap()), must, "put_from_fn", { self.top().n.st = St::Whole(v.expect("default")) }) }
            16 => { let bad = ["", "x", "-", "99999999999999999999999", "1 2"][below(5)]; if dd.shape == String::SHAPE || dd.shape == <Option<String>>::SHAPE { return Some(w) } go!(w.parse(bad), Must::Err, "parsing nonsense", {}) }
            17 => { let st = matches!(dd.kind, Kind::Struct(_)); let ok = st && dd.dflt.is_some() && !none; if st && !ok && dd.shape.vtable.default_in_place.is_some() { return Some(w) }
                let must = if ok { Must::Ok } else { Must::Err };
                go!(w.put_unset_fields_from_default(), must, "put_unset_fields_from_default", { if let Some(Val::St(def)) = dd.dflt.map(|f| f()) { let p = self.top().n.parts().unwrap(); for (n, v) in p.iter_mut().zip(def) { if n.val().is_none() { n.st = St::Whole(v) } } } }) }
            _ => { if self.st.len() == 1 { return Some(w) } go!(w.pop(), Must::Ok, "pop", { self.leave() }) }
        }
    }
    /// an operation that makes progress toward a complete value
    fn guided(&mut self, w: W) -> Option<W> {
        let dd = (self.top().n.d)();
        if self.top().at == At::None_ { return self.step(w, 13) }
        let complete = self.top().n.val().is_some();
        let at = self.top().at;
        match dd.kind {
            Kind::Struct(_) | Kind::Enum(_) if !complete => {
                if let (Kind::Enum(_), St::Empty) = (&dd.kind, &self.top().n.st) { return if below(3) == 0 { self.step(w, 2) } else { let vs = match &dd.kind { Kind::Enum(v) => v.len(), _ => 0 }; let _ = vs; self.step(w, 6) } }
                if !self.top().n.touched() && below(5) == 0 { return self.step(w, 2) }
                let open: Vec<usize> = self.top().n.parts().unwrap().iter().enumerate().filter(|(_, n)| n.val().is_none()).map(|(i, _)| i).collect();
                let i = open[below(open.len())];
                let r = w.field(i); assert!(r.is_ok(), "selecting an existing field"); self.enter(i); r.ok()
            }
            Kind::Leaf if !complete => { let op = if below(6) == 0 && dd.dflt.is_some() { 4 } else if below(6) == 0 && dd.parse { 5 } else { 2 }; self.step(w, op) }
            Kind::Opt(_) if !complete => { let op = [2, 9, 9, 4][below(4)]; self.step(w, op) }
            Kind::List(_) if !complete || (matches!(self.top().n.st, St::Whole(Val::Li(ref l)) if l.len() < 4) && any()) => { let op = if complete { 8 } else { [2, 7, 8, 8][below(4)] }; self.step(w, op) }
            Kind::Map(..) if !complete || (matches!(self.top().n.st, St::Whole(Val::Mp(ref l)) if l.len() < 4) && any()) => { let op = if complete { 11 } else { [2, 7, 11, 11][below(4)] }; self.step(w, op) }
            _ => if at == At::Key { self.step(w, 12) } else { self.step(w, 13) },
        }
    }
    /// runs one history on the type, checking it against the model at every step
    pub fn run(root: fn() -> D, noise: usize, max: usize) {
        TK.with(|t| t.borrow_mut().clear());
        let before = live();
        {
            let mut h = H { st: vec![Fr { n: node(root), at: At::Root }], noise, steps: 0, log: String::new() };
            let mut w = (root().alloc)();
            let mut end = None;
            loop {
                h.agree(&w);
                h.steps += 1;
                if h.steps > max || (noise > 0 && below(40) == 0) { end = Some(w); break }
                if h.st.len() == 1 && h.top().n.val().is_some() && below(6) > 0 { end = Some(w); break }
                let r = if noise > 0 && below(noise) == 0 { let op = below(18); h.step(w, op) } else if h.st.len() == 1 && h.top().n.val().is_some() { h.step(w, 0) } else { h.guided(w) };
                match r { Some(x) => w = x, None => break }
            }
            if let Some(w) = end {
                if below(5) == 0 { drop(w) } else {
                    while h.st.len() > 1 { h.leave() }
                    let mut want = h.top().n.val();
                    if root().shape == Inv::SHAPE { if let Some(Val::St(x)) = &want { if let Val::N(a) = x[0] { if a % 2 == 1 { want = None } } } }
                    let r = w.build();
                    match (r, want) {
                        (Err(e), None) => { let _ = std::format!("{e}"); }
                        (Ok(hv), Some(v)) => {
                            let dd = root();
                            assert!((dd.show)(hv.peek()) == Some(v.clone()), "the finished value differs from what was put in: {}", h.log);
                            match below(4) { 0 => drop(hv), 1 => { let r: Result<u64, _> = hv.materialize::<u64>().map(|_| 0); if dd.shape != u64::SHAPE { assert!(r.is_err(), "taken out as another type") } }
                                _ => { let got = (dd.fin)(hv); assert!(got.as_ref() == Ok(&v), "the finished value differs from what was put in: {got:?} / {v:?}"); } }
                        }
                        (Ok(_), None) => panic!("an incomplete value was built: {}", h.log),
                        (Err(e), Some(_)) => panic!("a complete value was refused: {e} {}", h.log),
                    }
                }
            }
        }
        tk_check();
        TK.with(|t| *t.borrow_mut() = Vec::new());
        assert!(live() <= before, "memory leaked: {} allocations", live() - before);
    }
}
fn roots() -> [fn() -> D; 38] { [d::<Inner>, d::<Deep>, d::<Outer>, d::<Opts>, d::<Lists>, d::<Maps>, d::<WithEnum>, d::<Enums>, d::<E>, d::<F>, d::<Vec<Inner>>, d::<HashMap<String, Inner>>, d::<Option<Inner>>, d::<Tk>, d::<String>, d::<Vec<E>>, d::<Pair>, d::<Same>, d::<Option<Option<Tk>>>, d::<Vec<Vec<Inner>>>, d::<OneDeep>, d::<BTreeMap<String, Tk>>, d::<(Tk, Inner)>, d::<Ts>, d::<Mixed>, d::<Gn<Gn<E>>>, d::<Df>, d::<Inv>, d::<Vec<Df>>, d::<HashMap<u8, Option<Vec<E>>>>, d::<Keyed>, d::<HashMap<Key, Inner>>, d::<BTreeMap<Key, Tk>>, d::<BTreeMap<Key2, u8>>, d::<Zst>, d::<Zs>, d::<Vec<Zst>>, d::<HashMap<u8, Zst>>] }
pub fn any_root() -> fn() -> D { roots()[below(38)] }
crate::native! {
    /// only operations that lead to a complete value
    fn straight() { H::run(any_root(), 0, 200) }
    /// one operation in ten is arbitrary
    fn noisy() { H::run(any_root(), 10, 60) }
    fn wild() { H::run(any_root(), 3, 40) }
    fn enums() { let r = [d::<E> as fn() -> D, d::<F>, d::<WithEnum>, d::<Enums>, d::<Vec<E>>][below(5)]; H::run(r, 6, 60) }
    fn options() { let r = [d::<Opts> as fn() -> D, d::<Option<Inner>>, d::<Option<Option<Tk>>>, d::<Outer>][below(4)]; H::run(r, 6, 60) }
    fn containers() { let r = [d::<Lists> as fn() -> D, d::<Maps>, d::<Vec<Inner>>, d::<Vec<Vec<Inner>>>, d::<HashMap<String, Inner>>, d::<Keyed>, d::<HashMap<Key, Inner>>, d::<Zs>][below(8)]; H::run(r, 6, 60) }
    fn nested() { let r = [d::<Deep> as fn() -> D, d::<Outer>, d::<Pair>, d::<Same>, d::<OneDeep>][below(5)]; H::run(r, 6, 60) }
}
