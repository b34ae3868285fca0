
/// One operation of the builder, from every state that satisfies the invariant of the builder (`any_state`): the
/// operation keeps the invariant (`check`) and does what the model says.  Together with `alloc` establishing it, that
/// covers histories of any length.  Types: a struct of a droppable leaf and a nested struct of two.
pub mod wipk {
use super::*;
use crate::sym::*;
use crate::facet_core::*;
use crate::Facet;
pub static mut MADE: [u8; 6] = [0; 6];
pub static mut DROPPED: [u8; 6] = [0; 6];
#[repr(transparent)]
pub struct Tk(u8);
impl Drop for Tk { fn drop(&mut self) { unsafe { assert!((self.0 as usize) < 6, "dropped something that is no value"); DROPPED[self.0 as usize] += 1; } } }
fn tk(i: u8) -> Tk { unsafe { MADE[i as usize] += 1; } Tk(i) }
unsafe impl Facet for Tk { const SHAPE: &'static Shape = &const { Shape::builder().id(ConstTypeId::of::<Tk>()).layout(core::alloc::Layout::new::<Tk>())
    .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build())).vtable(&const { ValueVTable::builder().type_name(|_, _| Ok(())).drop_in_place(|p| unsafe { p.drop_in_place::<Tk>() }).build() }).build() }; }
#[derive(Facet)]
pub struct Q { x: Tk, y: Tk }
#[derive(Facet)]
pub struct P { a: Tk, n: Q }
type W = Wip<'static>;
#[cfg(kani)] macro_rules! one { ($e:expr) => { crate::avec1![$e] } }
#[cfg(not(kani))] macro_rules! one { ($e:expr) => { ::std::vec![$e] } }

const A: usize = 0; const X: usize = 1; const Y: usize = 2;
/// which frames are open
#[derive(Clone, Copy, PartialEq)]
pub enum Sk { Root, A, N, X, Y }
/// the model: open frames, leaves held, whether the nested struct is recorded complete, which value is in each leaf
#[derive(Clone, Copy)]
pub struct M { sk: Sk, held: [bool; 3], fl_n: bool, id: [u8; 3], root: *mut P }
impl M { fn n_open(&self) -> bool { self.sk == Sk::N || self.sk == Sk::X || self.sk == Sk::Y } fn full(&self) -> bool { self.held[X] && self.held[Y] } fn all(&self) -> bool { self.held[A] && self.full() } }
fn fr(data: *mut u8, shape: &'static Shape, ix: Option<usize>, fields: ISet, depth: usize) -> Frame {
    let mut f = Frame { data: PtrUninit::new(data), shape, field_index_in_parent: ix, istate: IState::new(depth, if ix.is_some() { FrameMode::Field } else { FrameMode::Root }, if ix.is_some() { FrameFlags::EMPTY } else { FrameFlags::ALLOCATED }) };
    f.istate.fields = fields; f
}
fn set(a: bool, b: bool) -> ISet { let mut s = ISet::default(); if a { s.set(0) } if b { s.set(1) } s }
fn at(root: *mut P, l: usize) -> *mut Tk { unsafe { match l { A => &raw mut (*root).a, X => &raw mut (*root).n.x, _ => &raw mut (*root).n.y } } }
fn n_of(root: *mut P) -> *mut u8 { unsafe { &raw mut (*root).n as *mut u8 } }
fn reset() { unsafe { MADE = [0; 6]; DROPPED = [0; 6]; } }
/// any state with these frames open; `pres`: whether the parts that are not open have a state of their own on record
pub fn any_state(sk: Sk, pres: bool) -> (W, M) { state(sk, [pres; 4]) }
pub fn state(sk: Sk, pres: [bool; 4]) -> (W, M) { state_with(sk, pres, [any(), any(), any()]) }
pub fn state_with(sk: Sk, pres: [bool; 4], held: [bool; 3]) -> (W, M) {
    reset();
    let root = P::SHAPE.allocate().as_mut_byte_ptr() as *mut P;
    let m = M { sk, held, fl_n: any(), id: [0, 1, 2], root };
    assume(!m.fl_n || m.full());
    if !m.n_open() { assume(m.fl_n == m.full()); if !pres[1] { assume(m.full() || (!m.held[X] && !m.held[Y])) } }
    for l in 0..3 { if m.held[l] { unsafe { core::ptr::write(at(root, l), tk(l as u8)) } } }
    let mut w: W = Wip { frames: one![fr(root as *mut u8, P::SHAPE, None, set(m.held[A], m.fl_n), 0)], istates: Default::default(), phantom: PhantomData };
    if sk == Sk::A { w.frames.push(fr(at(root, A) as *mut u8, Tk::SHAPE, Some(0), set(m.held[A], false), 1)) }
    else if pres[0] { let f = fr(at(root, A) as *mut u8, Tk::SHAPE, Some(0), set(m.held[A], false), 1); w.istates.insert(f.id(), f.istate); }
    let nf = fr(n_of(root), Q::SHAPE, Some(1), set(m.held[X], m.held[Y]), 1);
    if m.n_open() { w.frames.push(nf) } else if pres[1] { w.istates.insert(nf.id(), nf.istate); }
    for (l, s, k) in [(X, Sk::X, 2), (Y, Sk::Y, 3)] {
        let f = fr(at(root, l) as *mut u8, Tk::SHAPE, Some(l - 1), set(m.held[l], false), 2);
        if sk == s { w.frames.push(f) } else if pres[k] && (m.n_open() || pres[1]) { w.istates.insert(f.id(), f.istate); }
    }
    (w, m)
}
fn same(a: &ISet, x: bool, y: bool) -> bool { a.has(0) == x && a.has(1) == y && !a.has(2) }
fn frame(f: &Frame, data: *mut u8, shape: &'static Shape, ix: Option<usize>, x: bool, y: bool, depth: usize) {
    assert!(f.data.as_byte_ptr() == data as *const u8, "the frame is at the right address");
    assert!(f.shape == shape && f.field_index_in_parent == ix, "the frame is the right field");
    assert!(same(&f.istate.fields, x, y), "the frame's record is exact");
    assert!(f.istate.depth == depth && f.istate.flags.contains(FrameFlags::ALLOCATED) == (depth == 0) && !f.istate.flags.contains(FrameFlags::MOVED) && f.istate.variant.is_none());
    assert!(f.istate.mode == if depth == 0 { FrameMode::Root } else { FrameMode::Field });
}
/// the invariant holds for the model m
pub fn check(w: &W, m: &M) {
    let r = m.root;
    assert!(w.frames.len() == match m.sk { Sk::Root => 1, Sk::A | Sk::N => 2, _ => 3 }, "the frames that are open");
    frame(&w.frames[0], r as *mut u8, P::SHAPE, None, m.held[A], m.fl_n, 0);
    if m.sk == Sk::A { frame(&w.frames[1], at(r, A) as *mut u8, Tk::SHAPE, Some(0), m.held[A], false, 1) }
    if m.n_open() { frame(&w.frames[1], n_of(r), Q::SHAPE, Some(1), m.held[X], m.held[Y], 1); assert!(!m.fl_n || m.full()) } else { assert!(m.fl_n == m.full(), "a complete nested struct is recorded") }
    if m.sk == Sk::X { frame(&w.frames[2], at(r, X) as *mut u8, Tk::SHAPE, Some(0), m.held[X], false, 2) }
    if m.sk == Sk::Y { frame(&w.frames[2], at(r, Y) as *mut u8, Tk::SHAPE, Some(1), m.held[Y], false, 2) }
    // parts that are not open
    let nid = ValueId::new(Q::SHAPE, n_of(r));
    let mut known = 0;
    match w.istates.get(&nid) { Some(i) => { known += 1; assert!(!m.n_open() && same(&i.fields, m.held[X], m.held[Y]) && i.depth == 1 && i.flags.is_empty() && i.variant.is_none(), "the record kept for the nested struct is exact") }
        None => assert!(m.n_open() || m.full() || (!m.held[X] && !m.held[Y]), "a partly filled struct is on record") }
    for (l, s) in [(A, Sk::A), (X, Sk::X), (Y, Sk::Y)] {
        if let Some(i) = w.istates.get(&ValueId::new(Tk::SHAPE, at(r, l) as *const u8)) { known += 1; assert!(m.sk != s && same(&i.fields, m.held[l], false) && i.depth > 0 && i.flags.is_empty(), "the record kept for a field is exact"); assert!(l == A || m.n_open() || w.istates.get(&nid).is_some()) }
    }
    assert!(w.istates.iter().count() == known, "nothing else is on record");
    held(m);
}
/// each leaf that is held has its value, and nothing of them was dropped
fn held(m: &M) { for l in 0..3 { if m.held[l] { unsafe { assert!((*at(m.root, l)).0 == m.id[l], "a field holds what was put in it"); assert!(DROPPED[m.id[l] as usize] == 0, "a value that is held was dropped") } } } }
/// every value that was made was dropped once
pub fn all_dropped() { unsafe { for i in 0..6 { assert!(MADE[i] == DROPPED[i], "each value is dropped exactly once") } } }
/// every value but the ones held was
fn others_dropped(m: &M) { unsafe { for i in 0..6 { let h = (m.held[0] && m.id[0] == i as u8) || (m.held[1] && m.id[1] == i as u8) || (m.held[2] && m.id[2] == i as u8); assert!(MADE[i] == DROPPED[i] + h as u8, "each value that is no longer held is dropped exactly once") } } }
fn keep(w: W) { core::mem::forget(w) }

fn do_build(sk: Sk, pres: bool) { build_from(any_state(sk, pres)) }
fn build_from((w, m): (W, M)) {
    match w.build() {
        Ok(h) => { assert!(m.all(), "a value that is not complete was handed out"); held(&m); match h.materialize::<P>() { Ok(p) => { assert!(p.a.0 == 0 && p.n.x.0 == 1 && p.n.y.0 == 2, "the finished value is what was put in"); } Err(_) => assert!(false) } }
        Err(_) => assert!(!m.all(), "a complete value was refused"),
    }
    all_dropped();
}
fn do_drop(sk: Sk, pres: bool) { let (w, _) = any_state(sk, pres); drop(w); all_dropped(); }
/// put into a leaf that is empty
fn do_put(sk: Sk, l: usize, pres: [bool; 4]) { let mut h = [any(), any(), any()]; h[l] = false; put_with(sk, l, pres, h) }
fn put_with(sk: Sk, l: usize, pres: [bool; 4], h: [bool; 3]) {
    let (w, mut m) = state_with(sk, pres, h);
    match w.put(tk(3)) { Ok(w) => { m.held[l] = true; m.id[l] = 3; check(&w, &m); others_dropped(&m); keep(w) } Err(_) => assert!(false, "putting into an empty field was refused") }
}
/// put into a leaf that is held: refused, everything is dropped once
fn do_put_again(sk: Sk, l: usize, pres: [bool; 4]) {
    let (w, m) = state(sk, pres); assume(m.held[l]);
    match w.put(tk(3)) { Ok(w) => { keep(w); assert!(false, "a field that is set was overwritten") }, Err(_) => all_dropped() }
}
fn do_field(from: Sk, i: usize, to: Sk, pres: bool) {
    let (w, mut m) = any_state(from, pres);
    match w.field(i) { Ok(w) => { m.sk = to; check(&w, &m); others_dropped(&m); keep(w) } Err(_) => assert!(false, "a field that exists was refused") }
}
fn do_pop(from: Sk, to: Sk, pres: bool) {
    let (w, mut m) = any_state(from, pres);
    match w.pop() { Ok(w) => { m.sk = to; if from == Sk::N { m.fl_n = m.full() } check(&w, &m); others_dropped(&m); keep(w) } Err(_) => assert!(false, "leaving a field was refused") }
}
crate::harness! {
    fn r01_alloc(8) { reset(); let w = Wip::alloc::<P>(); let root = w.frames[0].data.as_mut_byte_ptr() as *mut P; let m = M { sk: Sk::Root, held: [false; 3], fl_n: false, id: [0; 3], root }; check(&w, &m); drop(w) }
    fn r01_build_root(8) { build_from(state(Sk::Root, [false, true, false, false])) }
    fn r01_build_n(8) { build_from(state(Sk::N, [false, false, false, false])) }
    fn r01_build_x(8) { build_from(state(Sk::X, [false, false, false, false])) }
    fn t_r01_build_a_false(8) { build_from(state(Sk::A, [false, true, false, false])) }
    fn t_r01_build_root_all(8) { do_build(Sk::Root, true) }
    fn t_r01_build_n_all(8) { do_build(Sk::N, true) }
    fn t_r01_build_x_all(8) { do_build(Sk::X, true) }
    fn t_r01_build_root_whole(8) { do_build(Sk::Root, false) }
    fn t_r01_build_a(8) { do_build(Sk::A, true) }
    fn t_r01_build_y(8) { do_build(Sk::Y, false) }
    fn r01_is_field_set(8) { let (w, m) = any_state(Sk::N, true); assert!(w.is_field_set(0).ok() == Some(m.held[X]) && w.is_field_set(1).ok() == Some(m.held[Y]) && w.is_field_set(2).is_err()); keep(w) }
    fn r01_pop_n(8) { do_pop(Sk::N, Sk::Root, true) }
    fn r01_pop_x(8) { do_pop(Sk::X, Sk::N, true) }
    fn t_r01_pop_y(8) { do_pop(Sk::Y, Sk::N, false) }
    fn t_r01_pop_a(8) { do_pop(Sk::A, Sk::Root, true) }
    fn r02_drop_root(8) { do_drop(Sk::Root, true) }
    fn r02_drop_root_whole(8) { do_drop(Sk::Root, false) }
    fn t_r02_drop_a(8) { do_drop(Sk::A, true) }
    fn r02_drop_n(8) { do_drop(Sk::N, true) }
    fn t_r02_drop_x(8) { do_drop(Sk::X, true) }
    fn t_r02_drop_y(8) { do_drop(Sk::Y, false) }
    fn t_r02_put_whole_n(8) {
        let (w, mut m) = any_state(Sk::N, true);
        match w.put(Q { x: tk(3), y: tk(4) }) {
            Ok(w) => { assert!(!m.fl_n, "a field that is set was overwritten"); m.held[X] = true; m.held[Y] = true; m.fl_n = true; m.id[X] = 3; m.id[Y] = 4; check(&w, &m); others_dropped(&m); keep(w) }
            Err(_) => { assert!(m.fl_n, "putting into a field that is not complete was refused"); all_dropped() }
        }
    }
    fn r02_put_whole_root(8) {
        let (w, mut m) = any_state(Sk::Root, true);
        match w.put(P { a: tk(3), n: Q { x: tk(4), y: tk(5) } }) { Ok(w) => { m.held = [true; 3]; m.fl_n = true; m.id = [3, 4, 5]; check(&w, &m); others_dropped(&m); keep(w) } Err(_) => assert!(false, "putting into the root was refused") }
    }
    fn r02_put_wrong(8) { let (w, m) = any_state(Sk::N, true); match w.put(tk(3)) { Ok(w) => { keep(w); assert!(false, "a value of another type was accepted") }, Err(_) => all_dropped() } }
    fn r03_put_x(8) { put_with(Sk::X, X, [false, false, false, true], [true, false, true]) }
    fn r03_put_y(8) { put_with(Sk::Y, Y, [false; 4], [any(), false, false]) }
    fn r03_put_a(8) { put_with(Sk::A, A, [false, true, false, false], [false, true, true]) }
    fn t_r03_put_x(8) { do_put(Sk::X, X, [false, false, false, true]) }
    fn t_r03_put_a_any(8) { do_put(Sk::A, A, [false, true, false, false]) }
    fn r03_put_again_x(8) { do_put_again(Sk::X, X, [false; 4]) }
    fn t_r03_put_y_all(8) { do_put(Sk::Y, Y, [true; 4]) }
    fn t_r03_put_x_all(8) { do_put(Sk::X, X, [true; 4]) }
    fn t_r03_put_a_all(8) { do_put(Sk::A, A, [true; 4]) }
    fn t_r03_put_again_a(8) { do_put_again(Sk::A, A, [true; 4]) }
    fn t_r03_put_again_x_all(8) { do_put_again(Sk::X, X, [true; 4]) }
    fn r03_field_a(8) { do_field(Sk::Root, 0, Sk::A, true) }
    fn r03_field_n(8) { do_field(Sk::Root, 1, Sk::N, true) }
    fn r03_field_n_whole(8) { do_field(Sk::Root, 1, Sk::N, false) }
    fn r03_field_x(8) { do_field(Sk::N, 0, Sk::X, true) }
    fn t_r03_field_y_whole(8) { do_field(Sk::N, 1, Sk::Y, false) }
    fn t_r03_field_a_whole(8) { do_field(Sk::Root, 0, Sk::A, false) }
    fn t_r03_no_field(8) { let (w, _) = any_state(Sk::N, true); assert!(w.field(2).is_err()); all_dropped() }
    fn r05_variant_first(8) { use en::*; do_variant(state_e(NONE, None, false), 1) }
    fn r05_variant_over_tuple(8) { use en::*; do_variant(state_e(1, None, true), 2) }
    fn r05_variant_over_tuple_whole(8) { use en::*; do_variant(state_held(1, None, false, [true, true]), 0) }
    fn r05_variant_same(8) { use en::*; do_variant(state_e(1, None, false), 1) }
    fn r05_variant_over_struct(8) { use en::*; do_variant(state_e(2, None, true), 1) }
    fn t_r05_variant_over_unit(8) { use en::*; do_variant(state_e(0, None, false), 2) }
    fn r05_field(8) { use en::*; do_field(state_e(1, None, false), 1) }
    fn t_r05_field_again(8) { use en::*; do_field(state_e(1, None, true), 0) }
    fn t_r05_field_struct(8) { use en::*; do_field(state_e(2, None, true), 0) }
    fn r05_no_field(8) { use en::*; do_field(state_e(2, None, false), 1) }
    fn r05_field_none(8) { use en::*; do_field(state_e(NONE, None, false), 0) }
    fn r05_pop(8) { use en::*; do_pop(state_e(1, Some(0), false)) }
    fn t_r05_pop_1(8) { use en::*; do_pop(state_e(1, Some(1), true)) }
    fn r05_put(8) { use en::*; do_put(state_held(1, Some(1), false, [true, false]), 1) }
    fn t_r05_put_any(8) { use en::*; do_put(state_held(1, Some(1), true, [any(), false]), 1) }
    fn r05_put_again(8) { use en::*; do_put(state_held(2, Some(0), false, [true, false]), 0) }
    fn t_r05_put_0(8) { use en::*; do_put(state_e(1, Some(0), true), 0) }
    fn r05_whole(8) { use en::*; do_whole(state_e(1, None, false), 2) }
    fn t_r05_whole_tuple(8) { use en::*; do_whole(state_e(2, None, true), 1) }
    fn t_r05_whole_first(8) { use en::*; do_whole(state_e(NONE, None, false), 1) }
    fn r05_build(8) { use en::*; do_build(state_e(1, None, false)) }
    fn t_r05_build_struct(8) { use en::*; do_build(state_e(2, None, false)) }
    fn r05_build_unit(8) { use en::*; do_build(state_e(0, None, false)) }
    fn r05_build_none(8) { use en::*; do_build(state_e(NONE, None, false)) }
    fn t_r05_build_open(8) { use en::*; do_build(state_e(1, Some(0), false)) }
    fn r05_drop(8) { use en::*; do_drop(state_e(1, None, true)) }
    fn t_r05_drop_open(8) { use en::*; do_drop(state_e(1, Some(1), false)) }
    fn t_r05_drop_struct(8) { use en::*; do_drop(state_e(2, None, false)) }
    fn r05_drop_none(8) { use en::*; do_drop(state_e(NONE, None, false)) }
    fn r02_o_push(8) { use op::*; do_push(state_o(any(), any(), Open::No, false)) }
    fn r02_o_pop(8) { use op::*; do_pop(state_o(true, any(), Open::Some_, true)) }
    fn r03_o_pop_first(8) { use op::*; do_pop(state_o(false, false, Open::Some_, true)) }
    fn r02_o_pop_partial(8) { use op::*; do_pop(state_o(true, any(), Open::Some_, false)) }
    fn r02_o_pop_none(8) { use op::*; do_pop(state_o(true, false, Open::None_, false)) }
    fn t_r02_o_none(8) { use op::*; do_none(state_o(true, any(), Open::Some_, false)) }
    fn t_r03_o_none_first(8) { use op::*; do_none(state_o(false, false, Open::Some_, false)) }
    fn r02_o_none_again(8) { use op::*; do_none(state_o(true, false, Open::None_, false)) }
    fn r02_o_none_late(8) { use op::*; do_none(state_o(true, true, Open::Some_, true)) }
    fn r02_o_put(8) { use op::*; do_put(state_o(true, any(), Open::No, false)) }
    fn r02_o_put_none(8) { use op::*; do_put(state_o(true, false, Open::None_, false)) }
    fn r03_o_put_payload(8) { use op::*; do_put(state_o(true, any(), Open::Some_, false)) }
    fn r02_o_put_payload_again(8) { use op::*; do_put(state_o(true, any(), Open::Some_, true)) }
    fn r02_o_whole(8) { use op::*; do_whole(state_o(true, any(), Open::No, false), any()) }
    fn r02_o_whole_first(8) { use op::*; do_whole(state_o(false, false, Open::No, false), any()) }
    fn r01_o_build(8) { use op::*; do_build(state_o(any(), any(), Open::No, false)) }
    fn r01_o_build_payload(8) { use op::*; do_build(state_o(true, true, Open::Some_, true)) }
    fn r01_o_build_no_payload(8) { use op::*; do_build(state_o(true, true, Open::Some_, false)) }
    fn r01_o_build_first(8) { use op::*; do_build(state_o(false, false, Open::Some_, true)) }
    fn r01_o_build_nothing(8) { use op::*; do_build(state_o(false, false, Open::Some_, false)) }
    fn r01_o_build_none(8) { use op::*; do_build(state_o(true, false, Open::None_, false)) }
    fn r02_o_drop(8) { use op::*; do_drop(state_o(true, any(), Open::Some_, any())) }
    fn r02_o_drop_first(8) { use op::*; do_drop(state_o(false, false, Open::Some_, any())) }
    fn r02_o_drop_none(8) { use op::*; do_drop(state_o(true, false, Open::None_, false)) }
    fn r02_o_drop_root(8) { use op::*; do_drop(state_o(any(), any(), Open::No, false)) }
    fn r03_l_push_first(8) { use li::*; do_push(state_l(false, 0, false, false)) }
    fn r03_l_push(8) { use li::*; do_push(state_l(true, 1, false, false)) }
    fn r03_l_pop_first(8) { use li::*; do_pop(state_l(true, 0, true, true)) }
    fn r03_l_pop(8) { use li::*; do_pop(state_l(true, 2, true, true)) }
    fn r02_l_pop_partial(8) { use li::*; do_pop(state_l(true, 1, true, false)) }
    fn r03_l_begin(8) { use li::*; do_begin(state_l(true, 2, false, false)) }
    fn r03_l_begin_first(8) { use li::*; do_begin(state_l(false, 0, false, false)) }
    fn r02_l_empty(8) { use li::*; do_empty(state_l(true, 2, false, false)) }
    fn r01_l_build(8) { use li::*; do_build(state_l(true, 2, false, false)) }
    fn r01_l_build_first(8) { use li::*; do_build(state_l(false, 0, false, false)) }
    fn r01_l_build_open(8) { use li::*; do_build(state_l(true, 1, true, true)) }
    fn r01_l_build_partial(8) { use li::*; do_build(state_l(true, 1, true, false)) }
    fn r02_l_drop(8) { use li::*; do_drop(state_l(true, 2, true, any())) }
    fn r02_l_drop_root(8) { use li::*; do_drop(state_l(true, 1, false, false)) }
}

/// The same for an enum: any variant (or none) selected, its fields in any state, one of them open or not.
pub mod en {
use super::*;
#[derive(Facet)] #[repr(u16)]
pub enum E { U, T(Tk, Tk) = 300, S { a: Tk } }
const DISC: [u16; 3] = [0, 300, 301];
const LEN: [usize; 3] = [0, 2, 1];
pub const NONE: usize = 3;
fn len(var: usize) -> usize { if var == NONE { 0 } else { LEN[var] } }
#[derive(Clone, Copy)]
pub struct Me { var: usize, open: Option<usize>, held: [bool; 2], id: [u8; 2], root: *mut u8 }
impl Me { fn all(&self) -> bool { self.var != NONE && (len(self.var) < 1 || self.held[0]) && (len(self.var) < 2 || self.held[1]) } }
fn at(root: *mut u8, i: usize) -> *mut Tk { unsafe { root.add(2 + i) as *mut Tk } }
fn variants() -> &'static [Variant] { match E::SHAPE.def { Def::Enum(d) => d.variants, _ => panic!() } }
pub fn state_e(var: usize, open: Option<usize>, pres: bool) -> (W, Me) { state_held(var, open, pres, [any(), any()]) }
/// also a place within a bigger value: `mode` Field keeps the frame's memory from being freed
pub fn state_held(var: usize, open: Option<usize>, pres: bool, mut held: [bool; 2]) -> (W, Me) {
    reset();
    let root = E::SHAPE.allocate().as_mut_byte_ptr();
    if len(var) < 1 { held[0] = false } if len(var) < 2 { held[1] = false }
    let m = Me { var, open, held, id: [0, 1], root };
    if var != NONE { unsafe { core::ptr::write(root as *mut u16, DISC[var]) } }
    for i in 0..len(var) { if held[i] { unsafe { core::ptr::write(at(root, i), tk(i as u8)) } } }
    let mut f = fr(root, E::SHAPE, None, set(held[0], held[1]), 0);
    if var != NONE { f.istate.variant = Some(variants()[var]) }
    let mut w: W = Wip { frames: one![f], istates: Default::default(), phantom: PhantomData };
    for i in 0..len(var) {
        let f = fr(at(root, i) as *mut u8, Tk::SHAPE, Some(i), set(held[i], false), 1);
        if open == Some(i) { w.frames.push(f) } else if pres { w.istates.insert(f.id(), f.istate); }
    }
    (w, m)
}
pub fn check_e(w: &W, m: &Me) {
    assert!(w.frames.len() == if m.open.is_some() { 2 } else { 1 }, "the frames that are open");
    let f = &w.frames[0];
    assert!(f.data.as_byte_ptr() == m.root as *const u8 && f.shape == E::SHAPE && f.field_index_in_parent.is_none());
    assert!(same(&f.istate.fields, m.held[0], m.held[1]), "the record of the enum is exact");
    assert!(f.istate.depth == 0 && f.istate.flags.contains(FrameFlags::ALLOCATED) && !f.istate.flags.contains(FrameFlags::MOVED) && f.istate.mode == FrameMode::Root);
    match &f.istate.variant { None => assert!(m.var == NONE, "a variant is selected"), Some(v) => {
        assert!(m.var != NONE && v.discriminant == DISC[m.var] as i64 && v.data.fields.len() == LEN[m.var], "the variant that was selected");
        assert!(unsafe { *(m.root as *const u16) } == DISC[m.var], "the discriminant in memory is that of the variant"); } }
    if let Some(i) = m.open { frame(&w.frames[1], at(m.root, i) as *mut u8, Tk::SHAPE, Some(i), m.held[i], false, 1) }
    let mut known = 0;
    for i in 0..2 { if let Some(s) = w.istates.get(&ValueId::new(Tk::SHAPE, at(m.root, i) as *const u8)) { known += 1; assert!(i < len(m.var) && m.open != Some(i) && same(&s.fields, m.held[i], false) && s.depth > 0 && s.flags.is_empty(), "the record kept for a field is exact"); } }
    assert!(w.istates.iter().count() == known, "nothing else is on record");
    for i in 0..2 { if m.held[i] { unsafe { assert!((*at(m.root, i)).0 == m.id[i], "a field holds what was put in it"); } } }
    unsafe { for k in 0..6 { let h = (m.held[0] && m.id[0] == k as u8) || (m.held[1] && m.id[1] == k as u8); assert!(MADE[k] == DROPPED[k] + h as u8, "each value that is no longer held is dropped exactly once, the others are not") } }
}
pub fn do_variant((w, mut m): (W, Me), k: usize) { match w.variant(k) { Ok(w) => { m.var = k; m.held = [false; 2]; check_e(&w, &m); keep(w) } Err(_) => assert!(false, "a variant that exists was refused") } }
pub fn do_field((w, mut m): (W, Me), i: usize) { match w.field(i) { Ok(w) => { assert!(i < len(m.var), "a field that does not exist"); m.open = Some(i); check_e(&w, &m); keep(w) } Err(_) => { assert!(i >= len(m.var), "a field that exists was refused"); all_dropped() } } }
pub fn do_pop((w, mut m): (W, Me)) { match w.pop() { Ok(w) => { m.open = None; check_e(&w, &m); keep(w) } Err(_) => assert!(false, "leaving a field was refused") } }
pub fn do_put((w, mut m): (W, Me), i: usize) { match w.put(tk(3)) { Ok(w) => { assert!(!m.held[i]); m.held[i] = true; m.id[i] = 3; check_e(&w, &m); keep(w) } Err(_) => { assert!(m.held[i], "putting into an empty field was refused"); all_dropped() } } }
fn value(k: usize) -> E { match k { 0 => E::U, 1 => E::T(tk(3), tk(4)), _ => E::S { a: tk(3) } } }
pub fn do_whole((w, mut m): (W, Me), k: usize) { match w.put(value(k)) { Ok(w) => { m.var = k; m.held = [len(k) > 0, len(k) > 1]; m.id = [3, 4]; check_e(&w, &m); keep(w) } Err(_) => assert!(false, "putting into the root was refused") } }
pub fn do_build((w, m): (W, Me)) {
    match w.build() {
        Ok(h) => { assert!(m.all(), "a value that is not complete was handed out"); match h.materialize::<E>() { Ok(v) => { match &v { E::U => assert!(m.var == 0), E::T(a, b) => assert!(m.var == 1 && a.0 == 0 && b.0 == 1), E::S { a } => assert!(m.var == 2 && a.0 == 0) } } Err(_) => assert!(false) } }
        Err(_) => assert!(!m.all(), "a complete value was refused"),
    }
    all_dropped();
}
pub fn do_drop((w, _): (W, Me)) { drop(w); all_dropped() }
}

/// The same for an option: set or not, to some value or to none, with the frame of a payload or of none open or not.
pub mod op {
use super::*;
type O = Option<Tk>;
#[derive(Clone, Copy, PartialEq)] pub enum Open { No, Some_, None_ }
/// `has`: set; `some`: the id of the payload; `new`: whether the open payload frame holds a value (3)
#[derive(Clone, Copy)] pub struct Mo { has: bool, some: Option<u8>, open: Open, new: bool, root: *mut u8 }
pub fn state_o(has: bool, some: bool, open: Open, new: bool) -> (W, Mo) {
    reset();
    let root = O::SHAPE.allocate().as_mut_byte_ptr();
    if has { unsafe { core::ptr::write(root as *mut O, if some { Some(tk(0)) } else { None }) } }
    let mut w: W = Wip { frames: one![fr(root, O::SHAPE, None, set(has, false), 0)], istates: Default::default(), phantom: PhantomData };
    match open { Open::No => {},
        Open::Some_ => { let p = Tk::SHAPE.allocate().as_mut_byte_ptr(); if new { unsafe { core::ptr::write(p as *mut Tk, tk(3)) } } let mut f = Frame { data: PtrUninit::new(p), shape: Tk::SHAPE, field_index_in_parent: None, istate: IState::new(1, FrameMode::OptionSome, FrameFlags::ALLOCATED) }; f.istate.fields = set(new, false); w.frames.push(f) }
        Open::None_ => { let mut f = Frame { data: PtrUninit::new(root), shape: Tk::SHAPE, field_index_in_parent: Some(0), istate: IState::new(1, FrameMode::OptionNone, FrameFlags::EMPTY) }; f.istate.fields = set(true, false); w.frames.push(f) } }
    (w, Mo { has, some: if has && some { Some(0) } else { None }, open, new, root })
}
pub fn check_o(w: &W, m: &Mo) {
    assert!(w.frames.len() == if m.open == Open::No { 1 } else { 2 }, "the frames that are open");
    let f = &w.frames[0];
    assert!(f.data.as_byte_ptr() == m.root as *const u8 && f.shape == O::SHAPE && f.istate.flags == FrameFlags::ALLOCATED && f.istate.mode == FrameMode::Root && same(&f.istate.fields, m.has, false), "the option's record is exact");
    if m.has { match unsafe { &*(m.root as *const O) } { Some(t) => assert!(m.some == Some(t.0), "the option holds what was put in it"), None => assert!(m.some.is_none(), "the option holds what was put in it") } }
    if m.open != Open::No { let f = &w.frames[1]; assert!(f.shape == Tk::SHAPE && f.istate.depth == 1 && f.istate.variant.is_none());
        if m.open == Open::None_ { assert!(m.has && m.some.is_none() && f.istate.mode == FrameMode::OptionNone && f.istate.flags.is_empty() && f.istate.fields.has(0)) }
        else { assert!(f.istate.mode == FrameMode::OptionSome && f.istate.flags == FrameFlags::ALLOCATED && f.field_index_in_parent.is_none() && same(&f.istate.fields, m.new, false)); if m.new { assert!(unsafe { (*(f.data.as_byte_ptr() as *const Tk)).0 } == 3) } } }
    unsafe { for k in 0..6 { let h = (m.has && m.some == Some(k as u8)) || (m.open == Open::Some_ && m.new && k == 3); assert!(MADE[k] == DROPPED[k] + h as u8, "each value that is no longer held is dropped exactly once, the others are not") } }
}
fn none_left(w: &W) { assert!(w.istates.iter().count() == 0, "nothing else is on record") }
pub fn do_push((w, mut m): (W, Mo)) { match w.push_some() { Ok(w) => { m.open = Open::Some_; m.new = false; check_o(&w, &m); none_left(&w); keep(w) } Err(_) => assert!(false, "opening the payload was refused") } }
pub fn do_pop((w, mut m): (W, Mo)) { match w.pop() { Ok(w) => { if m.open == Open::Some_ && m.new { m.has = true; m.some = Some(3); } let partial = m.open == Open::Some_ && !m.new; m.open = Open::No; check_o(&w, &m); if !partial { none_left(&w) } keep(w) } Err(_) => assert!(false, "leaving the payload was refused") } }
pub fn do_none((w, mut m): (W, Mo)) { match w.pop_some_push_none() { Ok(w) => { assert!(m.open == Open::Some_ && !m.new); m.has = true; m.some = None; m.open = Open::None_; check_o(&w, &m); none_left(&w); keep(w) } Err(_) => { assert!(m.open != Open::Some_ || m.new, "none was refused"); all_dropped() } } }
pub fn do_put((w, mut m): (W, Mo)) { match w.put(tk(3)) { Ok(w) => { if m.open == Open::Some_ { m.new = true } else { assert!(m.open == Open::No, "a value was put into none"); m.has = true; m.some = Some(3) } check_o(&w, &m); keep(w) } Err(_) => { assert!(m.open == Open::None_, "putting a payload was refused"); all_dropped() } } }
pub fn do_whole((w, mut m): (W, Mo), some: bool) { match w.put(if some { Some(tk(4)) } else { None }) { Ok(w) => { m.has = true; m.some = if some { Some(4) } else { None }; check_o(&w, &m); none_left(&w); keep(w) } Err(_) => assert!(false, "putting an option was refused") } }
pub fn do_build((w, mut m): (W, Mo)) {
    if m.open == Open::Some_ && m.new { m.has = true; m.some = Some(3) }
    match w.build() { Ok(h) => { assert!(m.has, "a value that is not complete was handed out"); match h.materialize::<O>() { Ok(Some(t)) => assert!(m.some == Some(t.0), "the finished value is what was put in"), Ok(None) => assert!(m.some.is_none(), "the finished value is what was put in"), Err(_) => assert!(false) } } Err(_) => assert!(!m.has, "a complete value was refused") }
    all_dropped();
}
pub fn do_drop((w, _): (W, Mo)) { drop(w); all_dropped() }
}

/// The same for a list of up to two elements, with an element open or not.
pub mod li {
use super::*;
type L = crate::alloc::vec::Vec<Tk>;
#[derive(Clone, Copy)] pub struct Ml { has: bool, n: usize, ids: [u8; 3], open: bool, new: bool, root: *mut u8 }
pub fn state_l(has: bool, n: usize, open: bool, new: bool) -> (W, Ml) {
    reset();
    let root = L::SHAPE.allocate().as_mut_byte_ptr();
    if has { let mut v = L::new(); for i in 0..n { v.push(tk(i as u8)) } unsafe { core::ptr::write(root as *mut L, v) } }
    let mut w: W = Wip { frames: one![fr(root, L::SHAPE, None, set(has, false), 0)], istates: Default::default(), phantom: PhantomData };
    if open { let p = Tk::SHAPE.allocate().as_mut_byte_ptr(); if new { unsafe { core::ptr::write(p as *mut Tk, tk(3)) } } let mut f = Frame { data: PtrUninit::new(p), shape: Tk::SHAPE, field_index_in_parent: None, istate: IState::new(1, FrameMode::ListElement, FrameFlags::ALLOCATED) }; f.istate.fields = set(new, false); w.frames.push(f) }
    (w, Ml { has, n, ids: [0, 1, 2], open, new, root })
}
pub fn check_l(w: &W, m: &Ml) {
    assert!(w.frames.len() == if m.open { 2 } else { 1 }, "the frames that are open");
    let f = &w.frames[0];
    assert!(f.data.as_byte_ptr() == m.root as *const u8 && f.shape == L::SHAPE && f.istate.flags == FrameFlags::ALLOCATED && f.istate.mode == FrameMode::Root && same(&f.istate.fields, m.has, false), "the list's record is exact");
    if m.has { let v = unsafe { &*(m.root as *const L) }; assert!(v.len() == m.n, "the list has the elements that were pushed"); for i in 0..m.n { assert!(v[i].0 == m.ids[i], "the elements in order") } }
    if m.open { let f = &w.frames[1]; assert!(f.shape == Tk::SHAPE && f.istate.depth == 1 && f.istate.mode == FrameMode::ListElement && f.istate.flags == FrameFlags::ALLOCATED && same(&f.istate.fields, m.new, false)); if m.new { assert!(unsafe { (*(f.data.as_byte_ptr() as *const Tk)).0 } == 3) } }
    unsafe { for k in 0..6 { let h = (m.has && m.ids[..m.n].contains(&(k as u8))) || (m.open && m.new && k == 3); assert!(MADE[k] == DROPPED[k] + h as u8, "each value that is no longer held is dropped exactly once, the others are not") } }
}
pub fn do_push((w, mut m): (W, Ml)) { match w.push() { Ok(w) => { m.has = true; m.open = true; m.new = false; check_l(&w, &m); keep(w) } Err(_) => assert!(false, "pushing was refused") } }
pub fn do_pop((w, mut m): (W, Ml)) { match w.pop() { Ok(w) => { if m.new { m.ids[m.n] = 3; m.n += 1; } m.open = false; check_l(&w, &m); keep(w) } Err(_) => assert!(false, "leaving the element was refused") } }
pub fn do_begin((w, mut m): (W, Ml)) { match w.begin_pushback() { Ok(w) => { m.has = true; check_l(&w, &m); keep(w) } Err(_) => assert!(false) } }
pub fn do_empty((w, mut m): (W, Ml)) { match w.put_empty_list() { Ok(w) => { m.has = true; m.n = 0; check_l(&w, &m); keep(w) } Err(_) => assert!(false) } }
pub fn do_build((w, mut m): (W, Ml)) {
    if m.open && m.new { m.ids[m.n] = 3; m.n += 1 }
    match w.build() { Ok(h) => { assert!(m.has, "a value that is not complete was handed out"); match h.materialize::<L>() { Ok(v) => { assert!(v.len() == m.n, "the finished value is what was put in"); for i in 0..m.n { assert!(v[i].0 == m.ids[i], "the finished value is what was put in") } } Err(_) => assert!(false) } } Err(_) => assert!(!m.has, "a complete value was refused") }
    all_dropped();
}
pub fn do_drop((w, _): (W, Ml)) { drop(w); all_dropped() }
}
}
