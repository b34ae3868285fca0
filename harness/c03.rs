use crate::sym::*;
use crate::facet_core::*;
use crate::ops::*;
use crate::alloc;
use alloc::vec::Vec;
use alloc::sync::{Arc, Weak};
use core::mem::{MaybeUninit, forget};

/// Contracts of the container tables, on the real containers.  `Dc` counts its drops.
#[derive(crate::Facet)]
pub struct Dc { v: u32 }
static mut DROPS: [u32; 4] = [0; 4];
impl Drop for Dc { fn drop(&mut self) { unsafe { DROPS[(self.v % 4) as usize] += 1 } } }
fn drops(k: u32) -> u32 { unsafe { DROPS[(k % 4) as usize] } }
fn reset() { unsafe { DROPS = [0; 4] } }

fn list<T: Facet>() -> ListDef { match T::SHAPE.def { Def::List(l) => l, _ => panic!("list") } }
fn optn<T: Facet>() -> OptionDef { match T::SHAPE.def { Def::Option(l) => l, _ => panic!("option") } }
fn arr<T: Facet>() -> ArrayDef { match T::SHAPE.def { Def::Array(l) => l, _ => panic!("array") } }
fn slc<T: Facet>() -> SliceDef { match T::SHAPE.def { Def::Slice(l) => l, _ => panic!("slice") } }
fn mapd<T: Facet>() -> MapDef { match T::SHAPE.def { Def::Map(l) => l, _ => panic!("map") } }
fn sp<T: Facet>() -> SmartPointerDef { match T::SHAPE.def { Def::SmartPointer(l) => l, _ => panic!("smart pointer") } }
fn is<T: Facet>(s: &'static Shape) -> bool { s.id == ConstTypeId::of::<T>() }
/// moves x behind a type-erased pointer for the table, which takes it over
fn give<T, R>(x: T, f: impl FnOnce(PtrMut<'_>) -> R) -> R { let mut x = MaybeUninit::new(x); f(PtrMut::new(x.as_mut_ptr())) }

macro_rules! list_push { ($t:ty, $n:literal, $cap:expr) => {{
    let l = list::<Vec<$t>>();
    assert!(is::<$t>(l.t()));
    let xs: [$t; $n] = any();
    let mut m = MaybeUninit::<Vec<$t>>::uninit();
    let mp = m.as_mut_ptr();
    unsafe {
        let q = (l.vtable.init_in_place_with_capacity.unwrap())(PtrUninit::new(mp), $cap);
        assert!(q.as_byte_ptr() == mp as *const u8);
        assert!((l.vtable.len)(PtrConst::new(mp as *const Vec<$t>)) == 0, "a new list is empty");
        let mut i = 0;
        while i < $n { give(xs[i], |p| (l.vtable.push)(PtrMut::new(mp), p)); i += 1; assert!((l.vtable.len)(PtrConst::new(mp as *const Vec<$t>)) == i, "push adds one"); }
        let v: &Vec<$t> = &*mp;
        assert!(v.len() == $n, "push appends");
        let mut i = 0;
        while i < $n {
            assert!(v[i] == xs[i], "push appends at the end");
            let ip = (l.vtable.get_item_ptr)(PtrConst::new(mp as *const Vec<$t>), i);
            assert!(ip.as_byte_ptr() == &v[i] as *const $t as *const u8, "item access addresses the item");
            i += 1;
        }
        assert!(refl_drop(core::ptr::read(mp)), "drop");
    }
}} }
macro_rules! array_item { ($t:ty, $n:literal) => {{
    let a: [$t; $n] = any(); let i = below($n);
    let d = arr::<[$t; $n]>();
    assert!(is::<$t>(d.t()) && d.n == $n);
    let ip = unsafe { (d.vtable.get_item_ptr)(p(&a), i) };
    assert!(ip.as_byte_ptr() == &a[i] as *const $t as *const u8, "item i of an array");
    assert!(unsafe { *ip.get::<$t>() } == a[i]);
}} }
macro_rules! slice_item { ($t:ty, $n:literal) => {{
    let a: [$t; $n] = any(); let k = below($n + 1);
    let s: &'static [$t] = unsafe { core::mem::transmute(&a[..k]) };
    let d = slc::<&'static [$t]>();
    assert!(is::<$t>(d.t()));
    assert!(unsafe { (d.vtable.len)(p(&s)) } == k, "slice length");
    if k > 0 { let i = below($n); assume(i < k); let ip = unsafe { (d.vtable.get_item_ptr)(p(&s), i) }; assert!(ip.as_byte_ptr() == &s[i] as *const $t as *const u8, "item i of a slice"); }
}} }
macro_rules! option_table { ($t:ty) => {{
    let d = optn::<Option<$t>>();
    assert!(is::<$t>(d.t()));
    let (o, x): (Option<$t>, $t) = (any(), any());
    let mut m = MaybeUninit::new(o);
    let mp = m.as_mut_ptr();
    unsafe {
        assert!((d.vtable.is_some_fn)(PtrConst::new(mp as *const Option<$t>)) == o.is_some(), "is_some");
        match (d.vtable.get_value_fn)(PtrConst::new(mp as *const Option<$t>)) {
            None => assert!(o.is_none(), "get_value"),
            Some(v) => { assert!(Some(*v.get::<$t>()) == o, "get_value"); assert!(v.as_byte_ptr() == (*mp).as_ref().unwrap() as *const $t as *const u8, "get_value points into the option") }
        }
        if any() { (d.vtable.replace_with_fn)(PtrMut::new(mp), Some(p(&x))); assert!(*mp == Some(x), "replace_with some"); }
        else { (d.vtable.replace_with_fn)(PtrMut::new(mp), None); assert!(*mp == None, "replace_with none"); }
        let mut n = MaybeUninit::<Option<$t>>::uninit();
        let np = n.as_mut_ptr();
        let q = (d.vtable.init_some_fn)(PtrUninit::new(np), p(&x));
        assert!(q.as_byte_ptr() == np as *const u8);
        assert!(*np == Some(x), "init_some");
        let mut n = MaybeUninit::<Option<$t>>::uninit();
        let np = n.as_mut_ptr();
        let q = (d.vtable.init_none_fn)(PtrUninit::new(np));
        assert!(q.as_byte_ptr() == np as *const u8);
        assert!(*np == None, "init_none");
    }
}} }

crate::harness! {
    fn list_u32_0(12) { list_push!(u32, 2, 0) }
    fn list_u8_3(12) { list_push!(u8, 3, 3) }
    fn list_u64_1(12) { list_push!(u64, 1, 1) }
    fn list_bool_2(12) { list_push!(bool, 2, 2) }
    fn list_arr(12) { list_push!([u8; 3], 2, 2) }
    /// pushed elements are owned by the list: each dropped exactly once
    fn list_drops(12) {
        reset();
        let l = list::<Vec<Dc>>();
        let mut m = MaybeUninit::<Vec<Dc>>::uninit(); let mp = m.as_mut_ptr();
        unsafe {
            (l.vtable.init_in_place_with_capacity.unwrap())(PtrUninit::new(mp), 2);
            give(Dc { v: 0 }, |p| (l.vtable.push)(PtrMut::new(mp), p));
            give(Dc { v: 1 }, |p| (l.vtable.push)(PtrMut::new(mp), p));
            assert!(drops(0) == 0 && drops(1) == 0, "push moves");
            (vt::<Vec<Dc>>().drop_in_place.unwrap())(PtrMut::new(mp));
        }
        assert!(drops(0) == 1 && drops(1) == 1, "dropped exactly once");
    }
    fn array_u8(4) { array_item!(u8, 5) }
    fn array_u32(4) { array_item!(u32, 3) }
    fn array_u128(4) { array_item!(u128, 2) }
    fn array_pair(4) { array_item!((u8, u32), 3) }
    fn slice_u8(4) { slice_item!(u8, 5) }
    fn slice_u32(4) { slice_item!(u32, 3) }
    fn slice_pair(4) { slice_item!((u8, u32), 3) }
    fn option_u32(4) { option_table!(u32) }
    fn option_bool(4) { option_table!(bool) }
    fn option_u64(4) { option_table!(u64) }
    fn option_nested(4) { option_table!(Option<u16>) }
    fn option_pair(4) { option_table!((u8, u32)) }
    fn option_drops(4) {
        let d = optn::<Option<Dc>>();
        // what is replaced is dropped once, what is stored is not dropped until the option is
        let had: bool = any(); let store: bool = any();
        reset();
        let mut m = MaybeUninit::new(if had { Some(Dc { v: 0 }) } else { None }); let mp = m.as_mut_ptr();
        unsafe {
            if store { give(Dc { v: 1 }, |p| (d.vtable.replace_with_fn)(PtrMut::new(mp), Some(p.as_const()))); }
            else { (d.vtable.replace_with_fn)(PtrMut::new(mp), None); }
            assert!(drops(0) == had as u32, "the replaced value is dropped exactly once");
            assert!(drops(1) == 0, "the stored value is kept");
            assert!((*mp).is_some() == store);
            (vt::<Option<Dc>>().drop_in_place.unwrap())(PtrMut::new(mp));
            assert!(drops(0) == had as u32 && drops(1) == store as u32, "dropped exactly once");
            let mut n = MaybeUninit::<Option<Dc>>::uninit(); let np = n.as_mut_ptr();
            give(Dc { v: 2 }, |p| (d.vtable.init_some_fn)(PtrUninit::new(np), p.as_const()));
            assert!(drops(2) == 0, "init_some moves");
            (vt::<Option<Dc>>().drop_in_place.unwrap())(PtrMut::new(np));
            assert!(drops(2) == 1);
            (d.vtable.init_none_fn)(PtrUninit::new(np));
            (vt::<Option<Dc>>().drop_in_place.unwrap())(PtrMut::new(np));
            assert!(drops(2) == 1, "init_none drops nothing");
        }
    }
    fn arc_table(4) {
        let x: u32 = any();
        let d = sp::<Arc<u32>>();
        assert!(d.known == Some(KnownSmartPointer::Arc) && is::<u32>(d.pointee.unwrap()) && is::<Weak<u32>>((d.weak.unwrap())()));
        assert!(d.flags == SmartPointerFlags::ATOMIC);
        let mut m = MaybeUninit::<Arc<u32>>::uninit(); let mp = m.as_mut_ptr();
        unsafe {
            let q = (d.vtable.new_into_fn.unwrap())(PtrUninit::new(mp), p(&x));
            assert!(q.as_byte_ptr() == mp as *const u8);
            assert!(**mp == x, "new_into holds the value");
            let b = (d.vtable.borrow_fn.unwrap())(PtrConst::new(mp as *const Arc<u32>));
            assert!(b.as_byte_ptr() == Arc::as_ptr(&*mp) as *const u8, "borrow addresses the value");
            let mut w = MaybeUninit::<Weak<u32>>::uninit(); let wp = w.as_mut_ptr();
            (d.vtable.downgrade_into_fn.unwrap())(PtrMut::new(mp), PtrUninit::new(wp));
            assert!(Arc::strong_count(&*mp) == 1 && Arc::weak_count(&*mp) == 1, "downgrade adds a weak count");
            let wd = sp::<Weak<u32>>();
            assert!(wd.known == Some(KnownSmartPointer::ArcWeak) && is::<Arc<u32>>((wd.strong.unwrap())()) && wd.flags == SmartPointerFlags::ATOMIC.union(SmartPointerFlags::WEAK));
            let mut s = MaybeUninit::<Arc<u32>>::uninit(); let s2 = s.as_mut_ptr();
            let r = (wd.vtable.upgrade_into_fn.unwrap())(PtrMut::new(wp), PtrUninit::new(s2));
            assert!(r.is_some(), "upgrade of a live pointer");
            assert!(Arc::ptr_eq(&*mp, &*s2) && Arc::strong_count(&*mp) == 2, "upgrade shares ownership");
            (vt::<Arc<u32>>().drop_in_place.unwrap())(PtrMut::new(s2));
            assert!(Arc::strong_count(&*mp) == 1);
            (vt::<Arc<u32>>().drop_in_place.unwrap())(PtrMut::new(mp));
            let r = (wd.vtable.upgrade_into_fn.unwrap())(PtrMut::new(wp), PtrUninit::new(s2));
            assert!(r.is_none(), "upgrade of a dead pointer");
            (vt::<Weak<u32>>().drop_in_place.unwrap())(PtrMut::new(wp));
        }
    }
    fn arc_drops(4) {
        reset();
        let d = sp::<Arc<Dc>>();
        let mut m = MaybeUninit::<Arc<Dc>>::uninit(); let mp = m.as_mut_ptr();
        unsafe {
            give(Dc { v: 0 }, |p| (d.vtable.new_into_fn.unwrap())(PtrUninit::new(mp), p.as_const()));
            let c = refl_clone(&*mp).unwrap();
            assert!(Arc::strong_count(&c) == 2 && Arc::ptr_eq(&c, &*mp), "clone shares");
            (vt::<Arc<Dc>>().drop_in_place.unwrap())(PtrMut::new(mp));
            assert!(drops(0) == 0, "one owner left");
            drop(c);
            assert!(drops(0) == 1, "dropped with the last owner");
        }
    }
    fn nonnull_table(4) {
        let mut x: u32 = any();
        let d = sp::<core::ptr::NonNull<u32>>();
        assert!(d.known == Some(KnownSmartPointer::NonNull) && is::<u32>(d.pointee.unwrap()));
        let raw: *mut u32 = &mut x;
        let mut m = MaybeUninit::<core::ptr::NonNull<u32>>::uninit(); let mp = m.as_mut_ptr();
        unsafe {
            (d.vtable.new_into_fn.unwrap())(PtrUninit::new(mp), p(&raw));
            assert!((*mp).as_ptr() == raw);
            assert!((d.vtable.borrow_fn.unwrap())(PtrConst::new(mp as *const core::ptr::NonNull<u32>)).as_byte_ptr() == raw as *const u8);
        }
    }
}

#[cfg(not(kani))]
fn map_history<M: Facet, K: Facet + Clone + Ord + std::fmt::Debug, V: Facet + Clone + PartialEq + std::fmt::Debug>(mk: impl Fn() -> K, mv: impl Fn() -> V, peek: impl Fn(&M) -> Vec<(K, V)>) {
    use std::collections::BTreeMap;
    let d = mapd::<M>();
    assert!(is::<K>(d.k) && is::<V>(d.v));
    let l = live();
    {
        let mut model: BTreeMap<K, V> = BTreeMap::new();
        let mut m = MaybeUninit::<M>::uninit(); let mp = m.as_mut_ptr();
        let q = unsafe { (d.vtable.init_in_place_with_capacity_fn)(PtrUninit::new(mp), below(5)) };
        assert!(q.as_byte_ptr() == mp as *const u8);
        let mc = || PtrConst::new(mp as *const M);
        for _ in 0..below(12) {
            let k = mk(); let v = mv();
            model.insert(k.clone(), v.clone());
            give(k, |kp| give(v, |vp| unsafe { (d.vtable.insert_fn)(PtrMut::new(mp), kp, vp) }));
            assert!(unsafe { (d.vtable.len_fn)(mc()) } == model.len(), "len");
            let q = mk();
            assert!(unsafe { (d.vtable.contains_key_fn)(mc(), p(&q)) } == model.contains_key(&q), "contains_key");
            let g = unsafe { (d.vtable.get_value_ptr_fn)(mc(), p(&q)) };
            assert!(g.map(|g| unsafe { g.get::<V>() }) == model.get(&q), "get_value_ptr");
        }
        let mut seen = Vec::new();
        unsafe {
            let it = (d.vtable.iter_fn)(mc());
            let stop = below(20);
            while let Some((k, v)) = (d.vtable.iter_vtable.next)(it) { seen.push((k.get::<K>().clone(), v.get::<V>().clone())); if seen.len() == stop { break } }
            let full = seen.len() != stop || stop == 0;
            if full || seen.len() == model.len() { seen.sort_by(|a, b| a.0.cmp(&b.0)); assert!(seen == model.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), "iteration yields exactly the entries"); }
            (d.vtable.iter_vtable.dealloc)(it);
        }
        let mut real = peek(unsafe { &*mp });
        real.sort_by(|a, b| a.0.cmp(&b.0));
        assert!(real == model.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), "the real map holds the model's entries");
        drop(real);
        unsafe { (vt::<M>().drop_in_place.unwrap())(PtrMut::new(mp)) };
    }
    assert!(live() == l, "every entry dropped exactly once");
}
#[cfg(not(kani))]
fn list_history<T: Facet + Clone + PartialEq>(mk: impl Fn() -> T) {
    let l = live();
    {
        let d = list::<Vec<T>>();
        let mut model: Vec<T> = Vec::new();
        let mut m = MaybeUninit::<Vec<T>>::uninit(); let mp = m.as_mut_ptr();
        let cap = below(6);
        unsafe {
            (d.vtable.init_in_place_with_capacity.unwrap())(PtrUninit::new(mp), cap);
            assert!((*mp).capacity() >= cap, "capacity");
            for _ in 0..below(20) {
                let x = mk(); model.push(x.clone());
                give(x, |p| (d.vtable.push)(PtrMut::new(mp), p));
                assert!((d.vtable.len)(PtrConst::new(mp as *const Vec<T>)) == model.len());
                let i = below(model.len());
                assert!(*(d.vtable.get_item_ptr)(PtrConst::new(mp as *const Vec<T>), i).get::<T>() == model[i], "item access");
            }
            assert!(*mp == model, "push appends");
            (vt::<Vec<T>>().drop_in_place.unwrap())(PtrMut::new(mp));
        }
    }
    assert!(live() == l, "leak");
}
#[cfg(not(kani))]
fn oob(f: impl FnOnce()) { assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err(), "out-of-bounds access is refused"); }
crate::native! {
    fn n_list() { list_history::<u8>(any); list_history::<u64>(any); list_history::<(u8, u32)>(any); list_history::<String>(|| any_string(3)); list_history::<Vec<String>>(|| vec![any_string(2)]); list_history::<Option<String>>(|| if any() { Some(any_string(2)) } else { None }) }
    fn n_hashmap() {
        use std::collections::*;
        map_history::<HashMap<u8, u32>, u8, u32>(|| any::<u8>() % 8, any, |m| m.iter().map(|(k, v)| (*k, *v)).collect());
        map_history::<HashMap<String, String>, String, String>(|| any_string(1), || any_string(2), |m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    }
    fn n_btreemap() {
        use std::collections::*;
        map_history::<BTreeMap<u8, u32>, u8, u32>(|| any::<u8>() % 8, any, |m| m.iter().map(|(k, v)| (*k, *v)).collect());
        map_history::<BTreeMap<String, Vec<u8>>, String, Vec<u8>>(|| any_string(1), || any_bytes(2), |m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
        // iteration in key order, as the real map iterates
        let mut m: BTreeMap<u8, u8> = BTreeMap::new(); for _ in 0..below(8) { m.insert(any(), any()); }
        let d = mapd::<BTreeMap<u8, u8>>();
        unsafe { let it = (d.vtable.iter_fn)(p(&m)); for (k, v) in &m { let (a, b) = (d.vtable.iter_vtable.next)(it).unwrap(); assert!(*a.get::<u8>() == *k && *b.get::<u8>() == *v); } assert!((d.vtable.iter_vtable.next)(it).is_none()); assert!((d.vtable.iter_vtable.next)(it).is_none()); (d.vtable.iter_vtable.dealloc)(it); }
    }
    fn n_option() {
        let l = live();
        {
            let d = optn::<Option<String>>();
            let mut o: Option<String> = if any() { Some(any_string(4)) } else { None };
            let op: *mut Option<String> = &mut o;
            for _ in 0..below(5) {
                let before = o.clone();
                unsafe {
                    assert!((d.vtable.is_some_fn)(PtrConst::new(op)) == before.is_some());
                    assert!((d.vtable.get_value_fn)(PtrConst::new(op)).map(|v| v.get::<String>()) == before.as_ref());
                    let s = any_string(3);
                    if any() { let c = s.clone(); give(c, |p| (d.vtable.replace_with_fn)(PtrMut::new(op), Some(p.as_const()))); assert!(o == Some(s)); } else { (d.vtable.replace_with_fn)(PtrMut::new(op), None); assert!(o == None); }
                }
            }
            // init
            let mut m = MaybeUninit::<Option<String>>::uninit(); let mp = m.as_mut_ptr(); let s = any_string(3);
            give(s.clone(), |p| unsafe { (d.vtable.init_some_fn)(PtrUninit::new(mp), p.as_const()) });
            assert!(unsafe { (*mp).as_ref() } == Some(&s));
            unsafe { (vt::<Option<String>>().drop_in_place.unwrap())(PtrMut::new(mp)) };
        }
        assert!(live() == l, "leak");
    }
    fn n_arc() {
        let l = live();
        {
            let s = any_string(5);
            let d = sp::<Arc<String>>(); let wd = sp::<Weak<String>>();
            let mut m = MaybeUninit::<Arc<String>>::uninit(); let mp = m.as_mut_ptr();
            give(s.clone(), |p| unsafe { (d.vtable.new_into_fn.unwrap())(PtrUninit::new(mp), p.as_const()) });
            let mut strong: Vec<Arc<String>> = vec![unsafe { mp.read() }]; let mut weak: Vec<Weak<String>> = vec![];
            let mut alive = true;
            for _ in 0..below(8) {
                match below(5) {
                    0 if alive => { let c = refl_clone(&strong[0]).unwrap(); strong.push(c); }
                    1 if alive => { let mut w = MaybeUninit::<Weak<String>>::uninit(); let sp_: *mut Arc<String> = &mut strong[0]; unsafe { (d.vtable.downgrade_into_fn.unwrap())(PtrMut::new(sp_), PtrUninit::new(w.as_mut_ptr())); weak.push(w.assume_init()) } }
                    2 if !weak.is_empty() => { let mut o = MaybeUninit::<Arc<String>>::uninit(); let wp: *mut Weak<String> = &mut weak[0]; let r = unsafe { (wd.vtable.upgrade_into_fn.unwrap())(PtrMut::new(wp), PtrUninit::new(o.as_mut_ptr())) }; assert!(r.is_some() == alive, "upgrade succeeds exactly while alive"); if r.is_some() { strong.push(unsafe { o.assume_init() }) } }
                    3 if alive => { let a = strong.pop().unwrap(); assert!(refl_drop(a)); alive = !strong.is_empty(); }
                    4 if !weak.is_empty() => { if any() { let w = weak.pop().unwrap(); assert!(refl_drop(w)); } else { let c = refl_clone(&weak[0]).unwrap(); weak.push(c); } }
                    _ => {}
                }
                if alive { assert!(Arc::strong_count(&strong[0]) == strong.len() && Arc::weak_count(&strong[0]) == weak.len(), "counts"); assert!(unsafe { (d.vtable.borrow_fn.unwrap())(p(&strong[0])).get::<String>() } == &s, "borrow"); }
                else if let Some(w) = weak.first() { assert!(w.strong_count() == 0) }
            }
        }
        assert!(live() == l, "leak");
    }
    fn b_out_of_bounds() {
        let v = vec![1u32, 2]; let a = [1u32, 2]; let s: &'static [u32] = &[1, 2];
        for i in [2usize, 3, 100, usize::MAX] {
            oob(|| unsafe { (list::<Vec<u32>>().vtable.get_item_ptr)(p(&v), i); });
            oob(|| unsafe { (arr::<[u32; 2]>().vtable.get_item_ptr)(p(&a), i); });
            oob(|| unsafe { (slc::<&'static [u32]>().vtable.get_item_ptr)(p(&s), i); });
        }
        counted(12);
    }
    fn n_array_items() {
        let a: [String; 3] = core::array::from_fn(|_| any_string(2)); let i = below(3);
        assert!(unsafe { (arr::<[String; 3]>().vtable.get_item_ptr)(p(&a), i).get::<String>() } == &a[i]);
        let s: &'static [String] = unsafe { core::mem::transmute(&a[..below(4)]) };
        assert!(unsafe { (slc::<&'static [String]>().vtable.len)(p(&s)) } == s.len());
        if !s.is_empty() { let i = below(s.len()); assert!(unsafe { (slc::<&'static [String]>().vtable.get_item_ptr)(p(&s), i).get::<String>() } == &s[i]); }
    }
}
