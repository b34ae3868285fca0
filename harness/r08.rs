use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::wip::{flat_map::FlatMap, iset::ISet};

/// Contract of every FlatMap operation, against a mathematical map given as an array of at most N entries:
/// after the operation the map holds exactly the model's entries (whole view, so a corrupted neighbour is seen).
struct Model { e: [(u32, Option<u16>); 5], n: usize }
impl Model {
    fn get(&self, k: u32) -> Option<u16> { let mut r = None; let mut i = 0; while i < 5 { if i < self.n && self.e[i].0 == k { r = self.e[i].1 } i += 1 } r }
    fn put(&mut self, k: u32, v: Option<u16>) { self.e[self.n] = (k, v); self.n += 1 }
}
fn agrees(m: &mut FlatMap<u32, u16>, model: &Model, n: usize) {
    assert!(m.len() == n, "len");
    assert!(m.is_empty() == (n == 0), "is_empty");
    let q: u32 = any();
    assert!(m.contains_key(&q) == model.get(q).is_some(), "contains_key of any key");
    assert!(m.get(&q).copied() == model.get(q), "get of any key");
}
/// an arbitrary map of at most n entries, made by inserting
fn build(n: usize) -> (FlatMap<u32, u16>, Model, usize) {
    let mut m: FlatMap<u32, u16> = FlatMap::new();
    let mut model = Model { e: [(0, None); 5], n: 0 };
    let mut k = 0;
    for _ in 0..n {
        let (key, v): (u32, u16) = (any(), any());
        let old = m.insert(key, v);
        assert!(old == model.get(key), "insert returns what it replaces");
        if old.is_none() { k += 1; }
        model.put(key, Some(v));
    }
    (m, model, k)
}

crate::harness! {
    fn iset_set(3) {
        let x: u64 = any(); let i: usize = any(); let j: usize = any();
        assume(i < 64 && j < 64);
        let mut s = ISet(x);
        s.set(i);
        assert!(s.has(j) == (j == i || x >> j & 1 == 1), "set(i) adds i and nothing else");
    }
    fn iset_unset(3) {
        let x: u64 = any(); let i: usize = any(); let j: usize = any();
        assume(i < 64 && j < 64);
        let mut s = ISet(x);
        s.unset(i);
        assert!(s.has(j) == (j != i && x >> j & 1 == 1), "unset(i) removes i and nothing else");
    }
    fn iset_has(3) {
        let x: u64 = any(); let j: usize = any();
        assume(j < 64);
        assert!(ISet(x).has(j) == (x >> j & 1 == 1));
    }
    fn iset_are_all_set(3) {
        let x: u64 = any(); let n: usize = any();
        assume(n <= 64);
        let want = if n == 0 { true } else { x << (64 - n) == u64::MAX << (64 - n) };
        assert!(ISet(x).are_all_set(n) == want, "all of the first n");
    }
    fn iset_any_clear_default(3) {
        let x: u64 = any(); let j: usize = any();
        assume(j < 64);
        assert!(ISet(x).is_any_set() == (x != 0));
        let mut s = ISet(x);
        s.clear();
        assert!(!s.has(j) && !s.is_any_set());
        assert!(!ISet::default().has(j));
    }
    /// every number of fields up to 64
    fn iset_all(66) {
        static F: [Field; 64] = [const { Field::builder().name("f").shape(|| <u8 as Facet>::SHAPE).offset(0).build() }; 64];
        let n: usize = any(); let j: usize = any();
        assume(n <= 64 && j < 64);
        assert!(ISet::all(&F[..n]).has(j) == (j < n), "exactly the given fields");
        assert!(ISet::all(&F[..n]).are_all_set(n));
    }
    fn map_insert(6) {
        let (mut m, mut model, mut n) = build(2);
        agrees(&mut m, &model, n);
        let (k, v): (u32, u16) = (any(), any());
        let old = m.insert(k, v);
        assert!(old == model.get(k));
        if old.is_none() { n += 1 }
        model.put(k, Some(v));
        agrees(&mut m, &model, n);
    }
    fn map_remove(6) {
        let (mut m, mut model, mut n) = build(3);
        let k: u32 = any();
        let old = m.remove(&k);
        assert!(old == model.get(k), "remove returns the removed value");
        if old.is_some() { n -= 1 }
        model.put(k, None);
        agrees(&mut m, &model, n);
    }
    fn map_remove_entry(6) {
        let (mut m, mut model, mut n) = build(3);
        let k: u32 = any();
        let old = m.remove_entry(&k);
        assert!(old == model.get(k).map(|v| (k, v)));
        if old.is_some() { n -= 1 }
        model.put(k, None);
        agrees(&mut m, &model, n);
    }
    fn map_get_mut(6) {
        let (mut m, mut model, n) = build(3);
        let (k, v): (u32, u16) = (any(), any());
        match m.get_mut(&k) {
            Some(p) => { assert!(model.get(k) == Some(*p)); *p = v; model.put(k, Some(v))}
            None => assert!(model.get(k).is_none()),
        }
        agrees(&mut m, &model, n);
    }
    fn map_clear(6) {
        let (mut m, _, _) = build(2);
        m.clear();
        agrees(&mut m, &Model { e: [(0, None); 5], n: 0 }, 0);
    }
    /// iteration visits every entry once, in insertion order
    fn map_iter(6) {
        let (m, model, n) = build(3);
        let mut seen = [None; 4];
        let mut k = 0;
        for (key, v) in m.iter() { assert!(seen[0] != Some(*key) && seen[1] != Some(*key) && seen[2] != Some(*key)); assert!(model.get(*key) == Some(*v)); seen[k] = Some(*key); k += 1 }
        assert!(k == n);
        let mut ks = m.keys(); let mut vs = m.values();
        for (key, v) in m.iter() { assert!(ks.next() == Some(key) && vs.next() == Some(v)) }
        assert!(ks.next().is_none() && vs.next().is_none());
    }
}
crate::native! {
    /// longer histories (8 to 40 operations) on small key ranges
    fn history() {
        let mut m: FlatMap<u8, u16> = FlatMap::new();
        let mut model: [Option<u16>; 256] = [None; 256];
        let mut order: Vec<u8> = Vec::new();
        for _ in 0..8 + below(32) {
            let k = below(6) as u8; let v: u16 = any();
            match below(7) {
                0 | 1 | 2 => { let o = m.insert(k, v); assert_eq!(o, model[k as usize]); if o.is_none() { order.push(k) } model[k as usize] = Some(v) }
                3 => { assert_eq!(m.remove(&k), model[k as usize]); model[k as usize] = None; order.retain(|x| *x != k) }
                4 => { assert_eq!(m.remove_entry(&k).map(|e| e.1), model[k as usize]); model[k as usize] = None; order.retain(|x| *x != k) }
                5 => { m.retain(|key, val| { *val ^= 1; *key % 2 == k % 2 }); for i in 0..256 { if i % 2 != k as usize % 2 { model[i] = None } else if let Some(x) = &mut model[i] { *x ^= 1 } } order.retain(|x| *x % 2 == k % 2) }
                _ => { if let Some(x) = m.get_mut(&k) { *x = v; model[k as usize] = Some(v) } else { assert!(model[k as usize].is_none()) } }
            }
            assert_eq!(m.len(), order.len());
            assert_eq!(m.keys().copied().collect::<Vec<_>>(), order);
            assert_eq!(m.values().map(|v| Some(*v)).collect::<Vec<_>>(), order.iter().map(|k| model[*k as usize]).collect::<Vec<_>>());
            for i in 0..8u8 { assert_eq!(m.get(&i).copied(), model[i as usize]); assert_eq!(m.contains_key(&i), model[i as usize].is_some()) }
        }
    }
}
