pub const CAP: usize = 6;
pub trait Dummy: Sized { fn dummy() -> Self; }
pub struct AVec<T: Dummy> { len: usize, d: [core::mem::ManuallyDrop<T>; CAP] }
use core::mem::ManuallyDrop as MD;
impl<T: Dummy> Default for AVec<T> { fn default() -> Self { Self::new() } }
impl<T: Dummy> AVec<T> {
    pub fn new() -> Self { AVec { len: 0, d: [MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy())] } }
    pub fn one(t: T) -> Self { AVec { len: 1, d: [MD::new(t),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy()),MD::new(T::dummy())] } }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn push(&mut self, t: T) { assert!(self.len < CAP, "AVec capacity"); self.d[self.len] = MD::new(t); self.len += 1; }
    fn take(&mut self, i: usize) -> T { MD::into_inner(core::mem::replace(&mut self.d[i], MD::new(T::dummy()))) }
    pub fn pop(&mut self) -> Option<T> { if self.len == 0 { None } else { self.len -= 1; Some(self.take(self.len)) } }
    pub fn get(&self, i: usize) -> Option<&T> { if i < self.len { Some(&self.d[i]) } else { None } }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> { if i < self.len { Some(&mut self.d[i]) } else { None } }
    pub fn last(&self) -> Option<&T> { if self.len == 0 { None } else { self.get(self.len - 1) } }
    pub fn last_mut(&mut self) -> Option<&mut T> { if self.len == 0 { None } else { let i = self.len - 1; self.get_mut(i) } }
    /// the last element and the ones before it
    pub fn split_last_mut(&mut self) -> Option<(&mut T, &mut [MD<T>])> { if self.len == 0 { None } else { let n = self.len - 1; let (a, b) = self.d.split_at_mut(n); Some((&mut b[0], a)) } }
    pub fn remove(&mut self, i: usize) -> T {
        assert!(i < self.len);
        let r = self.take(i);
        let mut j = i; while j + 1 < self.len { let t = self.take(j+1); self.d[j] = MD::new(t); j += 1; }
        self.len -= 1; r
    }
    pub fn clear(&mut self) { while let Some(_) = self.pop() {} }
    pub fn iter(&self) -> It<'_, T> { It { v: self, i: 0 } }
    pub fn iter_mut(&mut self) -> ItM<'_, T> { ItM { v: self as *mut _, i: 0, p: core::marker::PhantomData } }
    pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) { let mut i = 0; while i < self.len { if f(self.get_mut(i).unwrap()) { i += 1 } else { self.remove(i); } } }
    pub fn drain(&mut self, _r: core::ops::RangeFull) -> IntoIt<T> { IntoIt(core::mem::take(self)) }
}
pub struct It<'a, T: Dummy> { v: &'a AVec<T>, i: usize }
impl<'a, T: Dummy> Iterator for It<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { let r = self.v.get(self.i); if r.is_some() { self.i += 1; } r } }
pub struct ItM<'a, T: Dummy> { v: *mut AVec<T>, i: usize, p: core::marker::PhantomData<&'a mut T> }
impl<'a, T: Dummy> Iterator for ItM<'a, T> { type Item = &'a mut T; fn next(&mut self) -> Option<&'a mut T> { let r = unsafe { (*self.v).get_mut(self.i) }; if r.is_some() { self.i += 1; } r } }
impl<T: Dummy> core::ops::Index<usize> for AVec<T> { type Output = T; fn index(&self, i: usize) -> &T { self.get(i).unwrap() } }
impl<T: Dummy> core::ops::IndexMut<usize> for AVec<T> { fn index_mut(&mut self, i: usize) -> &mut T { self.get_mut(i).unwrap() } }
impl<T: Dummy> Drop for AVec<T> { fn drop(&mut self) { self.clear() } }
impl<T: Dummy> FromIterator<T> for AVec<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut v = Self::new(); for x in it { v.push(x) } v } }
pub struct IntoIt<T: Dummy>(AVec<T>);
impl<T: Dummy> Iterator for IntoIt<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.0.is_empty() { None } else { Some(self.0.remove(0)) } } }
impl<T: Dummy> IntoIterator for AVec<T> { type Item = T; type IntoIter = IntoIt<T>; fn into_iter(self) -> IntoIt<T> { IntoIt(self) } }
impl<A: Dummy, B: Dummy> Dummy for (A, B) { fn dummy() -> Self { (A::dummy(), B::dummy()) } }
