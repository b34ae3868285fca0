// Contract of the callees `Wip::shape` and `Wip::put` (the real ones are verified under R03/R04):
//   shape(): the shape of the current place
//   put(v):  if T is the place's type, the place afterwards holds exactly v; otherwise an error
use crate::facet_core::*;
use super::ReflectError;
mod put_f64;
pub struct Wip<'a> { shape: &'static Shape, cell: [u128; 1], set: bool, p: core::marker::PhantomData<&'a ()> }
impl<'a> Wip<'a> {
    pub fn alloc<T: Facet>() -> Self { Wip { shape: T::SHAPE, cell: [0], set: false, p: core::marker::PhantomData } }
    pub fn shape(&self) -> &'static Shape { self.shape }
    pub fn put<T: Facet>(mut self, t: T) -> Result<Self, ReflectError> {
        if !self.shape.is_type::<T>() { core::mem::forget(t); return Err(ReflectError::WrongShape { expected: self.shape, actual: T::SHAPE }) }
        assert!(!self.set, "put is called once");
        unsafe { core::ptr::write(self.cell.as_mut_ptr() as *mut T, t) };
        self.set = true;
        Ok(self)
    }
    pub fn stored<T: Facet>(self) -> T { assert!(self.set && self.shape.is_type::<T>()); unsafe { core::ptr::read(self.cell.as_ptr() as *const T) } }
}
