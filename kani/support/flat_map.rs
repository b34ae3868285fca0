use crate::avec::*;
pub(crate) struct FlatMap<K: Dummy, V: Dummy> { k: AVec<K>, v: AVec<V> }
impl<K: Dummy + Eq, V: Dummy> FlatMap<K, V> {
    fn pos(&self, key: &K) -> Option<usize> { let mut i = 0; while i < self.k.len() { if self.k[i] == *key { return Some(i) } i += 1; } None }
    pub(crate) fn insert(&mut self, key: K, value: V) -> Option<V> {
        match self.pos(&key) { Some(i) => Some(core::mem::replace(&mut self.v[i], value)), None => { self.k.push(key); self.v.push(value); None } }
    }
    pub(crate) fn clear(&mut self) { self.k.clear(); self.v.clear(); }
    pub(crate) fn contains_key(&self, key: &K) -> bool { self.pos(key).is_some() }
    pub(crate) fn remove(&mut self, key: &K) -> Option<V> { let i = self.pos(key)?; self.k.remove(i); Some(self.v.remove(i)) }
    pub(crate) fn get(&self, key: &K) -> Option<&V> { let i = self.pos(key)?; Some(&self.v[i]) }
    pub(crate) fn get_mut(&mut self, key: &K) -> Option<&mut V> { let i = self.pos(key)?; Some(&mut self.v[i]) }
    pub(crate) fn keys(&self) -> impl Iterator<Item = &K> { self.k.iter() }
    pub(crate) fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.k.iter().zip(self.v.iter()) }
}
impl<K: Dummy, V: Dummy> Default for FlatMap<K, V> { fn default() -> Self { Self { k: AVec::new(), v: AVec::new() } } }
