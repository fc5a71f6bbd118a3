//! Stand-in for skiplist (not in the offline registry): an ordered list.  As in skiplist, an
//! inserted element goes before the elements equal to it.
use std::cmp::Ordering;
use std::fmt;

pub mod skiplist {
    pub type Iter<'a, T> = std::slice::Iter<'a, T>;
    pub type IntoIter<T> = std::vec::IntoIter<T>;
}
pub struct OrderedSkipList<T> {
    items: Vec<T>,
    cmp: Box<dyn Fn(&T, &T) -> Ordering + Send + Sync>,
}
impl<T: PartialOrd> OrderedSkipList<T> {
    pub fn new() -> Self {
        Self { items: vec![], cmp: Box::new(|a, b| a.partial_cmp(b).expect("Element cannot be ordered.")) }
    }
}
impl<T: PartialOrd> Default for OrderedSkipList<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OrderedSkipList<T> {
    /// # Safety
    /// as in skiplist
    pub unsafe fn sort_by<F: 'static + Fn(&T, &T) -> Ordering + Send + Sync>(&mut self, f: F) {
        self.items.sort_by(&f);
        self.cmp = Box::new(f);
    }
    pub fn insert(&mut self, v: T) {
        let at = self.items.partition_point(|x| (self.cmp)(x, &v) == Ordering::Less);
        self.items.insert(at, v);
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn front(&self) -> Option<&T> {
        self.items.first()
    }
    pub fn back(&self) -> Option<&T> {
        self.items.last()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.items.retain(f)
    }
    pub fn iter(&self) -> skiplist::Iter<'_, T> {
        self.items.iter()
    }
}
impl<T> IntoIterator for OrderedSkipList<T> {
    type Item = T;
    type IntoIter = skiplist::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> {
    type Item = &'a T;
    type IntoIter = skiplist::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.iter()
    }
}
impl<T: fmt::Debug> fmt::Debug for OrderedSkipList<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.items.fmt(f)
    }
}
impl<T: PartialEq> PartialEq for OrderedSkipList<T> {
    fn eq(&self, o: &Self) -> bool {
        self.items == o.items
    }
}
impl<T: Eq> Eq for OrderedSkipList<T> {}
