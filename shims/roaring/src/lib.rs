//! Stand-in for roaring (not in the offline registry): a set of u32 with a serialized form.
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, Sub, SubAssign};
#[derive(Clone, Default, PartialEq, Eq)]
pub struct RoaringBitmap(BTreeSet<u32>);
impl std::fmt::Debug for RoaringBitmap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "RoaringBitmap<{:?}>", self.0.iter().take(16).collect::<Vec<_>>())
    }
}
const COOKIE: u32 = 0x3a30_5b17;
impl RoaringBitmap {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, v: u32) -> bool {
        self.0.insert(v)
    }
    pub fn remove(&mut self, v: u32) -> bool {
        self.0.remove(&v)
    }
    pub fn contains(&self, v: u32) -> bool {
        self.0.contains(&v)
    }
    pub fn len(&self) -> u64 {
        self.0.len() as u64
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn iter(&self) -> std::iter::Copied<std::collections::btree_set::Iter<'_, u32>> {
        self.0.iter().copied()
    }
    pub fn serialized_size(&self) -> usize {
        8 + 4 * self.0.len()
    }
    pub fn serialize_into<W: Write>(&self, mut w: W) -> io::Result<()> {
        let mut b = Vec::with_capacity(self.serialized_size());
        b.extend_from_slice(&COOKIE.to_le_bytes());
        b.extend_from_slice(&(self.0.len() as u32).to_le_bytes());
        for v in &self.0 {
            b.extend_from_slice(&v.to_le_bytes());
        }
        w.write_all(&b)
    }
    pub fn deserialize_from<R: Read>(mut r: R) -> io::Result<Self> {
        let mut b = [0u8; 4];
        r.read_exact(&mut b)?;
        if u32::from_le_bytes(b) != COOKIE {
            return Err(io::Error::new(io::ErrorKind::Other, "unknown cookie value"));
        }
        r.read_exact(&mut b)?;
        let n = u32::from_le_bytes(b);
        let mut out = BTreeSet::new();
        for _ in 0..n {
            r.read_exact(&mut b)?;
            out.insert(u32::from_le_bytes(b));
        }
        Ok(Self(out))
    }
}
macro_rules! op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
    impl $tr<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { let f: fn(&BTreeSet<u32>, &BTreeSet<u32>) -> BTreeSet<u32> = $e; RoaringBitmap(f(&self.0, &o.0)) } }
    impl $tr<RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: RoaringBitmap) -> RoaringBitmap { (&self).$f(&o) } }
    impl $tr<&RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { (&self).$f(o) } }
    impl $tr<RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: RoaringBitmap) -> RoaringBitmap { self.$f(&o) } }
    impl $tra<RoaringBitmap> for RoaringBitmap { fn $fa(&mut self, o: RoaringBitmap) { *self = (&*self).$f(&o); } }
    impl $tra<&RoaringBitmap> for RoaringBitmap { fn $fa(&mut self, o: &RoaringBitmap) { *self = (&*self).$f(o); } }
} }
op!(BitOr, bitor, BitOrAssign, bitor_assign, |a, b| a | b);
op!(BitAnd, bitand, BitAndAssign, bitand_assign, |a, b| a & b);
op!(Sub, sub, SubAssign, sub_assign, |a, b| a - b);
impl FromIterator<u32> for RoaringBitmap {
    fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl Extend<u32> for RoaringBitmap {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl IntoIterator for RoaringBitmap {
    type Item = u32;
    type IntoIter = std::collections::btree_set::IntoIter<u32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a> IntoIterator for &'a RoaringBitmap {
    type Item = u32;
    type IntoIter = std::iter::Copied<std::collections::btree_set::Iter<'a, u32>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
