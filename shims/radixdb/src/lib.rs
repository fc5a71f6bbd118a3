//! Stand-in for radixdb (not in the offline registry): a map behind the same calls.  cnosdb
//! only opens it to migrate indexes written by releases before its LMDB index.
pub mod store {
    use std::fs::File;
    use std::sync::Arc;
    #[derive(Clone, Debug)]
    pub struct PagedFileStore(#[allow(dead_code)] Arc<File>);
    impl PagedFileStore {
        pub fn new(f: File, _page: u64) -> std::io::Result<Self> {
            Ok(Self(Arc::new(f)))
        }
        pub fn last_id(&self) -> Vec<u8> {
            vec![]
        }
    }
    pub trait BlobStore {
        fn sync(&self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl BlobStore for PagedFileStore {}
}
pub mod node {
    use std::marker::PhantomData;
    #[derive(Clone, Debug)]
    pub struct IterKey(pub(crate) Vec<u8>);
    impl AsRef<[u8]> for IterKey {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl std::ops::Deref for IterKey {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct Value<S>(pub(crate) Vec<u8>, pub(crate) PhantomData<S>);
    impl<S> Value<S> {
        pub fn load(&self, _s: &S) -> std::io::Result<Vec<u8>> {
            Ok(self.0.clone())
        }
    }
    pub struct KeyValueIter<S>(pub(crate) std::vec::IntoIter<(IterKey, Value<S>)>);
    impl<S> Iterator for KeyValueIter<S> {
        type Item = std::io::Result<(IterKey, Value<S>)>;
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(Ok)
        }
    }
}
use node::{KeyValueIter, Value};
use std::collections::BTreeMap;
use std::io::Result;
use std::marker::PhantomData;
#[derive(Debug)]
pub struct RadixTree<S>(BTreeMap<Vec<u8>, Vec<u8>>, PhantomData<S>);
impl<S: Clone> RadixTree<S> {
    pub fn try_load(_s: S, _id: Vec<u8>) -> Result<Self> {
        Ok(Self(BTreeMap::new(), PhantomData))
    }
    pub fn try_insert(&mut self, k: &[u8], v: &[u8]) -> Result<()> {
        self.0.insert(k.to_vec(), v.to_vec());
        Ok(())
    }
    pub fn try_get(&self, k: &[u8]) -> Result<Option<Value<S>>> {
        Ok(self.0.get(k).map(|v| Value(v.clone(), PhantomData)))
    }
    pub fn try_remove(&mut self, k: &[u8]) -> Result<()> {
        self.0.remove(k);
        Ok(())
    }
    pub fn try_remove_prefix(&mut self, p: &[u8]) -> Result<()> {
        self.0.retain(|k, _| !k.starts_with(p));
        Ok(())
    }
    pub fn try_contains_key(&self, k: &[u8]) -> Result<bool> {
        Ok(self.0.contains_key(k))
    }
    pub fn try_scan_prefix(&self, p: &[u8]) -> Result<KeyValueIter<S>> {
        let v: Vec<_> = self.0.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (node::IterKey(k.clone()), Value(v.clone(), PhantomData))).collect();
        Ok(KeyValueIter(v.into_iter()))
    }
    pub fn try_iter(&self) -> KeyValueIter<S> {
        self.try_scan_prefix(&[]).unwrap()
    }
    pub fn try_reattach(&mut self) -> Result<Vec<u8>> {
        Ok(vec![])
    }
}
