//! Stand-in for heed/LMDB (a C library): ordered key-value databases with single-writer
//! transactions, snapshot readers and commits that survive a process crash.  Every commit is
//! one length-and-checksum framed batch appended to data.mdb; opening replays whole batches.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex as StdMutex, OnceLock, Weak};

use parking_lot::{Mutex, MutexGuard};

pub use byteorder;

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Mdb(String),
    Encoding(BoxedError),
    Decoding(BoxedError),
    BadOpenOptions,
}
pub type BoxedError = Box<dyn std::error::Error + Send + Sync + 'static>;
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}

pub trait BytesEncode<'a> {
    type EItem: ?Sized + 'a;
    fn bytes_encode(item: &'a Self::EItem) -> std::result::Result<Cow<'a, [u8]>, BoxedError>;
}
pub trait BytesDecode<'a> {
    type DItem: 'a;
    fn bytes_decode(bytes: &'a [u8]) -> std::result::Result<Self::DItem, BoxedError>;
}
pub mod types {
    use super::*;
    pub enum Str {}
    impl<'a> BytesEncode<'a> for Str {
        type EItem = str;
        fn bytes_encode(s: &'a str) -> std::result::Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(s.as_bytes()))
        }
    }
    impl<'a> BytesDecode<'a> for Str {
        type DItem = &'a str;
        fn bytes_decode(b: &'a [u8]) -> std::result::Result<&'a str, BoxedError> {
            std::str::from_utf8(b).map_err(Into::into)
        }
    }
    pub enum Bytes {}
    impl<'a> BytesEncode<'a> for Bytes {
        type EItem = [u8];
        fn bytes_encode(s: &'a [u8]) -> std::result::Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(s))
        }
    }
    impl<'a> BytesDecode<'a> for Bytes {
        type DItem = &'a [u8];
        fn bytes_decode(b: &'a [u8]) -> std::result::Result<&'a [u8], BoxedError> {
            Ok(b)
        }
    }
    pub enum Unit {}
    impl<'a> BytesEncode<'a> for Unit {
        type EItem = ();
        fn bytes_encode(_: &'a ()) -> std::result::Result<Cow<'a, [u8]>, BoxedError> {
            Ok(Cow::Borrowed(&[]))
        }
    }
    impl<'a> BytesDecode<'a> for Unit {
        type DItem = ();
        fn bytes_decode(_: &'a [u8]) -> std::result::Result<(), BoxedError> {
            Ok(())
        }
    }
    pub struct U64<O>(PhantomData<O>);
    impl<'a, O: byteorder::ByteOrder> BytesEncode<'a> for U64<O> {
        type EItem = u64;
        fn bytes_encode(s: &'a u64) -> std::result::Result<Cow<'a, [u8]>, BoxedError> {
            let mut b = vec![0u8; 8];
            O::write_u64(&mut b, *s);
            Ok(Cow::Owned(b))
        }
    }
    impl<'a, O: byteorder::ByteOrder> BytesDecode<'a> for U64<O> {
        type DItem = u64;
        fn bytes_decode(b: &'a [u8]) -> std::result::Result<u64, BoxedError> {
            if b.len() != 8 {
                return Err("not a u64".into());
            }
            Ok(O::read_u64(b))
        }
    }
}

pub struct EnvFlags(u32);
impl EnvFlags {
    pub const NO_SYNC: EnvFlags = EnvFlags(1);
    pub const NO_META_SYNC: EnvFlags = EnvFlags(2);
    pub const NO_LOCK: EnvFlags = EnvFlags(4);
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Dbs = BTreeMap<String, Arc<Map>>;

struct Inner {
    path: PathBuf,
    committed: Mutex<Arc<Dbs>>,
    writer: Mutex<File>,
}
#[derive(Clone)]
pub struct Env(Arc<Inner>);

fn registry() -> &'static StdMutex<HashMap<PathBuf, Weak<Inner>>> {
    static R: OnceLock<StdMutex<HashMap<PathBuf, Weak<Inner>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

#[derive(Default, Clone, Debug)]
pub struct EnvOpenOptions {
    max_dbs: u32,
}
impl EnvOpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn map_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn max_dbs(&mut self, n: u32) -> &mut Self {
        self.max_dbs = n;
        self
    }
    pub fn max_readers(&mut self, _n: u32) -> &mut Self {
        self
    }
    /// # Safety
    /// as in heed
    pub unsafe fn flags(&mut self, _f: EnvFlags) -> &mut Self {
        self
    }
    /// # Safety
    /// as in heed
    pub unsafe fn open<P: AsRef<Path>>(&self, path: P) -> Result<Env> {
        let path = path.as_ref().canonicalize()?;
        let mut reg = registry().lock().unwrap();
        if let Some(e) = reg.get(&path).and_then(Weak::upgrade) {
            return Ok(Env(e));
        }
        let file = path.join("data.mdb");
        let mut data = vec![];
        if file.exists() {
            File::open(&file)?.read_to_end(&mut data)?;
        }
        let mut dbs: BTreeMap<String, Map> = BTreeMap::new();
        let mut pos = 0;
        while let Some(head) = data.get(pos..pos + 12) {
            let len = u32::from_le_bytes(head[0..4].try_into().unwrap()) as usize;
            let sum = u64::from_le_bytes(head[4..12].try_into().unwrap());
            let Some(body) = data.get(pos + 12..pos + 12 + len) else { break };
            if fnv(body) != sum {
                break;
            }
            let batch: Batch = bincode::deserialize(body).map_err(|e| Error::Mdb(e.to_string()))?;
            replay(&mut dbs, batch);
            pos += 12 + len;
        }
        let mut out = OpenOptions::new().create(true).append(true).open(&file)?;
        out.set_len(pos as u64)?;
        out.flush()?;
        let dbs: Dbs = dbs.into_iter().map(|(k, v)| (k, Arc::new(v))).collect();
        let inner = Arc::new(Inner { path: path.clone(), committed: Mutex::new(Arc::new(dbs)), writer: Mutex::new(out) });
        reg.insert(path, Arc::downgrade(&inner));
        Ok(Env(inner))
    }
}
type Batch = Vec<(String, bool, Vec<(Vec<u8>, Option<Vec<u8>>)>)>;
fn replay(dbs: &mut BTreeMap<String, Map>, b: Batch) {
    for (name, clear, ops) in b {
        let m = dbs.entry(name).or_default();
        if clear {
            m.clear();
        }
        for (k, v) in ops {
            match v {
                Some(v) => {
                    m.insert(k, v);
                }
                None => {
                    m.remove(&k);
                }
            }
        }
    }
}
fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

impl Env {
    pub fn path(&self) -> &Path {
        &self.0.path
    }
    pub fn read_txn(&self) -> Result<RoTxn<'_>> {
        Ok(RoTxn { dbs: (**self.0.committed.lock()).clone(), _p: PhantomData })
    }
    pub fn write_txn(&self) -> Result<RwTxn<'_>> {
        let file = self.0.writer.lock();
        let ro = self.read_txn()?;
        Ok(RwTxn { ro, ops: BTreeMap::new(), env: &self.0, file })
    }
    pub fn create_database<KC: 'static, DC: 'static>(&self, t: &mut RwTxn<'_>, name: Option<&str>) -> Result<Database<KC, DC>> {
        let name = name.unwrap_or("").to_string();
        if !t.ro.dbs.contains_key(&name) {
            t.ro.dbs.insert(name.clone(), Default::default());
            t.ops.entry(name.clone()).or_default();
        }
        Ok(Database { name: name.into(), _p: PhantomData })
    }
    pub fn open_database<KC: 'static, DC: 'static>(&self, t: &RoTxn<'_>, name: Option<&str>) -> Result<Option<Database<KC, DC>>> {
        let name = name.unwrap_or("").to_string();
        Ok(t.dbs.contains_key(&name).then(|| Database { name: name.into(), _p: PhantomData }))
    }
    pub fn force_sync(&self) -> Result<()> {
        Ok(())
    }
}

pub struct RoTxn<'e> {
    dbs: Dbs,
    _p: PhantomData<&'e ()>,
}
impl RoTxn<'_> {
    pub fn commit(self) -> Result<()> {
        Ok(())
    }
}
#[derive(Default)]
struct Ops {
    clear: bool,
    set: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
}
pub struct RwTxn<'e> {
    ro: RoTxn<'e>,
    ops: BTreeMap<String, Ops>,
    env: &'e Inner,
    file: MutexGuard<'e, File>,
}
impl<'e> Deref for RwTxn<'e> {
    type Target = RoTxn<'e>;
    fn deref(&self) -> &RoTxn<'e> {
        &self.ro
    }
}
impl<'e> DerefMut for RwTxn<'e> {
    fn deref_mut(&mut self) -> &mut RoTxn<'e> {
        &mut self.ro
    }
}
impl RwTxn<'_> {
    pub fn commit(self) -> Result<()> {
        let RwTxn { ro, ops, env, mut file } = self;
        if ops.is_empty() {
            return Ok(());
        }
        let batch: Batch = ops.into_iter().map(|(n, o)| (n, o.clear, o.set.into_iter().collect())).collect();
        let body = bincode::serialize(&batch).map_err(|e| Error::Mdb(e.to_string()))?;
        let mut out = Vec::with_capacity(body.len() + 12);
        out.extend_from_slice(&(body.len() as u32).to_le_bytes());
        out.extend_from_slice(&fnv(&body).to_le_bytes());
        out.extend_from_slice(&body);
        file.write_all(&out)?;
        *env.committed.lock() = Arc::new(ro.dbs);
        Ok(())
    }
    pub fn abort(self) {}
    fn edit(&mut self, name: &str) -> (&mut Map, &mut Ops) {
        let m = self.ro.dbs.entry(name.to_string()).or_default();
        // the committed version stays with its readers
        (Arc::make_mut(m), self.ops.entry(name.to_string()).or_default())
    }
}

pub struct Database<KC, DC> {
    name: Arc<str>,
    _p: PhantomData<(KC, DC)>,
}
unsafe impl<KC, DC> Send for Database<KC, DC> {}
unsafe impl<KC, DC> Sync for Database<KC, DC> {}
impl<KC, DC> Clone for Database<KC, DC> {
    fn clone(&self) -> Self {
        Database { name: self.name.clone(), _p: PhantomData }
    }
}
fn own(b: Bound<&[u8]>) -> Bound<Vec<u8>> {
    match b {
        Bound::Included(b) => Bound::Included(b.to_vec()),
        Bound::Excluded(b) => Bound::Excluded(b.to_vec()),
        Bound::Unbounded => Bound::Unbounded,
    }
}
fn empty(lo: &Bound<Vec<u8>>, hi: &Bound<Vec<u8>>) -> bool {
    match (lo, hi) {
        (Bound::Included(a), Bound::Included(b)) => a > b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a >= b,
        _ => false,
    }
}
impl<KC, DC> Database<KC, DC> {
    fn map<'t>(&self, t: &'t RoTxn<'_>) -> Result<&'t Map> {
        t.dbs.get(&*self.name).map(|m| &**m).ok_or_else(|| Error::Mdb("MDB_BAD_DBI".into()))
    }
    pub fn get<'a, 't>(&self, t: &'t RoTxn<'_>, key: &'a KC::EItem) -> Result<Option<DC::DItem>>
    where
        KC: BytesEncode<'a>,
        DC: BytesDecode<'t>,
    {
        let k = KC::bytes_encode(key).map_err(Error::Encoding)?;
        if k.is_empty() || k.len() > 511 {
            return Err(Error::Mdb("MDB_BAD_VALSIZE".into()));
        }
        self.map(t)?.get(&*k).map(|v| DC::bytes_decode(v).map_err(Error::Decoding)).transpose()
    }
    pub fn put<'a>(&self, t: &mut RwTxn<'_>, key: &'a KC::EItem, data: &'a DC::EItem) -> Result<()>
    where
        KC: BytesEncode<'a>,
        DC: BytesEncode<'a>,
    {
        let k = KC::bytes_encode(key).map_err(Error::Encoding)?.into_owned();
        if k.is_empty() || k.len() > 511 {
            return Err(Error::Mdb("MDB_BAD_VALSIZE".into()));
        }
        let v = DC::bytes_encode(data).map_err(Error::Encoding)?.into_owned();
        let (m, o) = t.edit(&self.name);
        m.insert(k.clone(), v.clone());
        o.set.insert(k, Some(v));
        Ok(())
    }
    pub fn delete<'a>(&self, t: &mut RwTxn<'_>, key: &'a KC::EItem) -> Result<bool>
    where
        KC: BytesEncode<'a>,
    {
        let k = KC::bytes_encode(key).map_err(Error::Encoding)?.into_owned();
        let (m, o) = t.edit(&self.name);
        let had = m.remove(&k).is_some();
        if had {
            o.set.insert(k, None);
        }
        Ok(had)
    }
    fn bounds<'a, R>(range: &'a R) -> Result<(Bound<Vec<u8>>, Bound<Vec<u8>>)>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let enc = |b: Bound<&'a KC::EItem>| -> Result<Bound<Vec<u8>>> {
            Ok(match b {
                Bound::Included(b) => own(Bound::Included(&KC::bytes_encode(b).map_err(Error::Encoding)?)),
                Bound::Excluded(b) => own(Bound::Excluded(&KC::bytes_encode(b).map_err(Error::Encoding)?)),
                Bound::Unbounded => Bound::Unbounded,
            })
        };
        Ok((enc(range.start_bound())?, enc(range.end_bound())?))
    }
    pub fn delete_range<'a, R>(&self, t: &mut RwTxn<'_>, range: &'a R) -> Result<usize>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let (lo, hi) = Self::bounds(range)?;
        if empty(&lo, &hi) {
            return Ok(0);
        }
        let (m, o) = t.edit(&self.name);
        let keys: Vec<Vec<u8>> = m.range((lo, hi)).map(|(k, _)| k.clone()).collect();
        for k in &keys {
            m.remove(k);
            o.set.insert(k.clone(), None);
        }
        Ok(keys.len())
    }
    pub fn clear(&self, t: &mut RwTxn<'_>) -> Result<()> {
        let (m, o) = t.edit(&self.name);
        m.clear();
        o.set.clear();
        o.clear = true;
        Ok(())
    }
    pub fn len(&self, t: &RoTxn<'_>) -> Result<u64> {
        Ok(self.map(t)?.len() as u64)
    }
    pub fn is_empty(&self, t: &RoTxn<'_>) -> Result<bool> {
        Ok(self.map(t)?.is_empty())
    }
    pub fn first<'t>(&self, t: &'t RoTxn<'_>) -> Result<Option<(KC::DItem, DC::DItem)>>
    where
        KC: BytesDecode<'t>,
        DC: BytesDecode<'t>,
    {
        self.map(t)?.iter().next().map(decode::<KC, DC>).transpose()
    }
    pub fn last<'t>(&self, t: &'t RoTxn<'_>) -> Result<Option<(KC::DItem, DC::DItem)>>
    where
        KC: BytesDecode<'t>,
        DC: BytesDecode<'t>,
    {
        self.map(t)?.iter().next_back().map(decode::<KC, DC>).transpose()
    }
    pub fn iter<'t>(&self, t: &'t RoTxn<'_>) -> Result<Iter<'t, KC, DC>> {
        Ok(Iter { it: Box::new(self.map(t)?.iter()), _p: PhantomData })
    }
    pub fn rev_iter<'t>(&self, t: &'t RoTxn<'_>) -> Result<Iter<'t, KC, DC>> {
        Ok(Iter { it: Box::new(self.map(t)?.iter().rev()), _p: PhantomData })
    }
    pub fn range<'a, 't, R>(&self, t: &'t RoTxn<'_>, range: &'a R) -> Result<Iter<'t, KC, DC>>
    where
        KC: BytesEncode<'a>,
        R: RangeBounds<KC::EItem>,
    {
        let (lo, hi) = Self::bounds(range)?;
        let m = self.map(t)?;
        if empty(&lo, &hi) {
            return Ok(Iter { it: Box::new(std::iter::empty()), _p: PhantomData });
        }
        Ok(Iter { it: Box::new(m.range((lo, hi))), _p: PhantomData })
    }
    pub fn prefix_iter<'a, 't>(&self, t: &'t RoTxn<'_>, prefix: &'a KC::EItem) -> Result<Iter<'t, KC, DC>>
    where
        KC: BytesEncode<'a>,
    {
        let p = KC::bytes_encode(prefix).map_err(Error::Encoding)?.into_owned();
        let m = self.map(t)?;
        let it = m.range((Bound::Included(p.clone()), Bound::Unbounded)).take_while(move |(k, _)| k.starts_with(&p));
        Ok(Iter { it: Box::new(it), _p: PhantomData })
    }
}
fn decode<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>>((k, v): (&'t Vec<u8>, &'t Vec<u8>)) -> Result<(KC::DItem, DC::DItem)> {
    Ok((KC::bytes_decode(k).map_err(Error::Decoding)?, DC::bytes_decode(v).map_err(Error::Decoding)?))
}
pub struct Iter<'t, KC, DC> {
    it: Box<dyn Iterator<Item = (&'t Vec<u8>, &'t Vec<u8>)> + 't>,
    _p: PhantomData<(KC, DC)>,
}
impl<'t, KC: BytesDecode<'t>, DC: BytesDecode<'t>> Iterator for Iter<'t, KC, DC> {
    type Item = Result<(KC::DItem, DC::DItem)>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(decode::<KC, DC>)
    }
}
