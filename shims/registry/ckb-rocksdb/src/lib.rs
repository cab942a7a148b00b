//! Stand-in for `ckb-rocksdb` (the C++ library is not available offline).
//!
//! An ordered in-memory store per database path, which outlives the `DB` handle (so a test can
//! "restart"), with two things a monitor needs and the real library does not offer:
//!  * every write operation (one put, one delete, or one atomic batch) is journaled, and
//!    `shim::crash_image(path, n, new_path)` creates the database a crash after the n-th write leaves;
//!  * `shim::fail_writes_after(path, Some(n))` makes every write after the n-th return an error.
//! With ROCKS_FILES set in the environment the journal is also appended to `<path>/journal`, one write(2) per write
//! operation, and replayed by the next process that opens the path; a torn record at the end is dropped, as
//! RocksDB drops a torn record at the end of its log.
//! Reads return exactly what the last write stored; batches are atomic; iteration is in key order and,
//! as with RocksDB without a prefix extractor, a prefix iterator seeks to the prefix and runs to the end.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn new(message: String) -> Self {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}

type Cf = BTreeMap<Vec<u8>, Vec<u8>>;
type WriteOp = Vec<(String, Vec<u8>, Option<Vec<u8>>)>;

#[derive(Default, Clone)]
struct Store {
    cfs: BTreeMap<String, Cf>,
    journal: Vec<WriteOp>,
    fail_after: Option<usize>,
    file: Option<Arc<std::fs::File>>,
}

/// With ROCKS_KILL_AT=n the process is killed instead of its write number n (counted from 0).
fn kill_at() {
    use std::sync::atomic::{AtomicU64, Ordering};
    static LEFT: OnceLock<Option<AtomicU64>> = OnceLock::new();
    let left = LEFT.get_or_init(|| std::env::var("ROCKS_KILL_AT").ok()?.parse().ok().map(AtomicU64::new));
    if let Some(n) = left {
        if n.fetch_sub(1, Ordering::SeqCst) == 0 {
            unsafe {
                kill(std::process::id() as i32, 9);
            }
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
    }
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}
fn take<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
    let r = b.get(4..4 + n)?;
    *b = &b[4 + n..];
    Some(r)
}
fn encode(op: &WriteOp) -> Vec<u8> {
    let mut body = vec![];
    for (cf, k, v) in op {
        put(&mut body, cf.as_bytes());
        put(&mut body, k);
        body.push(v.is_some() as u8);
        put(&mut body, v.as_deref().unwrap_or_default());
    }
    let mut out = vec![];
    put(&mut out, &body);
    out
}
fn decode(mut body: &[u8]) -> Option<WriteOp> {
    let mut op = vec![];
    while !body.is_empty() {
        let cf = String::from_utf8(take(&mut body)?.to_vec()).ok()?;
        let k = take(&mut body)?.to_vec();
        let some = *body.first()?;
        body = &body[1..];
        let v = take(&mut body)?.to_vec();
        op.push((cf, k, (some == 1).then_some(v)));
    }
    Some(op)
}

impl Store {
    fn load(path: &Path) -> Result<Store, Error> {
        use std::io::{Seek, SeekFrom};
        let io = |e: std::io::Error| Error::new(format!("IO error: {path:?}: {e}"));
        let mut st = Store::default();
        std::fs::create_dir_all(path).map_err(io)?;
        let file = path.join("journal");
        let bytes = std::fs::read(&file).unwrap_or_default();
        let mut rest = &bytes[..];
        while let Some(op) = take(&mut rest).and_then(decode) {
            for (cf, ..) in &op {
                st.cfs.entry(cf.clone()).or_default();
            }
            st.apply(op)?;
        }
        let mut f = std::fs::OpenOptions::new().create(true).write(true).open(&file).map_err(io)?;
        f.set_len((bytes.len() - rest.len()) as u64).map_err(io)?;
        f.seek(SeekFrom::End(0)).map_err(io)?;
        st.file = Some(Arc::new(f));
        Ok(st)
    }
    fn apply(&mut self, op: WriteOp) -> Result<(), Error> {
        if let Some(n) = self.fail_after {
            if self.journal.len() >= n {
                return Err(Error::new("IO error: injected write failure".into()));
            }
        }
        if let Some(mut f) = self.file.as_deref() {
            use std::io::Write;
            kill_at();
            f.write_all(&encode(&op)).map_err(|e| Error::new(format!("IO error: {e}")))?;
        }
        for (cf, k, v) in &op {
            let cf = self.cfs.get_mut(cf).ok_or_else(|| Error::new(format!("no column family {cf}")))?;
            match v {
                Some(v) => cf.insert(k.clone(), v.clone()),
                None => cf.remove(k),
            };
        }
        self.journal.push(op);
        Ok(())
    }
}

fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<RwLock<Store>>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Arc<RwLock<Store>>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

pub mod shim {
    use super::*;
    pub fn journal_len(path: impl AsRef<Path>) -> usize {
        registry().lock().unwrap().get(path.as_ref()).map(|s| s.read().unwrap().journal.len()).unwrap_or(0)
    }
    /// The keys (column family, key) written by the i-th journaled write.
    pub fn journal_entry(path: impl AsRef<Path>, i: usize) -> Vec<(String, Vec<u8>, bool)> {
        registry().lock().unwrap().get(path.as_ref()).map_or(vec![], |s| {
            s.read().unwrap().journal[i].iter().map(|(c, k, v)| (c.clone(), k.clone(), v.is_some())).collect()
        })
    }
    pub fn crash_image(path: impl AsRef<Path>, n: usize, new_path: impl AsRef<Path>) {
        let mut r = registry().lock().unwrap();
        let src = r.get(path.as_ref()).expect("no such db").read().unwrap().clone();
        let mut st = Store::default();
        for cf in src.cfs.keys() {
            st.cfs.insert(cf.clone(), Cf::new());
        }
        for op in src.journal.into_iter().take(n) {
            st.apply(op).unwrap();
        }
        r.insert(new_path.as_ref().to_owned(), Arc::new(RwLock::new(st)));
    }
    pub fn fail_writes_after(path: impl AsRef<Path>, n: Option<usize>) {
        if let Some(s) = registry().lock().unwrap().get(path.as_ref()) {
            s.write().unwrap().fail_after = n;
        }
    }
    pub fn destroy(path: impl AsRef<Path>) {
        registry().lock().unwrap().remove(path.as_ref());
    }
    pub fn dump(path: impl AsRef<Path>) -> BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>> {
        registry().lock().unwrap().get(path.as_ref()).map(|s| s.read().unwrap().cfs.clone()).unwrap_or_default()
    }
}

#[derive(Clone, Default, Debug)]
pub struct Options {
    create_if_missing: bool,
    create_missing_cfs: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_cfs = v;
    }
    pub fn set_max_open_files(&mut self, _n: i32) {}
}

#[derive(Clone, Debug)]
pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new(name: impl Into<String>, _o: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}

pub struct FullOptions {
    pub db_opts: Options,
    pub cf_descriptors: Vec<ColumnFamilyDescriptor>,
}
impl FullOptions {
    pub fn load_from_file(_p: impl AsRef<Path>, _c: Option<usize>, _i: bool) -> Result<Self, Error> {
        Ok(FullOptions { db_opts: Options::default(), cf_descriptors: vec![] })
    }
    pub fn complete_column_families(&mut self, names: &[&str], _ignore: bool) -> Result<(), Error> {
        for n in names {
            if !self.cf_descriptors.iter().any(|d| d.name == *n) {
                self.cf_descriptors.push(ColumnFamilyDescriptor::new(*n, Options::default()));
            }
        }
        Ok(())
    }
}

#[derive(Debug)]
pub struct ColumnFamily {
    name: String,
}

pub struct DBVector(Vec<u8>);
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Mutex<WriteOp>,
}
#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn set_sync(&mut self, _v: bool) {}
}

pub struct DBIterator<'a> {
    items: std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> Iterator for DBIterator<'a> {
    type Item = (Box<[u8]>, Box<[u8]>);
    fn next(&mut self) -> Option<Self::Item> {
        self.items.next()
    }
}

pub struct DB {
    path: PathBuf,
    cfs: BTreeMap<String, ColumnFamily>,
    store: Arc<RwLock<Store>>,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "DB({:?})", self.path)
    }
}

impl DB {
    pub fn open_cf_descriptors(
        opts: &Options,
        path: impl AsRef<Path>,
        cfs: Vec<ColumnFamilyDescriptor>,
    ) -> Result<DB, Error> {
        let path = path.as_ref().to_owned();
        let mut r = registry().lock().unwrap();
        let files = std::env::var_os("ROCKS_FILES").is_some();
        if files && !r.contains_key(&path) && (opts.create_if_missing || path.join("journal").exists()) {
            r.insert(path.clone(), Arc::new(RwLock::new(Store::load(&path)?)));
        }
        if !r.contains_key(&path) {
            if !opts.create_if_missing {
                return Err(Error::new(format!("Invalid argument: {path:?} does not exist (create_if_missing is false)")));
            }
            r.insert(path.clone(), Default::default());
        }
        let store = Arc::clone(&r[&path]);
        {
            let mut st = store.write().unwrap();
            for d in &cfs {
                st.cfs.entry(d.name.clone()).or_default();
            }
        }
        Ok(DB {
            path,
            cfs: cfs.into_iter().map(|d| (d.name.clone(), ColumnFamily { name: d.name })).collect(),
            store,
        })
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    // what core-db and core-executor reach through the ops traits
    pub(crate) fn apply(&self, op: WriteOp) -> Result<(), Error> {
        self.store.write().unwrap().apply(op)
    }
}

pub mod ops {
    use super::*;

    pub trait OpenCF {}
    pub trait GetColumnFamilys {
        fn cf_handle(&self, name: &str) -> Option<&ColumnFamily>;
    }
    impl GetColumnFamilys for DB {
        fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
            self.cfs.get(name)
        }
    }
    pub trait GetCF {
        fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error>;
    }
    impl GetCF for DB {
        fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error> {
            let st = self.store.read().unwrap();
            Ok(st.cfs.get(&cf.name).and_then(|m| m.get(key.as_ref())).map(|v| DBVector(v.clone())))
        }
    }
    pub trait PutCF {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, val: V) -> Result<(), Error>;
    }
    impl PutCF for DB {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, val: V) -> Result<(), Error> {
            self.apply(vec![(cf.name.clone(), key.as_ref().to_vec(), Some(val.as_ref().to_vec()))])
        }
    }
    impl WriteBatch {
        pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, key: K, val: V) -> Result<(), Error> {
            self.ops.lock().unwrap().push((cf.name.clone(), key.as_ref().to_vec(), Some(val.as_ref().to_vec())));
            Ok(())
        }
        pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
            self.ops.lock().unwrap().push((cf.name.clone(), key.as_ref().to_vec(), None));
            Ok(())
        }
    }
    pub trait DeleteCF {
        fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error>;
    }
    impl DeleteCF for DB {
        fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
            self.apply(vec![(cf.name.clone(), key.as_ref().to_vec(), None)])
        }
    }
    pub trait WriteOps {
        fn write(&self, b: &WriteBatch) -> Result<(), Error>;
        fn write_opt(&self, b: &WriteBatch, o: &WriteOptions) -> Result<(), Error>;
    }
    impl WriteOps for DB {
        fn write(&self, b: &WriteBatch) -> Result<(), Error> {
            self.apply(b.ops.lock().unwrap().clone())
        }
        fn write_opt(&self, b: &WriteBatch, _o: &WriteOptions) -> Result<(), Error> {
            self.write(b)
        }
    }
    pub trait IterateCF {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, cf: &ColumnFamily, p: P) -> Result<DBIterator<'a>, Error>;
    }
    impl IterateCF for DB {
        fn prefix_iterator_cf<'a, P: AsRef<[u8]>>(&'a self, cf: &ColumnFamily, p: P) -> Result<DBIterator<'a>, Error> {
            let st = self.store.read().unwrap();
            let items: Vec<_> = st
                .cfs
                .get(&cf.name)
                .map(|m| {
                    m.range(p.as_ref().to_vec()..)
                        .map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice()))
                        .collect()
                })
                .unwrap_or_default();
            Ok(DBIterator { items: items.into_iter(), _p: std::marker::PhantomData })
        }
    }
}
