//! The systems under test, behind one byte-string interface.
use crate::hasher::Ideal;
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{
    Branch, Data, Database, Decode, Encode, Exception, Hasher, Leaf, Node, NodeVariant,
};
use starling::tree::tree_branch::TreeBranch;
use starling::tree::tree_data::TreeData;
use starling::tree::tree_leaf::TreeLeaf;
use starling::tree::tree_node::TreeNode;
use starling::tree_db::HashTreeDB;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
#[cfg(feature = "rocksdb")]
use std::path::PathBuf;
use std::rc::Rc;

pub type B = Vec<u8>;

#[derive(Clone, Debug)]
pub enum Fail {
    Err(String),
    Panic(String),
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fail::Err(s) => write!(f, "error `{s}`"),
            Fail::Panic(s) => write!(f, "panic `{s}`"),
        }
    }
}
pub type Res<T> = Result<T, Fail>;

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
    /// set by a store whose encoding did not give back the node it was given
    pub static CODEC: RefCell<Option<String>> = RefCell::new(None);
    /// values of the caller's own type are stored as they are
    pub static PLAIN: Cell<bool> = Cell::new(false);
    pub static CODEC_N: Cell<u64> = Cell::new(0);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, Exception>) -> Res<T> {
    crate::watch::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::watch::leave();
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fail::Err(e.to_string())),
        Err(_) => Err(Fail::Panic(PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn arr<const N: usize>(b: &[u8]) -> Array<N> {
    let a: [u8; N] = b.try_into().expect("key width");
    a.into()
}
#[allow(clippy::useless_conversion)]
pub fn unarr<const N: usize>(a: Array<N>) -> B {
    let x: [u8; N] = a.into();
    x.to_vec()
}
#[allow(clippy::useless_conversion)]
fn raw<const N: usize>(a: Array<N>) -> [u8; N] {
    a.into()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Branch { count: u64, zero: B, one: B, split: usize, key: B },
    Leaf { key: B, data: B },
    Data { value: B },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NodeV {
    pub refs: u64,
    pub v: V,
}
pub type Snap = HashMap<B, NodeV>;

pub fn view<const N: usize>(n: &TreeNode<N>) -> NodeV {
    let refs = n.get_references();
    let v = match n.clone().get_variant() {
        NodeVariant::Branch(b) => V::Branch {
            count: b.get_count(),
            zero: unarr(*b.get_zero()),
            one: unarr(*b.get_one()),
            split: b.get_split_index(),
            key: unarr(*b.get_key()),
        },
        NodeVariant::Leaf(l) => V::Leaf { key: unarr(*l.get_key()), data: unarr(*l.get_data()) },
        NodeVariant::Data(d) => V::Data { value: d.get_value().to_vec() },
        #[allow(unreachable_patterns)]
        _ => panic!("unknown node variant"),
    };
    NodeV { refs, v }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// every write takes effect at once (the in-memory maps)
    Immediate,
    /// puts take effect at the commit, deletes at once (the on-disk store)
    StagedPuts,
    /// puts and deletes take effect at the commit
    StagedAll,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// this operation fails, later ones succeed
    Once,
    /// this operation and all later ones fail, as when the process dies
    Dead,
}

pub trait Sut {
    fn get(&self, root: &[u8], keys: &[B]) -> Res<Vec<(B, Option<B>)>>;
    fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<B>>;
    fn insert(&mut self, base: Option<&[u8]>, keys: &[B], vals: &[B]) -> Res<B>;
    fn insert_one(&mut self, base: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<B>;
    fn remove(&mut self, root: &[u8]) -> Res<()>;
    fn prove(&self, root: &[u8], key: &[u8]) -> Res<Vec<(B, bool)>>;
    fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()>;
    /// are there values (namely BAD) that cannot be encoded?
    fn refuses(&self) -> bool {
        false
    }
    /// the stored form of a value
    fn enc(&self, val: &[u8]) -> B {
        val.to_vec()
    }
    /// an independent copy with the same durable contents
    fn fork(&mut self) -> Option<Box<dyn Sut>> {
        None
    }
    /// the durable contents
    fn snapshot(&mut self) -> Option<Snap> {
        None
    }
    /// close and open again: only durable contents survive
    fn reopen(&mut self) -> Res<bool> {
        Ok(false)
    }
    /// make anything still pending durable (to expose what a rejected call left behind)
    fn flush(&mut self) {}
    fn fault(&mut self, _at: Option<u64>, _kind: FaultKind) {}
    /// storage operations since the last call of `fault`, and whether it fired
    fn ops(&self) -> (u64, bool) {
        (0, false)
    }
    /// a value for its stored form
    fn dec(&self, stored: &[u8]) -> B {
        stored.to_vec()
    }
    fn last_snapshot(self: Box<Self>) -> Option<Snap> {
        None
    }
    /// open the store again, so that it cannot be written, or so that it can
    fn seal(&mut self, _sealed: bool) -> Res<bool> {
        Ok(false)
    }
    /// put these bytes where a node is stored; what was there
    fn spoil(&mut self, _location: &[u8], _bytes: &[u8]) -> Option<B> {
        None
    }
}

//------------------------------------------------------------------------------------------------
// A store supplied by the caller

#[cfg(not(feature = "ser"))]
type Stored<const N: usize> = TreeNode<N>;
#[cfg(feature = "ser")]
type Stored<const N: usize> = Vec<u8>;

#[cfg(not(feature = "ser"))]
fn store<const N: usize>(n: TreeNode<N>) -> Result<Stored<N>, Exception> {
    Ok(n)
}
#[cfg(not(feature = "ser"))]
fn load<const N: usize>(s: &Stored<N>) -> Result<TreeNode<N>, Exception> {
    Ok(s.clone())
}
#[cfg(feature = "ser")]
fn store<const N: usize>(n: TreeNode<N>) -> Result<Stored<N>, Exception> {
    let bytes = n.encode()?;
    CODEC_N.with(|c| c.set(c.get() + 1));
    let back = TreeNode::<N>::decode(&bytes);
    let bad = match &back {
        Ok(b) if *b == n => None,
        Ok(b) => Some(format!("{:?} was read back as {:?}", view(&n), view(b))),
        Err(e) => Some(format!("{:?} could not be read back: {e}", view(&n))),
    };
    if let Some(mut s) = bad {
        s.truncate(2000);
        CODEC.with(|c| c.borrow_mut().get_or_insert(s).len());
    }
    Ok(bytes)
}
#[cfg(feature = "ser")]
fn load<const N: usize>(s: &Stored<N>) -> Result<TreeNode<N>, Exception> {
    TreeNode::decode(s)
}

pub struct Mem<const N: usize> {
    map: HashMap<[u8; N], Stored<N>>,
    pending: Vec<([u8; N], Option<Stored<N>>)>,
    mode: Mode,
    count: Cell<u64>,
    at: Option<u64>,
    kind: FaultKind,
    fired: Cell<bool>,
}

impl<const N: usize> Mem<N> {
    fn new(mode: Mode) -> Self {
        Mem {
            map: HashMap::new(),
            pending: Vec::new(),
            mode,
            count: Cell::new(0),
            at: None,
            kind: FaultKind::Once,
            fired: Cell::new(false),
        }
    }
    fn copy(&self) -> Self {
        Mem { map: self.map.clone(), ..Mem::new(self.mode) }
    }
    fn tick(&self) -> Result<(), Exception> {
        let c = self.count.get();
        self.count.set(c + 1);
        let hit = match self.at {
            None => false,
            Some(a) => c == a || (self.kind == FaultKind::Dead && c > a),
        };
        if hit {
            self.fired.set(true);
            return Err(Exception::new("storage failure"));
        }
        Ok(())
    }
    fn commit(&mut self) {
        for (k, v) in std::mem::take(&mut self.pending) {
            match v {
                Some(v) => self.map.insert(k, v),
                None => self.map.remove(&k),
            };
        }
    }
}

pub struct MemDb<const N: usize>(Rc<RefCell<Mem<N>>>);

impl<const N: usize> Database<N, TreeNode<N>> for MemDb<N> {
    type EntryType = ();
    fn open(_path: &Path) -> Result<Self, Exception> {
        Ok(MemDb(Rc::new(RefCell::new(Mem::new(Mode::Immediate)))))
    }
    fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
        let m = self.0.borrow();
        m.tick()?;
        match m.map.get(&raw(key)) {
            Some(s) => Ok(Some(load(s)?)),
            None => Ok(None),
        }
    }
    fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
        let mut m = self.0.borrow_mut();
        m.tick()?;
        let s = store(node)?;
        if m.mode == Mode::Immediate {
            m.map.insert(raw(key), s);
        } else {
            m.pending.push((raw(key), Some(s)));
        }
        Ok(())
    }
    fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
        let mut m = self.0.borrow_mut();
        m.tick()?;
        if m.mode == Mode::StagedAll {
            m.pending.push((raw(*key), None));
        } else {
            m.map.remove(&raw(*key));
        }
        Ok(())
    }
    fn batch_write(&mut self) -> Result<(), Exception> {
        let mut m = self.0.borrow_mut();
        m.tick()?;
        m.commit();
        Ok(())
    }
}

/// the one value of the caller's own type that cannot be encoded
pub const BAD: &[u8] = b"\xde\xad no encoding \x01\x02";

/// A value whose stored form differs from its bytes
pub struct XVal(pub B);
impl XVal {
    fn enc(v: &[u8]) -> B {
        if PLAIN.with(Cell::get) {
            return v.to_vec();
        }
        let mut o = Vec::with_capacity(v.len() + 1);
        o.push(0x5A);
        o.extend(v.iter().rev().map(|b| b ^ 0x33));
        o
    }
}
impl Encode for XVal {
    fn encode(&self) -> Result<Vec<u8>, Exception> {
        if self.0 == BAD {
            return Err(Exception::new("this value has no encoding"));
        }
        Ok(XVal::enc(&self.0))
    }
}
impl Decode for XVal {
    fn decode(buffer: &[u8]) -> Result<Self, Exception> {
        if PLAIN.with(Cell::get) {
            return Ok(XVal(buffer.to_vec()));
        }
        if buffer.first() != Some(&0x5A) {
            return Err(Exception::new("not an encoded value"));
        }
        Ok(XVal(buffer[1..].iter().rev().map(|b| b ^ 0x33).collect()))
    }
}

pub struct CoreTree<const N: usize, H>(PhantomData<H>);
impl<const N: usize, H: Hasher<N>> MerkleTree<N> for CoreTree<N, H> {
    type Database = MemDb<N>;
    type Branch = TreeBranch<N>;
    type Leaf = TreeLeaf<N>;
    type Data = TreeData;
    type Node = TreeNode<N>;
    type Hasher = H;
    type Value = XVal;
}

macro_rules! common_calls {
    ($wrap:expr, $unwrap:expr) => {
        fn get(&self, root: &[u8], keys: &[B]) -> Res<Vec<(B, Option<B>)>> {
            let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
            let r = guard(|| self.tree().get(&arr(root), &mut ks))?;
            Ok(r.into_iter().map(|(k, v)| (unarr(k), v.map($unwrap))).collect())
        }
        fn get_one(&self, root: &[u8], key: &[u8]) -> Res<Option<B>> {
            Ok(guard(|| self.tree().get_one(&arr(root), &arr(key)))?.map($unwrap))
        }
        fn insert(&mut self, base: Option<&[u8]>, keys: &[B], vals: &[B]) -> Res<B> {
            let mut ks: Vec<Array<N>> = keys.iter().map(|k| arr(k)).collect();
            let vs: Vec<_> = vals.iter().map(|v| $wrap(v.to_vec())).collect();
            let base: Option<Array<N>> = base.map(arr);
            Ok(unarr(guard(|| self.tree_mut().insert(base.as_ref(), &mut ks, &vs))?))
        }
        fn insert_one(&mut self, base: Option<&[u8]>, key: &[u8], val: &[u8]) -> Res<B> {
            let base: Option<Array<N>> = base.map(arr);
            let v = $wrap(val.to_vec());
            Ok(unarr(guard(|| self.tree_mut().insert_one(base.as_ref(), &arr(key), &v))?))
        }
        fn remove(&mut self, root: &[u8]) -> Res<()> {
            guard(|| self.tree_mut().remove(&arr(root)))
        }
        fn prove(&self, root: &[u8], key: &[u8]) -> Res<Vec<(B, bool)>> {
            let p = guard(|| self.tree().generate_inclusion_proof(&arr(root), arr(key)))?;
            Ok(p.into_iter().map(|(h, s)| (unarr(h), s)).collect())
        }
    };
}

pub struct Core<const N: usize, H: Hasher<N>> {
    tree: MerkleBIT<CoreTree<N, H>, N>,
    mem: Rc<RefCell<Mem<N>>>,
    depth: usize,
}
impl<const N: usize, H: Hasher<N> + 'static> Core<N, H> {
    fn over(mem: Mem<N>, depth: usize) -> Self {
        let mem = Rc::new(RefCell::new(mem));
        let tree = MerkleBIT::from_db(MemDb(mem.clone()), depth).expect("from_db");
        Core { tree, mem, depth }
    }
    pub fn new(mode: Mode, depth: usize) -> Self {
        Self::over(Mem::new(mode), depth)
    }
    fn tree(&self) -> &MerkleBIT<CoreTree<N, H>, N> {
        &self.tree
    }
    fn tree_mut(&mut self) -> &mut MerkleBIT<CoreTree<N, H>, N> {
        &mut self.tree
    }
}
impl<const N: usize, H: Hasher<N> + 'static> Sut for Core<N, H> {
    common_calls!(XVal, |x: XVal| x.0);
    fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
        let p: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| (arr(h), *s)).collect();
        let v = XVal(val.to_vec());
        guard(|| MerkleBIT::<CoreTree<N, H>, N>::verify_inclusion_proof(&arr(root), arr(key), &v, &p))
    }
    fn refuses(&self) -> bool {
        true
    }
    fn enc(&self, val: &[u8]) -> B {
        XVal::enc(val)
    }
    fn dec(&self, stored: &[u8]) -> B {
        XVal::decode(stored).map(|x| x.0).unwrap_or_else(|_| stored.to_vec())
    }
    fn fork(&mut self) -> Option<Box<dyn Sut>> {
        Some(Box::new(Core::<N, H>::over(self.mem.borrow().copy(), self.depth)))
    }
    fn snapshot(&mut self) -> Option<Snap> {
        let m = self.mem.borrow();
        let mut s = Snap::with_capacity(m.map.len());
        for (k, v) in &m.map {
            match load::<N>(v) {
                Ok(n) => s.insert(k.to_vec(), view(&n)),
                Err(_) => None,
            };
        }
        Some(s)
    }
    fn reopen(&mut self) -> Res<bool> {
        let copy = self.mem.borrow().copy();
        *self = Self::over(copy, self.depth);
        Ok(true)
    }
    fn flush(&mut self) {
        self.mem.borrow_mut().commit();
    }
    fn fault(&mut self, at: Option<u64>, kind: FaultKind) {
        let mut m = self.mem.borrow_mut();
        m.count.set(0);
        m.fired.set(false);
        m.at = at;
        m.kind = kind;
    }
    fn ops(&self) -> (u64, bool) {
        let m = self.mem.borrow();
        (m.count.get(), m.fired.get())
    }
}

//------------------------------------------------------------------------------------------------
// The crate's in-memory store under the generic tree

pub struct CrateHash<const N: usize> {
    tree: Option<MerkleBIT<HashTree<N>, N>>,
}
impl<const N: usize> CrateHash<N> {
    pub fn new(depth: usize) -> Res<Self> {
        let tree = guard(|| MerkleBIT::new(Path::new(""), depth))?;
        Ok(CrateHash { tree: Some(tree) })
    }
    fn tree(&self) -> &MerkleBIT<HashTree<N>, N> {
        self.tree.as_ref().expect("tree")
    }
    fn tree_mut(&mut self) -> &mut MerkleBIT<HashTree<N>, N> {
        self.tree.as_mut().expect("tree")
    }
}
impl<const N: usize> Sut for CrateHash<N> {
    common_calls!(|v: Vec<u8>| v, |v: Vec<u8>| v);
    fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
        let p: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| (arr(h), *s)).collect();
        let v = val.to_vec();
        guard(|| MerkleBIT::<HashTree<N>, N>::verify_inclusion_proof(&arr(root), arr(key), &v, &p))
    }
    fn fork(&mut self) -> Option<Box<dyn Sut>> {
        let (db, depth) = self.tree.take().expect("tree").decompose();
        let map = db.decompose();
        let copy = MerkleBIT::from_db(HashTreeDB::new(map.clone()), depth).ok();
        self.tree = MerkleBIT::from_db(HashTreeDB::new(map), depth).ok();
        Some(Box::new(CrateHash::<N> { tree: copy }))
    }
    fn snapshot(&mut self) -> Option<Snap> {
        let (db, depth) = self.tree.take().expect("tree").decompose();
        let map = db.decompose();
        let s = map.iter().map(|(k, v)| (unarr(*k), view(v))).collect();
        self.tree = MerkleBIT::from_db(HashTreeDB::new(map), depth).ok();
        Some(s)
    }
    fn reopen(&mut self) -> Res<bool> {
        let (db, depth) = self.tree.take().expect("tree").decompose();
        let map = db.decompose();
        self.tree = Some(guard(|| MerkleBIT::from_db(HashTreeDB::new(map), depth))?);
        Ok(true)
    }
}

//------------------------------------------------------------------------------------------------
// The in-memory tree users are given

pub struct Wrapped<const N: usize>(HashTree<N>);
impl<const N: usize> Wrapped<N> {
    pub fn new(depth: usize, open: bool) -> Res<Self> {
        Ok(Wrapped(guard(|| {
            if open {
                HashTree::open(Path::new("unused"), depth)
            } else {
                HashTree::new(depth)
            }
        })?))
    }
    fn tree(&self) -> &HashTree<N> {
        &self.0
    }
    fn tree_mut(&mut self) -> &mut HashTree<N> {
        &mut self.0
    }
}
impl<const N: usize> Sut for Wrapped<N> {
    common_calls!(|v: Vec<u8>| v, |v: Vec<u8>| v);
    fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
        let p: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| (arr(h), *s)).collect();
        let v = val.to_vec();
        guard(|| HashTree::<N>::verify_inclusion_proof(&arr(root), arr(key), &v, &p))
    }
    /// a value for its stored form
    fn dec(&self, stored: &[u8]) -> B {
        stored.to_vec()
    }
    fn last_snapshot(self: Box<Self>) -> Option<Snap> {
        let (db, _) = self.0.decompose();
        Some(db.decompose().iter().map(|(k, v)| (unarr(*k), view(v))).collect())
    }
}

//------------------------------------------------------------------------------------------------
// The on-disk tree

#[cfg(feature = "rocksdb")]
pub mod rocks {
    use super::*;
    use starling::rocks_tree::RocksTree;
    use starling::tree_db::rocksdb::RocksDB;

    pub struct Rocks<const N: usize> {
        tree: Option<RocksTree<N>>,
        path: PathBuf,
        depth: usize,
    }
    impl<const N: usize> Rocks<N> {
        pub fn new(path: PathBuf, depth: usize) -> Res<Self> {
            let tree = guard(|| RocksTree::open(&path, depth))?;
            Ok(Rocks { tree: Some(tree), path, depth })
        }
        fn tree(&self) -> &RocksTree<N> {
            self.tree.as_ref().expect("tree")
        }
        fn tree_mut(&mut self) -> &mut RocksTree<N> {
            self.tree.as_mut().expect("tree")
        }
    }
    impl<const N: usize> Drop for Rocks<N> {
        fn drop(&mut self) {
            self.tree = None;
            let _ = std::fs::remove_dir_all(&self.path);
        }
    }
    impl<const N: usize> Sut for Rocks<N> {
        common_calls!(|v: Vec<u8>| v, |v: Vec<u8>| v);
        fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
            let p: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| (arr(h), *s)).collect();
            let v = val.to_vec();
            guard(|| RocksTree::<N>::verify_inclusion_proof(&arr(root), arr(key), &v, &p))
        }
        fn snapshot(&mut self) -> Option<Snap> {
            let (db, depth) = self.tree.take().expect("tree").decompose();
            let raw = db.decompose();
            let mut s = Snap::new();
            for (k, v) in raw.iterator(rocksdb::IteratorMode::Start) {
                match TreeNode::<N>::decode(&v) {
                    Ok(n) => s.insert(k.to_vec(), view(&n)),
                    Err(_) => None,
                };
            }
            self.tree = RocksTree::from_db(RocksDB::new(raw), depth).ok();
            Some(s)
        }
        fn reopen(&mut self) -> Res<bool> {
            self.tree = None;
            self.tree = Some(guard(|| RocksTree::open(&self.path, self.depth))?);
            Ok(true)
        }
        fn seal(&mut self, sealed: bool) -> Res<bool> {
            if !sealed {
                return self.reopen();
            }
            self.tree = None;
            let db = rocksdb::DB::open_for_read_only(&rocksdb::Options::default(), &self.path, false).expect("opening the files read-only");
            self.tree = Some(guard(|| RocksTree::from_db(RocksDB::new(db), self.depth))?);
            Ok(true)
        }
        fn spoil(&mut self, location: &[u8], bytes: &[u8]) -> Option<B> {
            let (db, depth) = self.tree.take().expect("tree").decompose();
            let raw = db.decompose();
            let was = raw.get(location).expect("reading the raw store");
            raw.put(location, bytes).expect("writing the raw store");
            self.tree = RocksTree::from_db(RocksDB::new(raw), depth).ok();
            was
        }
    }
}

/// The on-disk store under the generic tree, in a process that dies: at a chosen storage operation
/// the files are put aside as they are then, and it is from those that the store is opened again.
#[cfg(feature = "rocksdb")]
pub mod dying {
    use super::{arr, guard, unarr, view, *};
    use starling::tree_db::rocksdb::RocksDB;

    struct Ctl {
        count: Cell<u64>,
        at: Cell<Option<u64>>,
        kind: Cell<FaultKind>,
        fired: Cell<bool>,
        path: PathBuf,
        aside: PathBuf,
    }

    /// What a process leaves behind that dies now.  The store's own threads may be writing, joining
    /// or removing files at the same time: a copy counts only if nothing changed while it was made.
    fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
        for i in 0..600 {
            let before = state(from);
            if before.is_ok() && copy_once(from, to).is_ok() && before.ok() == state(from).ok() {
                return Ok(());
            }
            std::thread::sleep(std::time::Duration::from_millis(1 + i / 10));
        }
        eprintln!("the files of the store never come to rest");
        std::process::exit(3)
    }
    /// the files, but for the store's diary
    fn files(dir: &Path) -> std::io::Result<Vec<std::fs::DirEntry>> {
        let all = std::fs::read_dir(dir)?.collect::<std::io::Result<Vec<_>>>()?;
        Ok(all.into_iter().filter(|e| !e.file_name().to_string_lossy().starts_with("LOG")).collect())
    }
    fn state(dir: &Path) -> std::io::Result<Vec<(std::ffi::OsString, u64, std::time::SystemTime)>> {
        let mut v = Vec::new();
        for e in files(dir)? {
            let m = e.metadata()?;
            v.push((e.file_name(), m.len(), m.modified()?));
        }
        v.sort();
        Ok(v)
    }
    fn copy_once(from: &Path, to: &Path) -> std::io::Result<()> {
        let _ = std::fs::remove_dir_all(to);
        std::fs::create_dir_all(to)?;
        for e in files(from)? {
            if e.file_type()?.is_file() {
                std::fs::copy(e.path(), to.join(e.file_name()))?;
            }
        }
        Ok(())
    }

    impl Ctl {
        fn tick(&self) -> Result<(), Exception> {
            let c = self.count.get();
            self.count.set(c + 1);
            let hit = match self.at.get() {
                None => false,
                Some(a) => c == a || (self.kind.get() == FaultKind::Dead && c > a),
            };
            if hit {
                if !self.fired.get() && self.kind.get() == FaultKind::Dead {
                    copy_dir(&self.path, &self.aside).expect("copying the files of the store");
                }
                self.fired.set(true);
                return Err(Exception::new("storage failure"));
            }
            Ok(())
        }
    }

    pub struct DyingDb<const N: usize> {
        db: RocksDB<N>,
        ctl: Rc<Ctl>,
    }
    impl<const N: usize> Database<N, TreeNode<N>> for DyingDb<N> {
        type EntryType = ();
        fn open(_path: &Path) -> Result<Self, Exception> {
            Err(Exception::new("opened through from_db only"))
        }
        fn get_node(&self, key: Array<N>) -> Result<Option<TreeNode<N>>, Exception> {
            self.ctl.tick()?;
            self.db.get_node(key)
        }
        fn insert(&mut self, key: Array<N>, node: TreeNode<N>) -> Result<(), Exception> {
            self.ctl.tick()?;
            self.db.insert(key, node)
        }
        fn remove(&mut self, key: &Array<N>) -> Result<(), Exception> {
            self.ctl.tick()?;
            self.db.remove(key)
        }
        fn batch_write(&mut self) -> Result<(), Exception> {
            self.ctl.tick()?;
            self.db.batch_write()
        }
    }

    pub struct DyingTree<const N: usize>;
    impl<const N: usize> MerkleTree<N> for DyingTree<N> {
        type Database = DyingDb<N>;
        type Branch = TreeBranch<N>;
        type Leaf = TreeLeaf<N>;
        type Data = TreeData;
        type Node = TreeNode<N>;
        type Hasher = TreeHasher;
        type Value = XVal;
    }

    pub struct Dying<const N: usize> {
        tree: Option<MerkleBIT<DyingTree<N>, N>>,
        ctl: Rc<Ctl>,
        depth: usize,
        turn: u32,
    }
    impl<const N: usize> Dying<N> {
        pub fn new(path: PathBuf, depth: usize) -> Res<Self> {
            let aside = path.with_extension("aside");
            let ctl = Rc::new(Ctl {
                count: Cell::new(0),
                at: Cell::new(None),
                kind: Cell::new(FaultKind::Once),
                fired: Cell::new(false),
                path,
                aside,
            });
            let mut d = Dying { tree: None, ctl, depth, turn: 0 };
            d.open()?;
            Ok(d)
        }
        fn open(&mut self) -> Res<()> {
            let db = guard(|| RocksDB::open(&self.ctl.path))?;
            self.tree = Some(guard(|| MerkleBIT::from_db(DyingDb { db, ctl: self.ctl.clone() }, self.depth))?);
            Ok(())
        }
        fn tree(&self) -> &MerkleBIT<DyingTree<N>, N> {
            self.tree.as_ref().expect("tree")
        }
        fn tree_mut(&mut self) -> &mut MerkleBIT<DyingTree<N>, N> {
            self.tree.as_mut().expect("tree")
        }
    }
    impl<const N: usize> Drop for Dying<N> {
        fn drop(&mut self) {
            self.tree = None;
            let _ = std::fs::remove_dir_all(&self.ctl.path);
            let _ = std::fs::remove_dir_all(&self.ctl.aside);
        }
    }
    impl<const N: usize> Sut for Dying<N> {
        common_calls!(XVal, |x: XVal| x.0);
        fn verify(&self, root: &[u8], key: &[u8], val: &[u8], proof: &[(B, bool)]) -> Res<()> {
            let p: Vec<(Array<N>, bool)> = proof.iter().map(|(h, s)| (arr(h), *s)).collect();
            let v = XVal(val.to_vec());
            guard(|| MerkleBIT::<DyingTree<N>, N>::verify_inclusion_proof(&arr(root), arr(key), &v, &p))
        }
        fn refuses(&self) -> bool {
            true
        }
        fn enc(&self, val: &[u8]) -> B {
            XVal::enc(val)
        }
        fn dec(&self, stored: &[u8]) -> B {
            XVal::decode(stored).map(|x| x.0).unwrap_or_else(|_| stored.to_vec())
        }
        fn snapshot(&mut self) -> Option<Snap> {
            let (db, depth) = self.tree.take().expect("tree").decompose();
            let raw = db.db.decompose();
            let mut s = Snap::new();
            for (k, v) in raw.iterator(rocksdb::IteratorMode::Start) {
                match TreeNode::<N>::decode(&v) {
                    Ok(n) => s.insert(k.to_vec(), view(&n)),
                    Err(_) => None,
                };
            }
            let db = DyingDb { db: RocksDB::new(raw), ctl: self.ctl.clone() };
            self.tree = MerkleBIT::from_db(db, depth).ok();
            Some(s)
        }
        fn reopen(&mut self) -> Res<bool> {
            let c = self.ctl.clone();
            let dead = c.fired.get() && c.kind.get() == FaultKind::Dead && c.aside.exists();
            self.turn += 1;
            if !dead && self.turn % 2 == 0 {
                // the process dies between two calls
                copy_dir(&c.path, &c.aside).expect("copying the files of the store");
            }
            self.tree = None;
            if c.aside.exists() {
                std::fs::remove_dir_all(&c.path).expect("removing the old files");
                std::fs::rename(&c.aside, &c.path).expect("putting the files back");
            }
            c.at.set(None);
            self.open()?;
            Ok(true)
        }
        fn flush(&mut self) {
            if let Some(t) = self.tree.take() {
                let (mut db, depth) = t.decompose();
                let _ = db.db.batch_write();
                self.tree = MerkleBIT::from_db(db, depth).ok();
            }
        }
        fn fault(&mut self, at: Option<u64>, kind: FaultKind) {
            self.ctl.count.set(0);
            // `fault(None, _)' after a call must not forget how it died
            if at.is_some() {
                self.ctl.fired.set(false);
                self.ctl.kind.set(kind);
                let _ = std::fs::remove_dir_all(&self.ctl.aside);
            }
            self.ctl.at.set(at);
        }
        fn ops(&self) -> (u64, bool) {
            (self.ctl.count.get(), self.ctl.fired.get())
        }
    }
}

//------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// generic tree, caller's store, caller's ideal hash
    Ideal(Mode),
    /// generic tree, caller's store, the crate's hash
    Core(Mode),
    /// the same with values stored as they are
    Caller(Mode),
    /// generic tree, the crate's in-memory store
    CrateHash,
    /// the crate's in-memory tree
    Wrapped,
    /// the crate's on-disk tree
    Rocks,
    /// generic tree, the crate's on-disk store, in a process that dies
    Dying,
}

#[cfg(not(feature = "few"))]
pub const WIDTHS: &[usize] = &[1, 2, 3, 4, 7, 8, 16, 20, 31, 32, 33, 40, 64, 128, 300];
#[cfg(feature = "few")]
pub const WIDTHS: &[usize] = &[8, 20, 32, 33, 64];

fn build<const N: usize>(kind: Kind, depth: usize, dir: &Path) -> Res<Box<dyn Sut>> {
    let _ = dir;
    PLAIN.with(|p| p.set(matches!(kind, Kind::Caller(_))));
    Ok(match kind {
        Kind::Ideal(m) => Box::new(Core::<N, Ideal>::new(m, depth)),
        Kind::Core(m) | Kind::Caller(m) => Box::new(Core::<N, TreeHasher>::new(m, depth)),
        Kind::CrateHash => Box::new(CrateHash::<N>::new(depth)?),
        Kind::Wrapped => Box::new(Wrapped::<N>::new(depth, N % 2 == 0)?),
        #[cfg(feature = "rocksdb")]
        Kind::Rocks => Box::new(rocks::Rocks::<N>::new(dir.to_path_buf(), depth)?),
        #[cfg(feature = "rocksdb")]
        Kind::Dying => Box::new(dying::Dying::<N>::new(dir.to_path_buf(), depth)?),
        #[cfg(not(feature = "rocksdb"))]
        Kind::Rocks | Kind::Dying => return Err(Fail::Err("no on-disk store in this build".into())),
    })
}

/// the widths no real hash function is used with
#[cfg(not(feature = "few"))]
fn small<const N: usize>(kind: Kind, depth: usize) -> Res<Box<dyn Sut>> {
    PLAIN.with(|p| p.set(false));
    match kind {
        Kind::Ideal(m) => Ok(Box::new(Core::<N, Ideal>::new(m, depth))),
        k => panic!("key width {N} is not built for {k:?}"),
    }
}

/// keys with more than 65536 bits
pub const HUGE: usize = 16_400;

#[cfg(not(feature = "few"))]
fn huge<const N: usize>(kind: Kind, depth: usize) -> Res<Box<dyn Sut>> {
    PLAIN.with(|p| p.set(matches!(kind, Kind::Caller(_))));
    match kind {
        Kind::Core(m) | Kind::Caller(m) => Ok(Box::new(Core::<N, TreeHasher>::new(m, depth))),
        k => panic!("key width {N} is not built for {k:?}"),
    }
}

pub fn make(n: usize, kind: Kind, depth: usize, dir: &Path) -> Res<Box<dyn Sut>> {
    match n {
        #[cfg(not(feature = "few"))]
        1 => small::<1>(kind, depth),
        #[cfg(not(feature = "few"))]
        2 => small::<2>(kind, depth),
        #[cfg(not(feature = "few"))]
        3 => small::<3>(kind, depth),
        #[cfg(not(feature = "few"))]
        4 => small::<4>(kind, depth),
        #[cfg(not(feature = "few"))]
        7 => build::<7>(kind, depth, dir),
        8 => build::<8>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        16 => build::<16>(kind, depth, dir),
        20 => build::<20>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        31 => build::<31>(kind, depth, dir),
        32 => build::<32>(kind, depth, dir),
        33 => build::<33>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        40 => build::<40>(kind, depth, dir),
        64 => build::<64>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        128 => build::<128>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        300 => build::<300>(kind, depth, dir),
        #[cfg(not(feature = "few"))]
        HUGE => huge::<HUGE>(kind, depth),
        _ => panic!("key width {n} is not built"),
    }
}
