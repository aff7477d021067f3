//! Histories over the public Rust API against a reference model.
use crate::child::{fail, Fail, R};
use crate::data::*;
use crate::sim::{self, Mode, Sched};
use crate::check;
use possum::{BatchWriter, Handle, ReadTransaction, Snapshot, SnapshotValue, Value, ValueWriter};
use positioned_io::ReadAt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, RwLock};

pub type H = Arc<RwLock<Handle>>;
pub type Bytes = Rc<Vec<u8>>;

// ------------------------------------------------------------------ operations

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pfx {
    pub k: u8,
    pub len: u8,
    pub extra: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Put { h: u8, k: u8, size: u32, chunk: u16 },
    Get { h: u8, k: u8, how: u8 },
    Del { h: u8, k: u8 },
    Rename { h: u8, a: u8, b: u8 },
    MovePrefix { h: u8, p: Pfx, q: Pfx },
    DelPrefix { h: u8, p: Pfx },
    List { h: u8, p: Pfx },
    /// a batch of many small values under new keys with the prefix
    Bulk { h: u8, p: Pfx, n: u16, size: u8 },
    Import { h: u8, k: u8, size: u32, cursor: u32, holes: u8 },
    Snap { h: u8, ks: Vec<u8> },
    /// a snapshot of every value with the prefix, in key order or against it
    SnapPfx { h: u8, p: Pfx, rev: bool },
    /// a reader that is dropped without taking a snapshot
    ReadAbort { h: u8, ks: Vec<u8> },
    SnapRead { i: u8, how: u8 },
    SnapDrop { i: u8 },
    BNew { h: u8 },
    BBegin { b: u8 },
    BImport { b: u8, k: u8, size: u32, cursor: u32, holes: u8 },
    BWrite { b: u8, w: u8, size: u32, how: u8 },
    /// the source fails in the end, before which it may look at the store
    BCopyFail {
        b: u8,
        w: u8,
        size: u32,
        #[serde(default)]
        peek: Option<u8>,
    },
    BStage { b: u8, w: u8, k: u8 },
    /// begin, write, stage
    BPut { b: u8, k: u8, size: u32 },
    /// begin, a copy that fails while the store is read, write, stage
    BRetry { b: u8, k: u8, bad: u32, size: u32, peek: u8 },
    /// begin, write, stage, many times with few keys
    BMany { b: u8, n: u8, ks: u8, k: u8 },
    /// rounds of one to three writers at once, all staged but, at the end, those left open
    BLend { b: u8, rounds: Vec<u8>, open: u8, size: u32, k: u8 },
    BRename { b: u8, i: u8, k: u8 },
    /// the recorded finding that renaming empty values does nothing; never generated
    BRenameEmpty { b: u8, i: u8, k: u8 },
    BCommit { b: u8 },
    BDrop { b: u8 },
    WDrop { b: u8, w: u8 },
    Limits { h: u8, max: Option<u32>, nopunch: bool },
    Open,
    Reopen { h: u8 },
    Close { h: u8 },
    Cleanup { h: u8 },
    /// snapshot directories of other or crashed processes, and things that are not snapshots
    Leak { kind: u8, n: u8 },
    Tick { ms: u16 },
    Settle,
    /// sleeps, so that other threads go on
    Pause { ms: u16 },
    Verify { h: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub mode: Mode,
    pub seed: u32,
    pub sched: Sched,
    pub keys: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    /// importing fails to clone with EXDEV although the directory supports cloning
    pub exdev: bool,
}

/// Which operations are generated how often, and which oracles run.
#[derive(Clone, Debug)]
pub struct Profile {
    pub w: BTreeMap<&'static str, u32>,
    pub sizes: SizeProfile,
    pub ops: (usize, usize),
    pub keys: (usize, usize),
    pub modes: Vec<(u32, Mode)>,
    /// probability in percent that a schedule with preemptions is generated
    pub preempt: u32,
    pub oracle: Oracle,
    /// every handle has hole punching disabled
    pub nopunch: bool,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Oracle {
    pub contents: bool,
    pub reclaim: bool,
    pub limits: bool,
    pub accounting: bool,
    pub recency: bool,
    pub dirs: bool,
    /// read everything back after every operation through a fresh handle
    pub deep: bool,
}

pub fn weights(l: &[(&'static str, u32)]) -> BTreeMap<&'static str, u32> {
    l.iter().copied().collect()
}

pub fn pfx() -> BoxedStrategy<Pfx> {
    (any::<u8>(), prop_oneof![18 => 0u8..5, 1 => 5u8..46, 1 => 46u8..=255], prop::option::weighted(0.2, prop_oneof![Just(0xffu8), Just(0u8), Just(b'a'), any::<u8>()]))
        .prop_map(|(k, len, extra)| Pfx { k, len, extra })
        .boxed()
}

/// Half the time, preemptions inside the code under test, at rarely and at often entered places.
pub fn fine() -> BoxedStrategy<Option<crate::sim::Fine>> {
    prop::option::weighted(0.5, (any::<u16>(), 1u8..11, prop_oneof![2 => 1u16..12, 3 => 12u16..400]).prop_map(|(salt, rate, most)| crate::sim::Fine { salt, rate, most })).boxed()
}
pub fn sched(pct: u32) -> BoxedStrategy<Sched> {
    let gap = prop_oneof![4 => 0u16..6, 3 => 0u16..30, 2 => 0u16..150];
    let g = (proptest::collection::vec((gap, any::<u8>()), 0..24), fine()).prop_map(|(gaps, fine)| Sched { gaps, fine });
    prop_oneof![pct => g, 100 - pct.min(100) => Just(Sched::default())].boxed()
}

pub fn op(p: &Profile) -> BoxedStrategy<Op> {
    let sz = || size(p.sizes);
    let h = || 0u8..3;
    let k = || any::<u8>();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    for (name, w) in &p.w {
        if *w == 0 {
            continue;
        }
        let s: BoxedStrategy<Op> = match *name {
            "put" => (h(), k(), sz(), prop_oneof![Just(0u16), 1u16..5000]).prop_map(|(h, k, size, chunk)| Op::Put { h, k, size, chunk }).boxed(),
            "get" => (h(), k(), 0u8..5).prop_map(|(h, k, how)| Op::Get { h, k, how }).boxed(),
            "del" => (h(), k()).prop_map(|(h, k)| Op::Del { h, k }).boxed(),
            "rename" => (h(), k(), k()).prop_map(|(h, a, b)| Op::Rename { h, a, b }).boxed(),
            "movepfx" => (h(), pfx(), pfx()).prop_map(|(h, p, q)| Op::MovePrefix { h, p, q }).boxed(),
            "delpfx" => (h(), pfx()).prop_map(|(h, p)| Op::DelPrefix { h, p }).boxed(),
            "bulk" => (h(), pfx(), prop_oneof![1 => 10u16..60, 2 => 60u16..300], prop_oneof![Just(0u8), Just(1u8), 2u8..60]).prop_map(|(h, p, n, size)| Op::Bulk { h, p, n, size }).boxed(),
            "list" => (h(), pfx()).prop_map(|(h, p)| Op::List { h, p }).boxed(),
            "import" => (h(), k(), sz(), any::<u32>(), any::<u8>()).prop_map(|(h, k, size, cursor, holes)| Op::Import { h, k, size, cursor, holes }).boxed(),
            "snap" => (h(), proptest::collection::vec(k(), 0..5)).prop_map(|(h, ks)| Op::Snap { h, ks }).boxed(),
            "snappfx" => (h(), pfx(), any::<bool>()).prop_map(|(h, p, rev)| Op::SnapPfx { h, p, rev }).boxed(),
            "readabort" => (h(), proptest::collection::vec(k(), 0..3)).prop_map(|(h, ks)| Op::ReadAbort { h, ks }).boxed(),
            "snapread" => (k(), 0u8..6).prop_map(|(i, how)| Op::SnapRead { i, how }).boxed(),
            "snapdrop" => k().prop_map(|i| Op::SnapDrop { i }).boxed(),
            "bnew" => h().prop_map(|h| Op::BNew { h }).boxed(),
            "bbegin" => k().prop_map(|b| Op::BBegin { b }).boxed(),
            "bimport" => (k(), k(), sz(), any::<u32>(), any::<u8>()).prop_map(|(b, k, size, cursor, holes)| Op::BImport { b, k, size, cursor, holes }).boxed(),
            "bwrite" => (k(), k(), sz(), 0u8..4).prop_map(|(b, w, size, how)| Op::BWrite { b, w, size, how }).boxed(),
            "bcopyfail" => (k(), k(), sz()).prop_map(|(b, w, size)| Op::BCopyFail { b, w, size, peek: None }).boxed(),
            "bcopypeek" => (k(), k(), sz(), k()).prop_map(|(b, w, size, h)| Op::BCopyFail { b, w, size, peek: Some(h) }).boxed(),
            "bstage" => (k(), k(), k()).prop_map(|(b, w, k)| Op::BStage { b, w, k }).boxed(),
            "bput" => (k(), k(), sz()).prop_map(|(b, k, size)| Op::BPut { b, k, size }).boxed(),
            "bretry" => (k(), k(), sz(), sz(), k()).prop_map(|(b, k, bad, size, peek)| Op::BRetry { b, k, bad, size, peek }).boxed(),
            "bmany" => (k(), prop_oneof![1 => 2u8..12, 2 => 20u8..70], 1u8..6, k()).prop_map(|(b, n, ks, k)| Op::BMany { b, n, ks, k }).boxed(),
            "blend" => (k(), proptest::collection::vec(1u8..4, 1..5), 0u8..4, sz(), k()).prop_map(|(b, rounds, open, size, k)| Op::BLend { b, rounds, open, size, k }).boxed(),
            "brename" => (k(), k(), k()).prop_map(|(b, i, k)| Op::BRename { b, i, k }).boxed(),
            "bcommit" => k().prop_map(|b| Op::BCommit { b }).boxed(),
            "bdrop" => k().prop_map(|b| Op::BDrop { b }).boxed(),
            "wdrop" => (k(), k()).prop_map(|(b, w)| Op::WDrop { b, w }).boxed(),
            "limits" => (h(), prop::option::weighted(0.85, prop_oneof![1 => Just(0u32), 4 => 1u32..200, 4 => 1u32..40_000]), prop::bool::weighted(0.1))
                .prop_map(|(h, max, nopunch)| Op::Limits { h, max, nopunch })
                .boxed(),
            "nopunch" => h().prop_map(|h| Op::Limits { h, max: None, nopunch: true }).boxed(),
            "open" => Just(Op::Open).boxed(),
            "reopen" => h().prop_map(|h| Op::Reopen { h }).boxed(),
            "close" => h().prop_map(|h| Op::Close { h }).boxed(),
            "cleanup" => h().prop_map(|h| Op::Cleanup { h }).boxed(),
            "leak" => (0u8..6, any::<u8>()).prop_map(|(kind, n)| Op::Leak { kind, n }).boxed(),
            "tick" => prop_oneof![3 => 1u16..4, 1 => 1u16..3000].prop_map(|ms| Op::Tick { ms }).boxed(),
            "settle" => Just(Op::Settle).boxed(),
            "pause" => prop_oneof![3 => 1u16..20, 1 => 900u16..1200].prop_map(|ms| Op::Pause { ms }).boxed(),
            "verify" => h().prop_map(|h| Op::Verify { h }).boxed(),
            o => panic!("unknown op {o}"),
        };
        v.push((*w, s));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn case(p: &Profile) -> BoxedStrategy<Case> {
    let modes = proptest::strategy::Union::new_weighted(p.modes.iter().map(|(w, m)| (*w, Just(*m).boxed())).collect());
    (modes, any::<u32>(), sched(p.preempt), keys(p.keys.0, p.keys.1), proptest::collection::vec(op(p), p.ops.0..p.ops.1), prop::bool::weighted(0.25))
        .prop_map(|(mode, seed, sched, keys, ops, exdev)| Case { mode, seed, sched, keys, ops, exdev })
        .boxed()
}

// ------------------------------------------------------------------ world

#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    pub file: String,
    pub off: u64,
    pub len: u64,
}
#[derive(Clone, Debug)]
pub struct MVal {
    pub data: Bytes,
    pub vid: u64,
    /// bounds of the last-used time
    pub lo: i64,
    pub hi: i64,
}
pub struct HS {
    pub h: H,
    pub max: Option<u64>,
    pub nopunch: bool,
}
pub struct SnapEnt {
    pub key: Vec<u8>,
    pub data: Bytes,
    pub vid: u64,
    pub sv: SnapshotValue<Value>,
    pub lu: possum::Timestamp,
}
pub struct Snap {
    pub ents: Vec<SnapEnt>,
    #[allow(unused)]
    pub snap: Snapshot,
}
pub struct OW {
    vw: ValueWriter,
    data: Vec<u8>,
}
pub struct OB {
    h: usize,
    bw: BatchWriter<H>,
    writers: Vec<OW>,
    staged: Vec<(Vec<u8>, Bytes)>,
    renames: Vec<(u64, Vec<u8>)>,
}
#[derive(Clone, Debug)]
pub struct Listed {
    pub len: u64,
    pub lu: i64,
    pub loc: Option<Loc>,
}
pub type Listing = BTreeMap<Vec<u8>, Listed>;

#[derive(Clone, Debug)]
pub struct Deletion {
    pub loc: Loc,
    /// whole-block region that must be gone in the end
    pub start: u64,
    pub end: u64,
    pub expected: bool,
}

pub struct World {
    pub dir: PathBuf,
    pub src: PathBuf,
    pub keys: Vec<Vec<u8>>,
    pub hs: Vec<Option<HS>>,
    pub model: BTreeMap<Vec<u8>, MVal>,
    pub snaps: Vec<Snap>,
    pub batches: Vec<OB>,
    pub prev: Listing,
    pub deletions: Vec<Deletion>,
    pub stats: BTreeMap<String, u64>,
    pub o: Oracle,
    next_tag: u64,
    next_src: u64,
    pub always_nopunch: bool,
    /// values that were never listed may have been reclaimed, with what lies before them
    unlisted: bool,
    pub exdev: bool,
    pub mode: Mode,
    planted: Vec<PathBuf>,
    locked: Vec<(PathBuf, File)>,
    foreign: Vec<(PathBuf, Vec<u8>)>,
    leaked: bool,
    /// the comparison with the model after each operation is spared from faults
    pub quiet: bool,
}

const MAX_HANDLES: usize = 3;

pub fn ms(t: possum::Timestamp) -> i64 {
    t.and_utc().timestamp_millis()
}
pub fn to_ops<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| Fail { kind: "op-error".into(), msg: format!("{what}: {}", format!("{e:?}").split("Stack backtrace").next().unwrap().trim_end()) })
}
/// Sets limits through the public method; the argument type is not nameable from outside.
pub fn set_limits(h: &mut Handle, max: Option<u64>, nopunch: bool) -> anyhow::Result<()> {
    fn go<L: Default, X>(h: &mut Handle, f: fn(&mut Handle, L) -> X, set: impl FnOnce(&mut L)) -> X {
        let mut l = L::default();
        set(&mut l);
        f(h, l)
    }
    go(h, Handle::set_instance_limits, |l| {
        l.max_value_length_sum = max;
        l.disable_hole_punching = nopunch;
    })
}

/// A reader that yields its data in chunks, then ends or fails.
pub struct Feed<'a> {
    pub data: &'a [u8],
    pub chunk: usize,
    pub fail: bool,
    pub calls: u64,
}
impl Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.chunk > 0 && self.calls % 3 == 2 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.data.is_empty() {
            if self.fail {
                return Err(std::io::Error::other("source failed"));
            }
            return Ok(0);
        }
        let mut n = self.data.len().min(buf.len());
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// A source that does something else when it is about to end.
pub struct Peeking<'a, 'b, F> {
    pub feed: &'a mut Feed<'b>,
    pub look: Option<F>,
}
impl<F: FnMut()> Read for Peeking<'_, '_, F> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.feed.data.is_empty() {
            if let Some(mut f) = self.look.take() {
                f()
            }
        }
        self.feed.read(buf)
    }
}

impl World {
    pub fn new(case_keys: &[Vec<u8>], mode: Mode, exdev: bool, o: Oracle, dir: PathBuf, src: PathBuf) -> World {
        std::fs::create_dir_all(&src).unwrap();
        World {
            dir,
            src,
            keys: if case_keys.is_empty() { vec![vec![]] } else { case_keys.to_vec() },
            hs: vec![],
            model: BTreeMap::new(),
            snaps: vec![],
            batches: vec![],
            prev: BTreeMap::new(),
            deletions: vec![],
            stats: BTreeMap::new(),
            o,
            next_tag: 1,
            next_src: 0,
            always_nopunch: false,
            unlisted: false,
            exdev,
            mode,
            planted: vec![],
            locked: vec![],
            foreign: vec![],
            leaked: false,
            quiet: false,
        }
    }
    /// Takes the contents of an existing store as the model, after its bytes were read back.
    pub fn adopt(&mut self, m: BTreeMap<Vec<u8>, Bytes>) -> R<()> {
        let l = self.listing()?;
        for (k, data) in m {
            let lu = l.get(&k).map(|x| x.lu).unwrap_or(0);
            let vid = self.next_tag;
            self.next_tag += 1;
            self.model.insert(k, MVal { data, vid, lo: lu, hi: lu });
        }
        // Contents written from now on differ from all before.
        self.next_tag += 1 << 32;
        self.prev = l;
        self.leaked = true;
        Ok(())
    }
    pub fn bump(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_default() += 1;
    }
    pub fn key(&self, k: u8) -> Vec<u8> {
        self.keys[k as usize % self.keys.len()].clone()
    }
    pub fn pfx(&self, p: &Pfx) -> Vec<u8> {
        let k = self.key(p.k);
        let mut v = k[..(p.len as usize).min(k.len())].to_vec();
        v.extend(p.extra);
        v
    }
    fn bulk_key(&self, p: &Pfx, i: u16) -> Vec<u8> {
        [&self.pfx(p)[..], b"bulk", &i.to_be_bytes()].concat()
    }
    pub fn fresh(&mut self, size: u32) -> (Bytes, u64) {
        let t = self.next_tag;
        self.next_tag += 1;
        (content(t, size as usize), t)
    }
    pub fn open_handle(&mut self) -> R<H> {
        let mut h = to_ops(Handle::new(self.dir.clone()), "Handle::new")?;
        if self.always_nopunch {
            to_ops(set_limits(&mut h, None, true), "set_instance_limits")?;
        }
        Ok(Arc::new(RwLock::new(h)))
    }
    pub fn slot(&mut self, h: u8) -> R<usize> {
        let open: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].is_some()).collect();
        if open.is_empty() {
            let h = self.open_handle()?;
            self.hs.push(Some(HS { h, max: None, nopunch: self.always_nopunch }));
            return Ok(self.hs.len() - 1);
        }
        Ok(open[h as usize % open.len()])
    }
    pub fn h(&self, i: usize) -> H {
        self.hs[i].as_ref().unwrap().h.clone()
    }

    /// Lists the store without touching any recency.
    pub fn listing(&mut self) -> R<Listing> {
        let h = match self.hs.iter().flatten().next() {
            Some(h) => h.h.clone(),
            None => {
                let i = self.slot(0)?;
                self.h(i)
            }
        };
        list_handle(&h)
    }

    // -------------------------------------------------------------- model steps

    pub fn put_model(&mut self, k: Vec<u8>, data: Bytes, t0: i64) {
        let vid = self.next_tag;
        self.next_tag += 1;
        self.model.insert(k, MVal { data, vid, lo: t0 - 1, hi: sim::now_ms() });
    }
    pub fn touch(&mut self, k: &[u8], t0: i64) {
        let t1 = sim::now_ms();
        if let Some(m) = self.model.get_mut(k) {
            m.lo = t0 - 1;
            m.hi = t1;
        }
    }

    /// Compares the store with the model after an operation on handle `hi` (None: no handle).
    /// `wrote`: the operation committed changes through that handle, so limits must hold.
    pub fn sync(&mut self, hi: Option<usize>, wrote: Option<bool>) -> R<()> {
        let hs = hi.and_then(|i| self.hs[i].as_ref());
        let (max, nopunch) = (hs.and_then(|h| h.max), hs.map(|h| h.nopunch).unwrap_or(false));
        self.sync_limited(max, nopunch, wrote)
    }
    pub fn sync_limited(&mut self, max: Option<u64>, nopunch: bool, wrote: Option<bool>) -> R<()> {
        let _e = self.quiet.then(sim::exempt);
        let l = self.listing()?;
        // Evictions.
        self.unlisted |= max.is_some() && !nopunch && wrote != Some(false);
        if let (Some(max), Some(wrote)) = (max, wrote) {
            let evicted: Vec<Vec<u8>> = self.model.keys().filter(|k| !l.contains_key(*k)).cloned().collect();
            let before: u64 = self.model.values().map(|m| m.data.len() as u64).sum();
            let after: u64 = l.values().map(|x| x.len).sum();
            if self.o.limits {
                if wrote {
                    check!(after <= max, "limit-exceeded", "sum {after} over limit {max} after a committed write");
                }
                if before <= max {
                    check!(evicted.is_empty(), "needless-eviction", "sum {before} within limit {max} but {evicted:?} evicted");
                } else if !evicted.is_empty() {
                    let newest_out = evicted.iter().map(|k| self.model[k].lo).max().unwrap();
                    let oldest_in = l.iter().filter(|(k, _)| self.model.contains_key(*k)).map(|(_, x)| x.lu).min();
                    if let Some(oi) = oldest_in {
                        check!(newest_out <= oi, "eviction-order", "evicted a value used at {newest_out} or later while one used at {oi} stays; evicted {}", evicted.iter().map(|k| show(k)).collect::<Vec<_>>().join(","));
                    }
                    let need = evicted.iter().any(|k| {
                        let m = &self.model[k];
                        evicted.iter().all(|j| m.hi >= self.model[j].lo) && after + m.data.len() as u64 > max
                    });
                    check!(need, "over-eviction", "sum {after} after evicting {} values with limit {max}: the last eviction was not needed", evicted.len());
                }
            }
            if !evicted.is_empty() {
                self.bump("evicting-ops");
                *self.stats.entry("evicted-values".into()).or_default() += evicted.len() as u64;
            }
            for k in evicted {
                self.model.remove(&k);
            }
        }
        // Contents of the listing.
        for (k, m) in &self.model {
            match l.get(k) {
                None => return fail("lost-key", format!("key {} is gone", show(k))),
                Some(x) => {
                    check!(x.len == m.data.len() as u64, "wrong-length", "key {}: length {} want {}", show(k), x.len, m.data.len());
                    if self.o.recency {
                        check!(x.lu >= m.lo && x.lu <= m.hi, "last-used", "key {}: last used {} not in [{}, {}]", show(k), x.lu, m.lo, m.hi);
                    }
                }
            }
        }
        if let Some(k) = l.keys().find(|k| !self.model.contains_key(*k)) {
            return fail("ghost-key", format!("key {} exists but should not", show(k)));
        }
        // From now on the exact recency is known.
        for (k, m) in self.model.iter_mut() {
            m.lo = l[k].lu;
            m.hi = l[k].lu;
        }
        self.note_deletions(&l, nopunch);
        if self.o.accounting {
            self.accounting(&l)?;
        }
        self.prev = l;
        Ok(())
    }

    fn note_deletions(&mut self, l: &Listing, nopunch: bool) {
        let now: BTreeSet<(String, u64)> = l.values().filter_map(|x| x.loc.as_ref()).map(|x| (x.file.clone(), x.off)).collect();
        let mut by_file: BTreeMap<&str, Vec<(u64, u64)>> = BTreeMap::new();
        for x in l.values().filter_map(|x| x.loc.as_ref()) {
            by_file.entry(&x.file).or_default().push((x.off, x.off + x.len));
        }
        let mut add = vec![];
        for x in self.prev.values().filter_map(|x| x.loc.as_ref()) {
            if now.contains(&(x.file.clone(), x.off)) {
                continue;
            }
            let prev_end = by_file.get(x.file.as_str()).into_iter().flatten().map(|e| e.1).filter(|e| *e <= x.off).max().unwrap_or(0);
            let bs = BS as u64;
            add.push(Deletion { loc: x.clone(), start: prev_end.div_ceil(bs) * bs, end: (x.off + x.len) / bs * bs, expected: !nopunch });
        }
        for d in add {
            self.bump("deleted-extents");
            if d.start < d.end {
                self.bump("deleted-extents-with-whole-blocks");
            }
            if l.values().filter_map(|x| x.loc.as_ref()).any(|y| y.file == d.loc.file) {
                self.bump("deleted-beside-live");
            }
            self.deletions.push(d);
        }
    }

    /// The recorded layout is consistent and the queries agree with the listing.
    fn accounting(&mut self, l: &Listing) -> R<()> {
        let h = self.hs.iter().flatten().next().unwrap().h.clone();
        let g = h.read().unwrap();
        let want: u64 = l.values().map(|x| x.len).sum();
        let items = to_ops(g.list_items(b""), "list_items")?;
        let tx = to_ops(g.start_deferred_transaction_for_read(), "deferred tx")?;
        let sum = to_ops(tx.sum_value_length(), "sum_value_length")?;
        check!(sum == want, "sum", "recorded sum {sum}, sum of listed lengths {want}");
        let mut files = BTreeMap::new();
        for it in &items {
            if let Some(n) = it.value.location.into_non_zero() {
                let e = files.entry(n.file_id).or_insert_with(Vec::new);
                e.push((n.file_offset, n.length));
                check!(n.length > 0, "layout", "extent of length 0");
            }
        }
        for (id, mut v) in files {
            v.sort();
            for w in v.windows(2) {
                check!(w[0].0 + w[0].1 <= w[1].0, "overlap", "extents {:?} and {:?} of {id} overlap", w[0], w[1]);
            }
            let path = self.dir.join(id.values_file_path());
            let end = v.last().map(|x| x.0 + x.1).unwrap();
            match std::fs::metadata(&path) {
                Err(e) => return fail("file-missing", format!("{id} with live values: {e}")),
                Ok(m) => check!(m.len() >= end, "file-short", "{id} has length {} but a value ends at {end}", m.len()),
            }
            let mut fv = to_ops(tx.file_values(id), "file_values")?;
            let got: Vec<(u64, u64)> = to_ops(
                to_ops(fv.begin(), "file_values.begin")?
                    .map(|r| r.map(|v| (v.file_offset().unwrap_or(u64::MAX), v.length())))
                    .collect::<Result<_, _>>(),
                "file_values",
            )?;
            check!(got == v, "file-values", "file_values({id}) = {got:?}, want {v:?}");
            let mut probes = BTreeSet::new();
            for (o, n) in &v {
                for p in [*o, o + n, o + n / 2] {
                    probes.insert(p);
                    probes.insert(p + 1);
                    probes.insert(p.saturating_sub(1));
                }
            }
            probes.insert(0);
            probes.insert(i64::MAX as u64);
            for p in probes {
                let got = to_ops(tx.next_value_offset(&id, p), "next_value_offset")?;
                let want = v.iter().map(|x| x.0).filter(|o| *o >= p).min();
                check!(got == want, "next-value", "next_value_offset({id},{p}) = {got:?}, want {want:?}");
                let got = to_ops(tx.query_last_end_offset(&id, p), "query_last_end_offset")?;
                let want = v.iter().map(|x| x.0 + x.1).filter(|e| *e <= p).max().unwrap_or(0);
                check!(got == want, "last-end", "query_last_end_offset({id},{p}) = {got}, want {want}");
            }
            *self.stats.entry("files-checked".into()).or_default() += 1;
        }
        Ok(())
    }

    // -------------------------------------------------------------- reading

    pub fn read_value(sv: &SnapshotValue<Value>, how: u8, want: &[u8], what: &str) -> R<()> {
        let cmp = |got: &[u8], how: &str| -> R<()> {
            if got != want {
                return fail("content", format!("{what} ({how}): {}", diff(got, want)));
            }
            Ok(())
        };
        check!(sv.length() == want.len() as u64, "wrong-length", "{what}: length {} want {}", sv.length(), want.len());
        match how % 6 {
            0 => {
                let v = to_ops(sv.view(|b| b.to_vec()), "view")?;
                cmp(&v, "view")
            }
            1 => {
                let mut v = vec![0xAAu8; want.len() + 7];
                let mut n = 0;
                while n < v.len() {
                    let k = to_ops(sv.read_at(n as u64, &mut v[n..]), "read_at")?;
                    if k == 0 {
                        break;
                    }
                    n += k;
                }
                cmp(&v[..n], "read_at")
            }
            2 => {
                let mut v = vec![];
                to_ops(sv.new_reader().read_to_end(&mut v), "new_reader")?;
                cmp(&v, "new_reader")
            }
            3 => {
                let mut v = vec![0u8; want.len() + 3];
                let n = to_ops(sv.read(&mut v), "read")?;
                cmp(&v[..n], "read")
            }
            4 => {
                // Backwards in odd pieces.
                let mut v = vec![0u8; want.len()];
                let step = (want.len() / 5).max(1);
                let mut end = want.len();
                while end > 0 {
                    let st = end.saturating_sub(step);
                    let mut p = st;
                    while p < end {
                        let k = to_ops(sv.read_at(p as u64, &mut v[p..end]), "read_at")?;
                        check!(k > 0, "short-read", "{what}: read_at({p}) returned 0 before the end");
                        p += k;
                    }
                    end = st;
                }
                cmp(&v, "read_at backwards")
            }
            _ => {
                let v = to_ops(sv.view(|b| b.to_vec()), "view")?;
                cmp(&v, "view")?;
                let mut v = vec![];
                to_ops(sv.new_reader().read_to_end(&mut v), "new_reader")?;
                cmp(&v, "new_reader")
            }
        }
    }

    fn take_snap(&mut self, hi: usize, keys: &[Vec<u8>]) -> R<Snap> {
        let h = self.h(hi);
        let g = h.read().unwrap();
        let t0 = sim::now_ms();
        let mut rd = to_ops(g.read(), "read")?;
        let mut got = vec![];
        for k in keys {
            let v = to_ops(rd.add(k), "Reader::add")?;
            match (&v, self.model.get(k)) {
                (None, Some(_)) => return fail("lost-key", format!("reader misses key {}", show(k))),
                (Some(_), None) => return fail("ghost-key", format!("reader finds key {}", show(k))),
                _ => {}
            }
            if let Some(v) = v {
                let t1 = sim::now_ms();
                if self.o.recency {
                    let lu = ms(v.last_used());
                    check!(lu >= t0 - 1 && lu <= t1, "last-used", "reader reports last used {lu} for {} not in [{}, {t1}]", show(k), t0 - 1);
                }
                got.push((k.clone(), v));
            }
        }
        if self.o.contents {
            // The reader's own listing sees the same keys.
            let n = to_ops(rd.list_items(b""), "Reader::list_items")?.len();
            check!(n == self.model.len(), "listing", "reader lists {n} items, want {}", self.model.len());
        }
        let snap = to_ops(rd.begin(), "Reader::begin")?;
        let mut ents = vec![];
        for (k, v) in got {
            self.touch(&k, t0);
            let m = &self.model[&k];
            ents.push(SnapEnt { key: k, data: m.data.clone(), vid: m.vid, lu: v.last_used(), sv: snap.value(v) });
        }
        Ok(Snap { ents, snap })
    }

    /// Reads every key through handle `hi` and compares it with the model; also keys that must not
    /// exist.
    pub fn verify_all(&mut self, hi: usize, how: u8) -> R<()> {
        let mut ks: BTreeSet<Vec<u8>> = self.model.keys().cloned().collect();
        ks.extend(self.keys.iter().cloned());
        let ks: Vec<_> = ks.into_iter().collect();
        let s = self.take_snap(hi, &ks)?;
        for e in &s.ents {
            Self::read_value(&e.sv, how, &e.data, &format!("key {}", show(&e.key)))?;
            self.bump("values-verified");
        }
        drop(s);
        self.sync(Some(hi), Some(false))
    }

    fn import_bytes(&self, d: &[u8], holes: u8) -> Vec<u8> {
        // Where holes are looked for, sources have none of their own.
        let holes = if self.o.reclaim { 0 } else { holes };
        let mut v = d.to_vec();
        // Holes: some blocks are never written.
        for (i, c) in v.chunks_mut(BS as usize).enumerate() {
            if holes & 1 != 0 && holes >> (1 + i % 7) & 1 != 0 {
                c.fill(0);
            }
        }
        v
    }
    /// The contents after an operation takes effect.
    pub fn predict(&self, op: &Op) -> BTreeMap<Vec<u8>, Bytes> {
        let mut m: BTreeMap<Vec<u8>, (Bytes, u64)> = self.model.iter().map(|(k, v)| (k.clone(), (v.data.clone(), v.vid))).collect();
        match op {
            Op::Put { k, size, .. } => {
                m.insert(self.key(*k), (content(self.next_tag, *size as usize), 0));
            }
            Op::Import { k, size, holes, .. } => {
                m.insert(self.key(*k), (Rc::new(self.import_bytes(&content(self.next_tag, *size as usize), *holes)), 0));
            }
            Op::Bulk { p, n, size, .. } => {
                for i in 0..*n {
                    m.insert(self.bulk_key(p, i), (content(self.next_tag + i as u64, *size as usize), 0));
                }
            }
            Op::Del { k, .. } => {
                m.remove(&self.key(*k));
            }
            Op::DelPrefix { p, .. } => {
                let p = self.pfx(p);
                m.retain(|k, _| !k.starts_with(&p));
            }
            Op::Rename { a, b, .. } => {
                if let Some(x) = m.remove(&self.key(*a)) {
                    m.insert(self.key(*b), x);
                }
            }
            Op::MovePrefix { p, q, .. } => {
                let (p, q) = (self.pfx(p), self.pfx(q));
                let moved: Vec<_> = m.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                let taken: Vec<_> = moved.into_iter().map(|k| ([&q[..], &k[p.len()..]].concat(), m.remove(&k).unwrap())).collect();
                m.extend(taken);
            }
            Op::BCommit { b } => {
                if let Some(b) = self.batch(*b) {
                    let ob = &self.batches[b];
                    return self.after_commit(&ob.staged, &ob.renames);
                }
            }
            _ => {}
        }
        m.into_iter().map(|(k, x)| (k, x.0)).collect()
    }
    /// The contents after a batch is committed.
    pub fn after_commit(&self, staged: &[(Vec<u8>, Bytes)], renames: &[(u64, Vec<u8>)]) -> BTreeMap<Vec<u8>, Bytes> {
        let mut m: BTreeMap<Vec<u8>, (Bytes, u64)> = self.model.iter().map(|(k, v)| (k.clone(), (v.data.clone(), v.vid))).collect();
        for (k, d) in staged {
            m.insert(k.clone(), (d.clone(), 0));
        }
        for (vid, k) in renames {
            let from = m.iter().find(|(_, x)| x.1 == *vid).map(|x| x.0.clone());
            if let Some(f) = from {
                let x = m.remove(&f).unwrap();
                m.insert(k.clone(), x);
            }
        }
        m.into_iter().map(|(k, x)| (k, x.0)).collect()
    }
    pub fn commit_model(&mut self, staged: Vec<(Vec<u8>, Bytes)>, renames: Vec<(u64, Vec<u8>)>, t0: i64) {
        self.unlisted |= staged.iter().enumerate().any(|(i, x)| staged[..i].iter().any(|y| y.0 == x.0));
        for (k, d) in staged {
            self.put_model(k, d, t0);
        }
        for (vid, k) in renames {
            let from = self.model.iter().find(|(_, m)| m.vid == vid).map(|(k, _)| k.clone());
            match from {
                None => self.bump("stale-rename"),
                Some(f) if f == k => self.bump("self-rename"),
                Some(f) => {
                    let m = self.model.remove(&f).unwrap();
                    if self.model.insert(k, m).is_some() {
                        self.bump("rename-over");
                    }
                }
            }
        }
    }
    fn import_src(&mut self, size: u32, cursor: u32, holes: u8) -> R<(File, Bytes, PathBuf, u64)> {
        let (d, _) = self.fresh(size);
        let v = self.import_bytes(&d, holes);
        let _e = sim::exempt();
        let p = self.src.join(format!("src{}", self.next_src));
        self.next_src += 1;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
        let bs = BS as usize;
        for (i, c) in v.chunks(bs).enumerate() {
            if c.iter().any(|b| *b != 0) {
                std::os::unix::fs::FileExt::write_all_at(&f, c, (i * bs) as u64).unwrap();
            }
        }
        f.set_len(v.len() as u64).unwrap();
        let mut f = f;
        let cur = cursor as u64 % (v.len() as u64 + 3);
        f.seek(SeekFrom::Start(cur)).unwrap();
        Ok((f, Rc::new(v), p, cur))
    }
    fn check_src(&self, p: &Path, want: &[u8]) -> R<()> {
        let got = std::fs::read(p).map_err(|e| Fail { kind: "source-gone".into(), msg: e.to_string() })?;
        check!(got == want, "source-changed", "import changed the source: {}", diff(&got, want));
        Ok(())
    }
    /// After an import the source may change without effect on the value.
    fn scribble_src(&self, p: &Path) {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) {
            let n = f.metadata().map(|m| m.len()).unwrap_or(0).min(100_000) as usize;
            let _ = std::os::unix::fs::FileExt::write_all_at(&f, &vec![0x55u8; n], 0);
            let _ = f.set_len(n as u64 / 2);
        }
        let _ = std::fs::remove_file(p);
    }

    // -------------------------------------------------------------- execution

    pub fn step(&mut self, op: &Op) -> R<()> {
        let t0 = sim::now_ms();
        match op {
            Op::Put { h, k, size, chunk } => {
                let hi = self.slot(*h)?;
                let k = self.key(*k);
                let (d, _) = self.fresh(*size);
                let hh = self.h(hi);
                let (n, c) = {
                    let g = hh.read().unwrap();
                    to_ops(g.single_write_from(k.clone(), Feed { data: &d, chunk: *chunk as usize, fail: false, calls: 0 }), "single_write_from")?
                };
                check!(n == d.len() as u64, "wrong-length", "single_write_from returned {n}, wrote {}", d.len());
                check!(c.count() == 1, "commit-count", "single_write_from committed {} writes", c.count());
                if self.model.contains_key(&k) {
                    self.bump("overwrites");
                }
                self.put_model(k, d, t0);
                self.bump("puts");
                self.sync(Some(hi), Some(true))
            }
            Op::Get { h, k, how } => {
                let hi = self.slot(*h)?;
                let k = self.key(*k);
                let hh = self.h(hi);
                let g = hh.read().unwrap();
                let v = to_ops(g.read_single(&k), "read_single")?;
                drop(g);
                match (v, self.model.get(&k).cloned()) {
                    (None, None) => {
                        self.bump("get-missing");
                        self.sync(Some(hi), Some(false))
                    }
                    (Some(_), None) => fail("ghost-key", format!("read_single finds key {}", show(&k))),
                    (None, Some(_)) => fail("lost-key", format!("read_single misses key {}", show(&k))),
                    (Some(sv), Some(m)) => {
                        self.bump("get-hit");
                        if self.o.contents {
                            Self::read_value(&sv, *how, &m.data, &format!("key {}", show(&k)))?;
                        }
                        if self.o.recency {
                            let lu = ms(sv.last_used());
                            let t1 = sim::now_ms();
                            check!(lu >= t0 - 1 && lu <= t1, "last-used", "read_single reports last used {lu} not in [{}, {t1}]", t0 - 1);
                        }
                        drop(sv);
                        self.touch(&k, t0);
                        self.sync(Some(hi), Some(false))
                    }
                }
            }
            Op::Bulk { h, p, n, size } => {
                let hi = self.slot(*h)?;
                let hh = self.h(hi);
                let vals: Vec<(Vec<u8>, Bytes)> = (0..*n).map(|i| (self.bulk_key(p, i), self.fresh(*size as u32).0)).collect();
                let c = {
                    let g = hh.read().unwrap();
                    let mut b = to_ops(g.new_writer(), "new_writer")?;
                    for (k, d) in &vals {
                        let mut w = to_ops(b.new_value().begin(), "begin")?;
                        to_ops(w.write_all(d), "write")?;
                        to_ops(b.stage_write(k.clone(), w), "stage_write")?;
                    }
                    to_ops(b.commit(), "commit")?
                };
                check!(c.count() == vals.len(), "commit-count", "commit of {} writes counted {}", vals.len(), c.count());
                for (k, d) in vals {
                    self.put_model(k, d, t0);
                }
                self.bump("bulks");
                self.sync(Some(hi), Some(true))
            }
            Op::Del { h, k } => {
                let hi = self.slot(*h)?;
                let k = self.key(*k);
                let hh = self.h(hi);
                let r = to_ops(hh.read().unwrap().single_delete(&k), "single_delete")?;
                match (r, self.model.remove(&k)) {
                    (None, None) => {
                        self.bump("del-missing");
                        self.sync(Some(hi), Some(false))
                    }
                    (Some(st), Some(m)) => {
                        check!(st.size == m.data.len() as u64, "delete-stat", "single_delete reports size {} want {}", st.size, m.data.len());
                        if self.o.recency {
                            let lu = st.last_used.secs * 1000 + st.last_used.nanos as i64 / 1_000_000;
                            check!(lu >= m.lo && lu <= m.hi, "last-used", "single_delete reports last used {lu} not in [{}, {}]", m.lo, m.hi);
                        }
                        self.bump("deletes");
                        self.sync(Some(hi), Some(true))
                    }
                    (None, Some(_)) => fail("lost-key", format!("single_delete misses key {}", show(&k))),
                    (Some(_), None) => fail("ghost-key", format!("single_delete finds key {}", show(&k))),
                }
            }
            Op::Rename { h, a, b } => {
                let hi = self.slot(*h)?;
                let (a, b) = (self.key(*a), self.key(*b));
                let hh = self.h(hi);
                let r = hh.write().unwrap().rename_item(&a, &b);
                let src = self.model.get(&a).cloned();
                match (r, src) {
                    (Err(possum::Error::NoSuchKey), None) => {
                        self.bump("rename-missing");
                        self.sync(Some(hi), None)
                    }
                    (Err(e), None) => fail("op-error", format!("rename_item of a missing key: {e:?}")),
                    (Ok(_), None) => fail("rename", format!("rename_item of missing key {} succeeded", show(&a))),
                    (Err(e), Some(_)) => {
                        if a != b && self.model.contains_key(&b) {
                            self.bump("rename-collision");
                            self.sync(Some(hi), None)
                        } else {
                            fail("op-error", format!("rename_item {} -> {}: {e:?}", show(&a), show(&b)))
                        }
                    }
                    (Ok(ts), Some(m)) => {
                        check!(a == b || !self.model.contains_key(&b), "rename", "rename_item onto existing key {} succeeded", show(&b));
                        check!(ms(ts) >= m.lo && ms(ts) <= m.hi, "last-used", "rename_item returned last used {} not in [{}, {}]", ms(ts), m.lo, m.hi);
                        self.model.remove(&a);
                        self.model.insert(b, m);
                        self.bump("renames");
                        self.sync(Some(hi), Some(true))
                    }
                }
            }
            Op::MovePrefix { h, p, q } => {
                let hi = self.slot(*h)?;
                let (p, q) = (self.pfx(p), self.pfx(q));
                let hh = self.h(hi);
                let r = hh.read().unwrap().move_prefix(&p, &q);
                let moved: Vec<Vec<u8>> = self.model.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                let dst = |k: &[u8]| [&q[..], &k[p.len()..]].concat();
                let collide = moved.iter().any(|k| {
                    let d = dst(k);
                    d != *k && self.model.contains_key(&d)
                });
                match r {
                    Err(e) => {
                        check!(collide, "op-error", "move_prefix {} -> {}: {e:?}", show(&p), show(&q));
                        self.bump("movepfx-collision");
                        self.sync(Some(hi), None)
                    }
                    Ok(()) => {
                        // A collision with a key outside the moved set cannot succeed.
                        let hard = moved.iter().any(|k| {
                            let d = dst(k);
                            d != *k && self.model.contains_key(&d) && !d.starts_with(&p)
                        });
                        check!(!hard, "move-prefix", "move_prefix {} -> {} overwrote a key", show(&p), show(&q));
                        let taken: Vec<_> = moved.iter().map(|k| (dst(k), self.model.remove(k).unwrap())).collect();
                        let wrote = !taken.is_empty();
                        if wrote {
                            self.bump("movepfx");
                            if !self.model.is_empty() {
                                self.bump("movepfx-partial");
                            }
                        }
                        self.model.extend(taken);
                        self.sync(Some(hi), Some(wrote))
                    }
                }
            }
            Op::DelPrefix { h, p } => {
                let hi = self.slot(*h)?;
                let p = self.pfx(p);
                let hh = self.h(hi);
                to_ops(hh.read().unwrap().delete_prefix(&p), "delete_prefix")?;
                let n = self.model.len();
                self.model.retain(|k, _| !k.starts_with(&p));
                let wrote = self.model.len() != n;
                if wrote {
                    self.bump("delpfx");
                    if !self.model.is_empty() {
                        self.bump("delpfx-partial");
                    }
                }
                self.sync(Some(hi), Some(wrote))
            }
            Op::List { h, p } => {
                let hi = self.slot(*h)?;
                let p = self.pfx(p);
                let hh = self.h(hi);
                let items = to_ops(hh.read().unwrap().list_items(&p), "list_items")?;
                let mut got: Vec<Vec<u8>> = items.into_iter().map(|i| i.key).collect();
                got.sort();
                let want: Vec<Vec<u8>> = self.model.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                check!(got == want, "prefix-list", "list_items({}) = {:?}, want {:?}", show(&p), got, want);
                if !want.is_empty() && want.len() < self.model.len() {
                    self.bump("list-partial");
                }
                if p.last() == Some(&0xff) {
                    self.bump("prefix-ff");
                }
                Ok(())
            }
            Op::Import { h, k, size, cursor, holes } => {
                let hi = self.slot(*h)?;
                let k = self.key(*k);
                let (mut f, d, p, _) = self.import_src(*size, *cursor, *holes)?;
                let hh = self.h(hi);
                let n = to_ops(hh.write().unwrap().clone_from_file(k.clone(), &mut f), "clone_from_file")?;
                check!(n == d.len() as u64, "wrong-length", "clone_from_file returned {n}, source has {}", d.len());
                self.check_src(&p, &d)?;
                self.scribble_src(&p);
                self.put_model(k, d, t0);
                self.bump("imports");
                self.sync(Some(hi), Some(true))
            }
            Op::Snap { h, ks } => {
                let hi = self.slot(*h)?;
                if self.snaps.len() >= 6 {
                    self.snaps.remove(0);
                }
                let ks: Vec<_> = ks.iter().map(|k| self.key(*k)).collect();
                let s = self.take_snap(hi, &ks)?;
                if !s.ents.is_empty() {
                    self.bump("snapshots");
                }
                self.snaps.push(s);
                self.sync(Some(hi), Some(false))
            }
            Op::SnapPfx { h, p, rev } => {
                let hi = self.slot(*h)?;
                if self.snaps.len() >= 6 {
                    self.snaps.remove(0);
                }
                let p = self.pfx(p);
                let mut ks: Vec<_> = self.model.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                if *rev {
                    ks.reverse();
                }
                let s = self.take_snap(hi, &ks)?;
                if !s.ents.is_empty() {
                    self.bump("snapshots");
                }
                if s.ents.len() > 8 {
                    self.bump("wide-snapshots");
                }
                self.snaps.push(s);
                self.sync(Some(hi), Some(false))
            }
            Op::ReadAbort { h, ks } => {
                let hi = self.slot(*h)?;
                let ks: Vec<_> = ks.iter().map(|k| self.key(*k)).collect();
                let hh = self.h(hi);
                {
                    let g = hh.read().unwrap();
                    let mut rd = to_ops(g.read(), "read")?;
                    for k in &ks {
                        let v = to_ops(rd.add(k), "Reader::add")?;
                        check!(v.is_some() == self.model.contains_key(k), "lost-key", "reader presence of {}", show(k));
                    }
                }
                self.bump("read-aborts");
                self.sync(Some(hi), None)
            }
            Op::SnapRead { i, how } => {
                if self.snaps.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.snaps.len();
                for e in &self.snaps[i].ents {
                    Self::read_value(&e.sv, *how, &e.data, &format!("snapshot of key {}", show(&e.key)))?;
                }
                let changed = self.snaps[i].ents.iter().any(|e| self.model.get(&e.key).map(|m| m.vid) != Some(e.vid));
                if changed {
                    self.bump("snapread-after-change");
                }
                self.bump("snapreads");
                Ok(())
            }
            Op::SnapDrop { i } => {
                if !self.snaps.is_empty() {
                    let i = *i as usize % self.snaps.len();
                    self.snaps.remove(i);
                }
                Ok(())
            }
            Op::BNew { h } => {
                let hi = self.slot(*h)?;
                if self.batches.len() < 3 {
                    let bw = BatchWriter::new(self.h(hi));
                    self.batches.push(OB { h: hi, bw, writers: vec![], staged: vec![], renames: vec![] });
                }
                Ok(())
            }
            Op::BBegin { b } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let ob = &mut self.batches[b];
                if ob.writers.len() < 3 {
                    let vw = to_ops(ob.bw.new_value().begin(), "begin")?;
                    ob.writers.push(OW { vw, data: vec![] });
                }
                Ok(())
            }
            Op::BImport { b, k, size, cursor, holes } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let k = self.key(*k);
                let (mut f, d, p, _) = self.import_src(*size, *cursor, *holes)?;
                let ob = &mut self.batches[b];
                let mut vw = to_ops(ob.bw.new_value().clone_file(&mut f), "clone_file")?;
                let n = to_ops(vw.value_length(), "value_length")?;
                check!(n == d.len() as u64, "wrong-length", "imported value has length {n}, source {}", d.len());
                to_ops(ob.bw.stage_write(k.clone(), vw), "stage_write")?;
                ob.staged.push((k, d.clone()));
                self.check_src(&p, &d)?;
                self.scribble_src(&p);
                self.bump("batch-imports");
                Ok(())
            }
            Op::BWrite { b, w, size, how } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let (d, _) = self.fresh(*size);
                let ob = &mut self.batches[b];
                if ob.writers.is_empty() {
                    return Ok(());
                }
                let w = *w as usize % ob.writers.len();
                let ow = &mut ob.writers[w];
                match how % 4 {
                    // A program that goes on after errors: what was not accepted is written again.
                    0 => {
                        let (mut done, mut tries) = (0, 0);
                        while done < d.len() {
                            match ow.vw.write(&d[done..]) {
                                Ok(n) => {
                                    check!(n > 0 && n <= d.len() - done, "wrong-length", "write returned {n} for {} bytes", d.len() - done);
                                    done += n
                                }
                                Err(e) => {
                                    tries += 1;
                                    if tries > 60 {
                                        return to_ops(Err(e), "write");
                                    }
                                    if let Ok(n) = ow.vw.value_length() {
                                        check!(n == (ow.data.len() + done) as u64, "wrong-length", "value_length {n} after {} bytes were accepted and a write failed", ow.data.len() + done);
                                    }
                                }
                            }
                        }
                        if tries > 0 {
                            self.stats.entry("writes-retried".into()).and_modify(|n| *n += 1).or_insert(1);
                        }
                    }
                    1 => {
                        let n = to_ops(ow.vw.copy_from(Feed { data: &d, chunk: 0, fail: false, calls: 0 }), "copy_from")?;
                        check!(n == d.len() as u64, "wrong-length", "copy_from returned {n}, want {}", d.len());
                    }
                    2 => {
                        let f = to_ops(ow.vw.get_file(), "get_file")?;
                        to_ops(f.write_all(&d), "write to get_file")?
                    }
                    _ => {
                        for c in d.chunks(1000.max(d.len() / 7)) {
                            to_ops(ow.vw.write_all(c), "write")?
                        }
                    }
                }
                ow.data.extend_from_slice(&d);
                let n = to_ops(ow.vw.value_length(), "value_length")?;
                check!(n == ow.data.len() as u64, "wrong-length", "value_length {n}, wrote {}", ow.data.len());
                Ok(())
            }
            Op::BCopyFail { b, w, size, peek } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let (d, _) = self.fresh(*size);
                if self.batches[b].writers.is_empty() {
                    return Ok(());
                }
                let w = *w as usize % self.batches[b].writers.len();
                let hi = match peek {
                    Some(h) => Some(self.slot(*h)?),
                    None => None,
                };
                let mut ow = self.batches[b].writers.remove(w);
                let mut peeked = None;
                let r = {
                    let mut feed = Feed { data: &d, chunk: 3000, fail: true, calls: 0 };
                    let look = || {
                        if let Some(hi) = hi {
                            peeked = Some(self.verify_all(hi, *size as u8));
                        }
                    };
                    ow.vw.copy_from(Peeking { feed: &mut feed, look: Some(look) })
                };
                if let Some(p) = peeked {
                    p?;
                    self.bump("reads-while-copying");
                }
                check!(r.is_err(), "copy-fail", "copy_from of a failing source reported success");
                let n = to_ops(ow.vw.value_length(), "value_length")?;
                check!(n == ow.data.len() as u64, "copy-fail", "value_length {n} after a failed copy, want {}", ow.data.len());
                self.batches[b].writers.insert(w, ow);
                self.bump("failed-copies");
                Ok(())
            }
            Op::BStage { b, w, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let k = self.key(*k);
                let ob = &mut self.batches[b];
                if ob.writers.is_empty() {
                    return Ok(());
                }
                let w = *w as usize % ob.writers.len();
                let ow = ob.writers.remove(w);
                to_ops(ob.bw.stage_write(k.clone(), ow.vw), "stage_write")?;
                ob.staged.push((k, Rc::new(ow.data)));
                self.bump("staged");
                Ok(())
            }
            Op::BPut { b, k, size } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let k = self.key(*k);
                let (d, _) = self.fresh(*size);
                let ob = &mut self.batches[b];
                let mut vw = to_ops(ob.bw.new_value().begin(), "begin")?;
                to_ops(vw.write_all(&d), "write")?;
                to_ops(ob.bw.stage_write(k.clone(), vw), "stage_write")?;
                ob.staged.push((k, d));
                self.bump("staged");
                Ok(())
            }
            Op::BRetry { b, k, bad, size, peek } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let b = b as u8;
                // Batches and writers are chosen by their remainders.
                let n = self.batches.len();
                debug_assert!((b as usize) < n);
                self.step(&Op::BBegin { b })?;
                let w = (self.batches[b as usize].writers.len() - 1) as u8;
                self.step(&Op::BCopyFail { b, w, size: *bad, peek: Some(*peek) })?;
                self.step(&Op::BWrite { b, w, size: *size, how: *peek })?;
                self.step(&Op::BStage { b, w, k: *k })
            }
            Op::BMany { b, n, ks, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let mut x = (*k as u32).wrapping_mul(2654435761).wrapping_add(12345);
                for _ in 0..*n {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    let key = self.key(k.wrapping_add(((x >> 16) % *ks as u32) as u8));
                    let (d, _) = self.fresh((x >> 8) % 50);
                    let ob = &mut self.batches[b];
                    let mut vw = to_ops(ob.bw.new_value().begin(), "begin")?;
                    to_ops(vw.write_all(&d), "write")?;
                    to_ops(ob.bw.stage_write(key.clone(), vw), "stage_write")?;
                    ob.staged.push((key, d));
                }
                self.bump("many-staged");
                Ok(())
            }
            Op::BLend { b, rounds, open, size, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let mut key = *k;
                let last = [*open];
                for (i, n) in rounds.iter().chain(&last).enumerate() {
                    let mut vws = vec![];
                    for j in 0..*n as u32 {
                        let (d, _) = self.fresh(size / (1 + (i as u32 + j) % 3) + j);
                        let mut vw = to_ops(self.batches[b].bw.new_value().begin(), "begin")?;
                        to_ops(vw.write_all(&d), "write")?;
                        vws.push(OW { vw, data: d.to_vec() });
                    }
                    if i == rounds.len() {
                        self.batches[b].writers.extend(vws);
                        break;
                    }
                    if key & 64 != 0 {
                        vws.reverse();
                    }
                    for ow in vws {
                        key = key.wrapping_add(1);
                        let key = self.key(key);
                        let ob = &mut self.batches[b];
                        to_ops(ob.bw.stage_write(key.clone(), ow.vw), "stage_write")?;
                        ob.staged.push((key, Rc::new(ow.data)));
                    }
                }
                self.bump("lent-rounds");
                Ok(())
            }
            Op::BRename { b, i, k } | Op::BRenameEmpty { b, i, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                if self.snaps.is_empty() {
                    return Ok(());
                }
                let s = &self.snaps[*i as usize % self.snaps.len()];
                if s.ents.is_empty() {
                    return Ok(());
                }
                let e = &s.ents[(*i as usize / 7) % s.ents.len()];
                // Renaming an empty value is a recorded finding; it is not generated here.
                if e.data.is_empty() && !matches!(op, Op::BRenameEmpty { .. }) {
                    self.bump("excluded-empty-rename");
                    return Ok(());
                }
                let k = self.key(*k);
                let ob = &mut self.batches[b];
                ob.bw.rename_value(*e.sv, k.clone());
                ob.renames.push((e.vid, k));
                self.bump("batch-renames");
                Ok(())
            }
            Op::BCommit { b } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let ob = self.batches.remove(b);
                let OB { h, bw, writers, staged, renames } = ob;
                let r = to_ops(bw.commit(), "commit")?;
                check!(r.count() == staged.len(), "commit-count", "commit reports {} writes, staged {}", r.count(), staged.len());
                if staged.len() > 1 {
                    self.bump("multi-commits");
                }
                if !writers.is_empty() {
                    self.bump("commit-with-open-writer");
                }
                self.bump("commits");
                self.commit_model(staged, renames, t0);
                // Writers that were never staged outlive the batch for a moment.
                self.sync(Some(h), Some(true))?;
                if (self.o.deep || self.o.contents) && !writers.is_empty() && !self.quiet {
                    let hi = self.slot(0)?;
                    self.verify_all(hi, 1)?;
                }
                drop(writers);
                Ok(())
            }
            Op::BDrop { b } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let ob = self.batches.remove(b);
                if !ob.staged.is_empty() || ob.writers.iter().any(|w| !w.data.is_empty()) {
                    self.bump("aborted-with-data");
                }
                drop(ob);
                self.sync(None, None)
            }
            Op::WDrop { b, w } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let ob = &mut self.batches[b];
                if !ob.writers.is_empty() {
                    let w = *w as usize % ob.writers.len();
                    let ow = ob.writers.remove(w);
                    if !ow.data.is_empty() {
                        self.bump("writer-dropped-with-data");
                    }
                }
                Ok(())
            }
            Op::Limits { h, max, nopunch } => {
                let hi = self.slot(*h)?;
                let hh = self.h(hi);
                let max = max.map(|m| m as u64);
                to_ops(set_limits(&mut hh.write().unwrap(), max, *nopunch), "set_instance_limits")?;
                let s = self.hs[hi].as_mut().unwrap();
                s.max = max;
                s.nopunch = *nopunch;
                self.bump("limits-set");
                self.sync(Some(hi), Some(false))
            }
            Op::Open => {
                if self.hs.iter().flatten().count() < MAX_HANDLES {
                    let h = self.open_handle()?;
                    self.hs.push(Some(HS { h, max: None, nopunch: self.always_nopunch }));
                }
                self.sync(None, None)
            }
            Op::Reopen { h } => {
                let hi = self.slot(*h)?;
                self.close(hi);
                let h = self.open_handle()?;
                self.hs.push(Some(HS { h, max: None, nopunch: self.always_nopunch }));
                self.bump("reopens");
                self.sync(None, None)
            }
            Op::Close { h } => {
                let hi = self.slot(*h)?;
                self.close(hi);
                self.bump("closes");
                Ok(())
            }
            Op::Cleanup { h } => {
                let hi = self.slot(*h)?;
                self.cleanup(hi)
            }
            Op::Leak { kind, n } => self.leak(*kind, *n),
            Op::Tick { ms } => {
                sim::advance_ms(*ms as u64);
                self.bump("ticks");
                Ok(())
            }
            Op::Pause { ms } => {
                sim::sleep_ns(*ms as u64 * 1_000_000);
                Ok(())
            }
            Op::Settle => {
                sim::settle(4);
                Ok(())
            }
            Op::Verify { h } => {
                let hi = self.slot(*h)?;
                self.verify_all(hi, *h)
            }
        }
    }
    /// Files below snapshot directories, and those of them that are open in this process.
    fn snapshot_files(&self) -> (BTreeSet<PathBuf>, BTreeSet<PathBuf>, BTreeSet<PathBuf>) {
        let _e = sim::exempt();
        let (mut all, mut dirs) = (BTreeSet::new(), BTreeSet::new());
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            if e.file_type().unwrap().is_dir() && e.file_name().to_string_lossy().starts_with("snapshot-") {
                dirs.insert(e.path());
                for f in std::fs::read_dir(e.path()).unwrap().flatten() {
                    all.insert(f.path());
                }
            }
        }
        let open: BTreeSet<PathBuf> = std::fs::read_dir("/proc/self/fd").unwrap().flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).collect();
        let used = all.iter().filter(|p| open.contains(*p)).cloned().collect();
        (all, used, dirs)
    }
    fn cleanup(&mut self, hi: usize) -> R<()> {
        let hh = self.h(hi);
        if !self.o.dirs {
            to_ops(hh.read().unwrap().cleanup_snapshots(), "cleanup_snapshots")?;
            return Ok(());
        }
        let (all, used, _) = self.snapshot_files();
        let bytes: Vec<(PathBuf, Vec<u8>)> = used.iter().map(|p| (p.clone(), std::fs::read(p).unwrap())).collect();
        to_ops(hh.read().unwrap().cleanup_snapshots(), "cleanup_snapshots")?;
        let (after, _, dirs) = self.snapshot_files();
        for (p, b) in bytes {
            match std::fs::read(&p) {
                Err(e) => return fail("cleanup-removed-used", format!("cleanup removed {} which is in use: {e}", p.display())),
                Ok(x) => check!(x == b, "cleanup-changed-used", "cleanup changed {}", p.display()),
            }
        }
        for (p, b) in &self.foreign {
            match std::fs::metadata(p) {
                Err(e) => return fail("cleanup-removed-foreign", format!("cleanup removed {}: {e}", p.display())),
                Ok(m) if m.is_file() => check!(std::fs::read(p).unwrap() == *b, "cleanup-changed-foreign", "cleanup changed {}", p.display()),
                Ok(_) => {}
            }
        }
        for p in &after {
            check!(used.contains(p) || self.foreign.iter().any(|f| f.0 == *p), "cleanup-kept-unused", "cleanup kept {} which nothing uses", p.display());
        }
        for d in dirs {
            check!(after.iter().any(|p| p.starts_with(&d)), "cleanup-kept-empty-dir", "cleanup kept the empty {}", d.display());
        }
        if !used.is_empty() {
            self.bump("cleanup-with-live");
        }
        if all.len() > after.len() {
            self.bump("cleanup-removed");
        }
        self.bump("cleanups");
        Ok(())
    }
    fn leak(&mut self, kind: u8, n: u8) -> R<()> {
        std::fs::create_dir_all(&self.dir).unwrap();
        let tag = self.next_tag;
        self.next_tag += 1;
        let body = content(tag, n as usize + 1);
        let sd = self.dir.join(format!("snapshot-plant{tag}"));
        let value = |d: &Path, i: u8| d.join(format!("values-plant{tag}{i}"));
        match kind {
            0..=2 => {
                std::fs::create_dir(&sd).unwrap();
                self.planted.push(sd.clone());
                for i in 0..n % 3 {
                    std::fs::write(value(&sd, i), &body[..]).unwrap();
                }
                if kind == 1 {
                    let p = value(&sd, 9);
                    std::fs::write(&p, &body[..]).unwrap();
                    let f = File::open(&p).unwrap();
                    let _e = sim::exempt();
                    let r = if self.mode == Mode::Flock {
                        unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_SH | libc::LOCK_NB) }
                    } else {
                        let mut l: libc::flock64 = unsafe { std::mem::zeroed() };
                        l.l_type = libc::F_RDLCK as i16;
                        unsafe { libc::fcntl(f.as_raw_fd(), libc::F_OFD_SETLK, &l) }
                    };
                    assert_eq!(r, 0);
                    self.locked.push((p, f));
                }
                if kind == 2 {
                    let p = sd.join("other");
                    std::fs::write(&p, &body[..]).unwrap();
                    self.foreign.push((p, body.to_vec()));
                }
            }
            3 => {
                let p = match n % 4 {
                    0 => self.dir.join(format!("snapshot-{tag}-file")),
                    1 => self.dir.join(format!("my-snapshot-{tag}")).join("values-x"),
                    2 => self.dir.join(format!("values{tag}")),
                    _ => self.dir.join(format!("other{tag}")).join("snapshot-y").join("values-x"),
                };
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, &body[..]).unwrap();
                self.planted.push(p.clone());
                self.foreign.push((p, body.to_vec()));
            }
            4 => {
                if let Some(s) = self.snaps.get(n as usize % self.snaps.len().max(1)) {
                    if let Some(e) = s.ents.first() {
                        e.sv.leak_snapshot_dir();
                        self.leaked = true;
                        self.bump("leaked-dirs");
                    }
                }
            }
            _ => {
                if !self.locked.is_empty() {
                    let i = n as usize % self.locked.len();
                    self.locked.remove(i);
                }
            }
        }
        Ok(())
    }
    fn batch(&self, b: u8) -> Option<usize> {
        if self.batches.is_empty() {
            None
        } else {
            Some(b as usize % self.batches.len())
        }
    }
    fn close(&mut self, hi: usize) {
        // Batches of the handle keep it alive; they end with it.
        self.batches.retain(|b| b.h != hi);
        self.hs[hi] = None;
    }

    /// Ends the history: everything is released, reclamation runs to its end, then all is checked.
    pub fn finish(&mut self) -> R<()> {
        for i in 0..self.snaps.len() {
            for e in &self.snaps[i].ents {
                Self::read_value(&e.sv, 5, &e.data, &format!("snapshot of key {} at the end", show(&e.key)))?;
            }
        }
        sim::settle(3);
        for s in &self.snaps {
            for e in &s.ents {
                Self::read_value(&e.sv, 1, &e.data, &format!("snapshot of key {} after settling", show(&e.key)))?;
            }
        }
        self.snaps.clear();
        self.batches.clear();
        let hi = self.slot(0)?;
        let h = self.h(hi);
        let idle = sim::settle(30);
        if self.o.reclaim {
            check!(idle, "reclaim-stuck", "reclamation does not come to rest although nothing is in use");
        }
        self.sync(None, None)?;
        if self.o.reclaim {
            self.check_reclaimed()?;
        }
        drop(h);
        let mut how = 0;
        for i in 0..self.hs.len() {
            if self.hs[i].as_ref().map(|h| h.max.is_none()).unwrap_or(false) {
                self.verify_all(i, how)?;
                how += 1;
            }
        }
        // Drop everything, let reclamation finish by itself, and look again from a fresh handle.
        let done: Vec<_> = self.hs.iter().flatten().map(|h| h.h.read().unwrap().get_value_puncher_done()).collect();
        for i in 0..self.hs.len() {
            self.close(i);
        }
        for _ in 0..40 {
            if sim::live_others() == 0 {
                break;
            }
            sim::sleep_ns(1_100_000_000);
        }
        if self.o.reclaim {
            check!(sim::live_others() == 0, "reclaim-stuck", "the reclamation thread of a dropped handle does not end");
            for d in done {
                d.wait();
            }
        }
        if self.o.dirs {
            let left = |w: &World| -> Vec<PathBuf> {
                std::fs::read_dir(&w.dir)
                    .unwrap()
                    .map(|e| e.unwrap().path())
                    .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("snapshot-") && !w.planted.contains(p))
                    .collect()
            };
            if !self.leaked {
                let l = left(self);
                check!(l.is_empty(), "snapshot-left", "{l:?} left behind");
            }
            let hi = self.slot(0)?;
            self.cleanup(hi)?;
            let l = left(self);
            check!(l.is_empty(), "snapshot-left", "{l:?} left behind after a cleanup");
        }
        let hi = self.slot(0)?;
        self.verify_all(hi, 5)?;
        if self.o.accounting {
            let l = self.listing()?;
            self.accounting(&l)?;
        }
        self.close(hi);
        for _ in 0..40 {
            if sim::live_others() == 0 {
                break;
            }
            sim::sleep_ns(1_100_000_000);
        }
        Ok(())
    }

    fn check_reclaimed(&mut self) -> R<()> {
        let all_nopunch = !self.unlisted && self.deletions.iter().all(|d| !d.expected);
        let ds = self.deletions.clone();
        for d in &ds {
            let p = self.dir.join(&d.loc.file);
            if d.expected {
                if d.start >= d.end {
                    continue;
                }
                let Ok(f) = File::open(&p) else { continue };
                let data = first_data(&f, d.start);
                if let Some(x) = data {
                    check!(x >= d.end, "not-reclaimed", "block at {x} of {} still allocated; deleted value at {}+{} (expect {}..{} free)", d.loc.file, d.loc.off, d.loc.len, d.start, d.end);
                }
                self.bump("reclaimed-regions");
            } else if all_nopunch {
                // Nothing may be reclaimed at all.
                let f = match File::open(&p) {
                    Ok(f) => f,
                    Err(e) => return fail("punched-though-disabled", format!("{}: {e}", d.loc.file)),
                };
                let n = f.metadata().unwrap().len();
                check!(n >= d.loc.off + d.loc.len, "punched-though-disabled", "{} truncated to {n}", d.loc.file);
                self.bump("kept-regions");
                let x = first_hole(&f, d.loc.off);
                check!(x >= d.loc.off + d.loc.len, "punched-though-disabled", "{} has a hole at {x} inside a deleted value at {}+{}", d.loc.file, d.loc.off, d.loc.len);
            }
        }
        Ok(())
    }
}

pub fn first_data(f: &File, off: u64) -> Option<u64> {
    let _e = sim::exempt();
    let r = unsafe { libc::lseek64(f.as_raw_fd(), off as i64, libc::SEEK_DATA) };
    if r < 0 {
        None
    } else {
        Some(r as u64)
    }
}
pub fn first_hole(f: &File, off: u64) -> u64 {
    let _e = sim::exempt();
    let r = unsafe { libc::lseek64(f.as_raw_fd(), off as i64, libc::SEEK_HOLE) };
    if r < 0 {
        u64::MAX
    } else {
        r as u64
    }
}

pub fn list_handle(h: &H) -> R<Listing> {
    let items = to_ops(h.read().unwrap().list_items(b""), "list_items")?;
    let mut l = Listing::new();
    for it in items {
        let loc = it.value.location.into_non_zero().map(|n| Loc { file: n.file_id.to_string(), off: n.file_offset, len: n.length });
        let e = Listed { len: it.value.length(), lu: ms(it.value.last_used()), loc };
        check!(l.insert(it.key.clone(), e).is_none(), "duplicate-key", "key {} listed twice", show(&it.key));
    }
    Ok(l)
}
