//! C19: opening directories in every state, with files that do not belong to the store.
use super::*;
use crate::check;
use crate::data::*;
use possum::walk::EntryType;
use possum::ReadTransaction;
use proptest::prelude::*;
use rusqlite::Connection;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::{Arc, RwLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Init {
    Missing,
    Nested,
    Empty,
    /// an empty manifest file
    ZeroDb,
    /// a store of this version
    Current,
    Newer { by: u16 },
    Older { back: u8, schema: u8, wal: bool, files: Vec<u16>, held_ms: u16 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum What {
    File(u16),
    Dir(u8),
    Link,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Foreign {
    name: Vec<u8>,
    what: What,
    /// inside a snapshot directory
    inner: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Act {
    Open,
    Close(u8),
    Put(u8, u16),
    Del(u8),
    Get(u8),
    Walk,
    WalkHandle,
    Cleanup,
    Settle,
    /// a snapshot directory of this store
    Snapshot,
    OpenDuringRead,
    OpenThreads(u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct OCase {
    mode: Mode,
    seed: u32,
    sched: sim::Sched,
    init: Init,
    vals: Vec<u16>,
    foreign: Vec<Foreign>,
    acts: Vec<Act>,
}

fn strat() -> BoxedStrategy<OCase> {
    let init = prop_oneof![
        1 => Just(Init::Missing),
        1 => Just(Init::Nested),
        1 => Just(Init::Empty),
        1 => Just(Init::ZeroDb),
        4 => Just(Init::Current),
        2 => prop_oneof![Just(1u16), 1u16..2000].prop_map(|by| Init::Newer { by }),
        5 => (0u8..4, 0u8..5, any::<bool>(), proptest::collection::vec(0u16..9000, 0..4), prop_oneof![3 => Just(0u16), 1 => 1u16..5000])
            .prop_map(|(back, schema, wal, files, held_ms)| Init::Older { back, schema, wal, files, held_ms }),
    ];
    // None of these is a name the store uses.
    let name = prop_oneof![
        Just(b"valuesXXXX".to_vec()),
        Just(b"values".to_vec()),
        Just(b"my-values-0000beef".to_vec()),
        Just(b"Values-0000beef".to_vec()),
        Just(b"manifest".to_vec()),
        Just(b"manifest.d".to_vec()),
        Just(b"amanifest.db".to_vec()),
        Just(b"snapshot".to_vec()),
        Just(b".hidden".to_vec()),
        Just(b".clone".to_vec()),
        Just(b"\xff\xfe".to_vec()),
        Just(b"a\xffb".to_vec()),
        Just("\u{1F980} file".as_bytes().to_vec()),
        proptest::collection::vec(b'a'..b'f', 1..6),
    ];
    // Names the store uses, on things that are not what it uses them for.
    let odd = prop_oneof![
        (prop_oneof![Just(b"values-0000beef".to_vec()), Just(b"manifest.dbx".to_vec()), Just(b"manifest.db-old".to_vec())], prop_oneof![Just(What::Dir(0)), (1u8..3).prop_map(What::Dir), Just(What::Link)]),
        (Just(b"snapshot-abc".to_vec()), prop_oneof![(0u16..500).prop_map(What::File), Just(What::Link)]),
    ];
    let what = prop_oneof![5 => (0u16..6000).prop_map(What::File), 2 => (0u8..3).prop_map(What::Dir), 1 => Just(What::Link)];
    let foreign = prop_oneof![4 => (name, what).boxed(), 2 => odd.boxed()].prop_flat_map(|(name, what)| prop::bool::weighted(0.15).prop_map(move |inner| Foreign { name: name.clone(), what: what.clone(), inner }));
    let act = prop_oneof![
        3 => Just(Act::Open),
        2 => any::<u8>().prop_map(Act::Close),
        4 => (0u8..5, 0u16..9000).prop_map(|(k, n)| Act::Put(k, n)),
        2 => (0u8..5).prop_map(Act::Del),
        3 => (0u8..5).prop_map(Act::Get),
        2 => Just(Act::Walk),
        2 => Just(Act::WalkHandle),
        2 => Just(Act::Cleanup),
        1 => Just(Act::Settle),
        2 => Just(Act::Snapshot),
        1 => Just(Act::OpenDuringRead),
        1 => (2u8..4).prop_map(Act::OpenThreads),
    ];
    let mode = prop_oneof![Just(Mode::Seg), Just(Mode::Flock), Just(Mode::Clone)];
    (mode, any::<u32>(), crate::engine::sched(40), init, proptest::collection::vec(0u16..9000, 0..5), proptest::collection::vec(foreign, 0..5), proptest::collection::vec(act, 0..16))
        .prop_map(|(mode, seed, sched, init, vals, foreign, acts)| OCase { mode, seed, sched, init, vals, foreign, acts })
        .boxed()
}

use crate::engine::to_ops as ok;
type H = Arc<RwLock<possum::Handle>>;

/// Everything about a tree except what the store keeps there.
#[derive(Debug, PartialEq, Clone)]
enum Node {
    File(Vec<u8>),
    Dir(BTreeSet<OsString>),
    Link(PathBuf),
}
fn node(p: &Path) -> Option<Node> {
    let m = std::fs::symlink_metadata(p).ok()?;
    Some(if m.is_dir() {
        Node::Dir(std::fs::read_dir(p).unwrap().map(|e| e.unwrap().file_name()).collect())
    } else if m.is_file() {
        Node::File(std::fs::read(p).unwrap())
    } else {
        Node::Link(std::fs::read_link(p).unwrap())
    })
}

struct W<'a> {
    store: PathBuf,
    foreign: BTreeMap<PathBuf, Node>,
    hs: Vec<H>,
    model: BTreeMap<Vec<u8>, Vec<u8>>,
    snaps: Vec<Vec<(possum::SnapshotValue<possum::Value>, Vec<u8>)>>,
    o: &'a mut Outcome,
}
impl W<'_> {
    fn check_foreign(&self, when: &str) -> R<()> {
        let _e = sim::exempt();
        for (p, n) in &self.foreign {
            let got = node(p);
            check!(got.as_ref() == Some(n), "foreign-changed", "{when}: {} is {}", p.display(), if got.is_some() { "changed" } else { "gone" });
        }
        Ok(())
    }
    fn check_handle(&self, h: &H, when: &str) -> R<()> {
        let g = h.read().unwrap();
        let items = ok(g.list_items(b""), "list_items")?;
        let got: BTreeMap<Vec<u8>, u64> = items.iter().map(|i| (i.key.clone(), i.value.length())).collect();
        let want: BTreeMap<Vec<u8>, u64> = self.model.iter().map(|(k, v)| (k.clone(), v.len() as u64)).collect();
        check!(got == want && items.len() == want.len(), "contents", "{when}: listing {got:?}, want {want:?}");
        let tx = ok(g.start_deferred_transaction_for_read(), "tx")?;
        let sum = ok(tx.sum_value_length(), "sum")?;
        check!(sum == want.values().sum::<u64>(), "contents", "{when}: sum {sum}");
        drop(tx);
        for (k, v) in &self.model {
            let r = ok(g.read_single(k), "read_single")?;
            check!(r.is_some(), "contents", "{when}: {} is missing", show(k));
            let got = ok(r.unwrap().view(|b| b.to_vec()), "view")?;
            check!(got == *v, "contents", "{when}: {}: {}", show(k), diff(&got, v));
        }
        Ok(())
    }
    fn open(&mut self, when: &str) -> R<()> {
        let h = Arc::new(RwLock::new(ok(possum::Handle::new(self.store.clone()), when)?));
        self.check_foreign(when)?;
        self.hs.push(h.clone());
        let when = format!("after {when}");
        for h in self.hs.clone() {
            self.check_handle(&h, &when)?;
        }
        Ok(())
    }
    fn h(&mut self) -> R<H> {
        if self.hs.is_empty() {
            self.open("opening")?;
        }
        Ok(self.hs.last().unwrap().clone())
    }
    /// Every entry exactly once and classified by what it is.
    fn check_walk(&self, got: Vec<possum::walk::Entry>) -> R<()> {
        let mut want: BTreeMap<PathBuf, EntryType> = BTreeMap::new();
        for e in std::fs::read_dir(&self.store).unwrap().flatten() {
            let n = e.file_name();
            let n = n.as_bytes();
            let t = e.file_type().unwrap();
            let ty = if n.starts_with(b"manifest.db") && t.is_file() {
                EntryType::ManifestFile
            } else if n.starts_with(b"values-") && t.is_file() {
                EntryType::ValuesFile
            } else if n.starts_with(b"snapshot-") && t.is_dir() {
                for f in std::fs::read_dir(e.path()).unwrap().flatten() {
                    let v = f.file_name().as_bytes().starts_with(b"values-") && f.file_type().unwrap().is_file();
                    want.insert(f.path(), if v { EntryType::SnapshotValue } else { EntryType::Unknown });
                }
                EntryType::SnapshotDir
            } else {
                EntryType::Unknown
            };
            want.insert(e.path(), ty);
        }
        let n = got.len();
        for e in &got {
            let Some(t) = want.remove(&e.path) else { return fail("walk", format!("entry {} twice or made up", e.path.display())) };
            check!(t == e.entry_type, "walk", "{} is classified {:?}, want {t:?}", e.path.display(), e.entry_type);
            let id = e.file_id().map(|i| i.to_string());
            let name = e.path.file_name().unwrap().to_string_lossy().into_owned();
            let want = match e.entry_type {
                EntryType::SnapshotValue | EntryType::ValuesFile => Some(name),
                _ => None,
            };
            check!(id == want, "walk", "file id of {} is {id:?}", e.path.display());
        }
        check!(want.is_empty(), "walk", "missing {:?} of {n}", want.keys());
        Ok(())
    }
}

fn run(c: &OCase, dir: &Path, o: &mut Outcome) -> R<()> {
    let root = dir.join("root");
    let store = match c.init {
        Init::Nested => root.join("a").join("b"),
        Init::Missing => root.join("store"),
        _ => root.clone(),
    };
    let mut w = W { store: store.clone(), foreign: Default::default(), hs: vec![], model: Default::default(), snaps: vec![], o };
    // The version new stores get.
    let current: u32 = {
        let p = dir.join("fresh");
        drop(ok(possum::Handle::new(p.clone()), "Handle::new of a fresh directory")?);
        sim::settle(3);
        let c = Connection::open(p.join("manifest.db")).unwrap();
        c.pragma_query_value(None, "user_version", |r| r.get(0)).unwrap()
    };
    let fill = |w: &mut W| -> R<()> {
        let h = ok(possum::Handle::new(store.clone()), "Handle::new")?;
        for (i, n) in c.vals.iter().enumerate() {
            let d = content(i as u64 + 1, *n as usize).to_vec();
            ok(h.single_write_from(vec![b'v', i as u8], &d[..]), "single_write_from")?;
            w.model.insert(vec![b'v', i as u8], d);
        }
        drop(h);
        sim::settle(3);
        Ok(())
    };
    let set_version = |v: u32| {
        let c = Connection::open(store.join("manifest.db")).unwrap();
        c.pragma_update(None, "user_version", v).unwrap();
    };
    let mut holder = None;
    match &c.init {
        Init::Missing | Init::Nested => {}
        Init::Empty => std::fs::create_dir_all(&root).unwrap(),
        Init::ZeroDb => {
            std::fs::create_dir_all(&root).unwrap();
            std::fs::write(root.join("manifest.db"), b"").unwrap();
        }
        Init::Current => fill(&mut w)?,
        Init::Newer { by } => {
            fill(&mut w)?;
            set_version(current + *by as u32);
        }
        Init::Older { back, schema, wal, files, held_ms } => {
            let v = current.saturating_sub(1 + *back as u32);
            std::fs::create_dir_all(&root).unwrap();
            if *schema == 0 {
                fill(&mut w)?;
                w.model.clear();
                set_version(v);
            } else {
                let c = Connection::open(root.join("manifest.db")).unwrap();
                if *wal {
                    let _: String = c.query_row("pragma journal_mode=wal", [], |r| r.get(0)).unwrap();
                }
                let sql = match schema {
                    1 => "create table keys (key blob, value_id integer); insert into keys values ('old', 1); create table \"values\" (value_id integer primary key, file_id text, file_offset integer, value_length integer)",
                    2 => "create table sums (x); create table other (y); create index last_used_index on other (y); insert into sums values (12)",
                    3 => "create table keys (key_id integer primary key, key text); create view sums as select 7 as value; create trigger value_length_sum_on_delete delete on keys begin select 1; end",
                    _ => "create table t (a); insert into t values (randomblob(20000))",
                };
                c.execute_batch(sql).unwrap();
                c.pragma_update(None, "user_version", v).unwrap();
            }
            for (i, n) in files.iter().enumerate() {
                let p = root.join(format!("values-{:08x}", 0xabc0 + i));
                std::fs::write(&p, &content(900 + i as u64, *n as usize)[..]).unwrap();
                if i == 0 && *held_ms > 0 {
                    // Someone still reads it.
                    use possum::sys::{FileLocking, FlockArg};
                    let f = std::fs::OpenOptions::new().read(true).open(&p).unwrap();
                    assert!(f.lock_max_segment(FlockArg::LockSharedNonblock).unwrap());
                    let ms = *held_ms as u64;
                    holder = Some(std::thread::spawn(move || {
                        std::thread::sleep(std::time::Duration::from_millis(ms));
                        let still = p.exists();
                        drop(f);
                        still
                    }));
                }
            }
            w.o.bump("older", 1);
        }
    }
    // Things that are not the store's.
    let target = dir.join("outside");
    std::fs::write(&target, b"not the store's").unwrap();
    w.foreign.insert(target.clone(), node(&target).unwrap());
    if !matches!(c.init, Init::Missing | Init::Nested) {
        for f in &c.foreign {
            let parent = if f.inner { root.join("snapshot-planted") } else { root.clone() };
            if f.inner {
                if f.name.starts_with(b"values-") {
                    continue;
                }
                std::fs::create_dir_all(&parent).unwrap();
            }
            let p = parent.join(OsString::from_vec(f.name.clone()));
            if std::fs::symlink_metadata(&p).is_ok() {
                continue;
            }
            match &f.what {
                What::File(n) => std::fs::write(&p, &content(500, *n as usize)[..]).unwrap(),
                What::Dir(n) => {
                    std::fs::create_dir(&p).unwrap();
                    for i in 0..*n {
                        let q = p.join(if i == 0 { "values-0000beef".to_string() } else { format!("f{i}") });
                        std::fs::write(&q, b"inside").unwrap();
                        w.foreign.insert(q.clone(), node(&q).unwrap());
                    }
                }
                What::Link => std::os::unix::fs::symlink(&target, &p).unwrap(),
            }
            w.foreign.insert(p.clone(), node(&p).unwrap());
            w.o.bump("foreign", 1);
            if std::str::from_utf8(&f.name).is_err() {
                w.o.bump("foreign-not-utf8", 1);
            }
        }
    }
    sim::progress();
    w.open("the first opening")?;
    if let Some(t) = holder {
        let still = t.join().unwrap();
        check!(still, "upgrade-removed-used", "a values file was removed while it was in use");
        w.o.bump("upgrade-waited", 1);
    }
    if matches!(c.init, Init::Older { .. }) {
        for e in std::fs::read_dir(&root).unwrap().flatten() {
            let values = e.file_name().as_bytes().starts_with(b"values-") && e.file_type().unwrap().is_file();
            check!(!values, "upgrade-left-values", "{} survives the upgrade", e.path().display());
        }
        let conn = Connection::open(root.join("manifest.db")).unwrap();
        let v: u32 = conn.pragma_query_value(None, "user_version", |r| r.get(0)).unwrap();
        check!(v == current, "upgrade-version", "version is {v} after the upgrade, want {current}");
    }
    if let Init::Newer { by } = c.init {
        let conn = Connection::open(root.join("manifest.db")).unwrap();
        let v: u32 = conn.pragma_query_value(None, "user_version", |r| r.get(0)).unwrap();
        check!(v == current + by as u32, "version-changed", "opening a newer store set its version to {v}");
        w.o.bump("newer", 1);
    }
    let mut tag = 1000;
    for (i, a) in c.acts.iter().enumerate() {
        sim::progress();
        let when = format!("act {i} {a:?}");
        match a {
            Act::Open => {
                if w.hs.len() < 4 {
                    w.open(&when)?;
                    w.o.bump("opens", 1);
                }
            }
            Act::Close(n) => {
                if !w.hs.is_empty() {
                    let n = *n as usize % w.hs.len();
                    w.hs.remove(n);
                }
            }
            Act::Put(k, n) => {
                tag += 1;
                let d = content(tag, *n as usize).to_vec();
                let h = w.h()?;
                let r = h.read().unwrap().single_write_from(vec![*k], &d[..]);
                ok(r, &when)?;
                w.model.insert(vec![*k], d);
                w.check_handle(&h, &when)?;
                w.o.bump("puts", 1);
            }
            Act::Del(k) => {
                let h = w.h()?;
                let r = h.read().unwrap().single_delete(&[*k]);
                let was = ok(r, &when)?.is_some();
                check!(was == w.model.remove(&vec![*k]).is_some(), "contents", "{when}: deleted {was}");
            }
            Act::Get(k) => {
                let h = w.h()?;
                let r = h.read().unwrap().read_single(&[*k]);
                let r = ok(r, &when)?;
                check!(r.is_some() == w.model.contains_key(&vec![*k]), "contents", "{when}: found {}", r.is_some());
            }
            Act::Walk => {
                w.h()?;
                sim::settle(2);
                w.check_walk(ok(possum::walk::walk_dir(&w.store), &when)?)?;
                w.o.bump("walks", 1);
            }
            Act::WalkHandle => {
                let h = w.h()?;
                sim::settle(2);
                let r = h.read().unwrap().walk_dir();
                w.check_walk(ok(r, &when)?)?;
                let r = h.read().unwrap().dir().walk_dir();
                w.check_walk(ok(r, &when)?)?;
                w.o.bump("walks", 1);
            }
            Act::Cleanup => {
                let h = w.h()?;
                let r = h.read().unwrap().cleanup_snapshots();
                ok(r, &when)?;
                w.o.bump("cleanups", 1);
            }
            Act::Settle => {
                sim::settle(4);
            }
            Act::Snapshot => {
                let h = w.h()?;
                let g = h.read().unwrap();
                let mut rd = ok(g.read(), &when)?;
                let mut vs = vec![];
                for (k, d) in &w.model {
                    vs.push((ok(rd.add(k), &when)?.unwrap(), d.clone()));
                }
                let s = ok(rd.begin(), &when)?;
                w.snaps.push(vs.into_iter().map(|(v, d)| (s.value(v), d)).collect());
                w.o.bump("snapshots", 1);
            }
            Act::OpenDuringRead => {
                let h = w.h()?;
                let g = h.read().unwrap();
                let rd = ok(g.read(), &when)?;
                let h2 = Arc::new(RwLock::new(ok(possum::Handle::new(w.store.clone()), &when)?));
                drop(rd);
                drop(g);
                w.check_handle(&h2, &when)?;
                w.o.bump("opens", 1);
            }
            Act::OpenThreads(n) => {
                w.h()?;
                let ts: Vec<_> = (0..*n)
                    .map(|_| {
                        let p = w.store.clone();
                        std::thread::spawn(move || possum::Handle::new(p).map(|h| h.list_items(b"").map(|l| l.len())))
                    })
                    .collect();
                for t in ts {
                    let Ok(r) = t.join() else { return fail("panic", "opening panicked") };
                    let n = ok(ok(r, &when)?, &when)?;
                    check!(n == w.model.len(), "contents", "{when}: lists {n}, want {}", w.model.len());
                }
                w.o.bump("opens", 1);
            }
        }
        w.check_foreign(&when)?;
    }
    for s in &w.snaps {
        for (sv, d) in s {
            let got = ok(sv.view(|b| b.to_vec()), "view")?;
            check!(got == *d, "contents", "snapshot at the end: {}", diff(&got, d));
        }
    }
    w.snaps.clear();
    w.hs.clear();
    sim::settle(5);
    w.open("the last opening")?;
    Ok(())
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check {
        name: "opening",
        strat: strat(),
        eval: Box::new(|c: &OCase| simulated(c.mode, false, &c.sched, c.seed as u64, |dir, o| run(c, dir, o))),
        nontrivial: |t| {
            let g = |k: &str| t.get(k).copied().unwrap_or(0);
            g("older") + g("newer") + g("foreign") + g("opens") > 0 && g("puts") + g("walks") + g("cleanups") > 0
        },
        rule: "directories that are missing, empty, of this, a newer or an older version, with foreign entries, opened and used; non-trivial: a further opening, another version or a foreign entry, and a write, walk or cleanup",
        quick: 9000,
        thorough: 300_000,
        shrinks: 400,
    })]
}
