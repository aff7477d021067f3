//! Several threads operate on one directory under a generated schedule; the history must be explained by some order
//! of the operations (C14), also when file calls fail (C13) or the process dies (C12) meanwhile. Other properties use
//! the same with their own mix of operations and their own oracles (C05: everything is reclaimed; C06: the limit).
use super::*;
use crate::check;
use crate::data::*;
use crate::engine::to_ops as ok;
use crate::raw;
use possum::{BatchWriter, Handle, Snapshot, SnapshotValue, Value};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Do {
    Put { k: u8, size: u32, chunk: u16 },
    Get { k: u8, how: u8 },
    Del { k: u8 },
    Rename { a: u8, b: u8 },
    MovePrefix { p: Pfx, q: Pfx },
    DelPrefix { p: Pfx },
    List { p: Pfx },
    Import { k: u8, size: u32 },
    /// one reader of several keys; kept and read again later if `hold`
    Snap { ks: Vec<u8>, hold: bool, how: u8 },
    ReadAbort { k: u8 },
    /// several writes and perhaps a rename of a value read before, committed together
    Batch { puts: Vec<(u8, u32)>, rename: Option<(u8, u8)>, abort: bool },
    Drop,
    Reopen,
    Cleanup,
    Tick { ms: u16 },
    Walk,
    /// the source of a copy fails; another is copied by the same writer instead
    Retry { k: u8, bad: u32, size: u32, abort: bool },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Script {
    handle: u8,
    ops: Vec<Do>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct NCase {
    mode: Mode,
    exdev: bool,
    seed: u32,
    sched: sim::Sched,
    keys: Vec<Vec<u8>>,
    handles: u8,
    before: Vec<(u8, u32)>,
    threads: Vec<Script>,
    /// of every handle
    #[serde(default)]
    limit: Option<u32>,
    /// calls that fail: which kinds of files, and where they begin, how, how many
    #[serde(default)]
    faults: Option<(u32, Vec<(u16, sim::Fault, u8)>)>,
    /// where the process dies, each in a run of its own; whether the write that is under way is cut in half
    #[serde(default)]
    crash: Option<(Vec<u16>, bool)>,
}

/// What an operation did, as far as its caller can tell. Contents are numbered.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Seen {
    Put(Vec<u8>, u32),
    Read(Vec<(Vec<u8>, Option<u32>)>),
    Del(Vec<u8>, Option<u64>),
    /// None: there was no such key; Some(false): refused because the new key exists
    Rename(Vec<u8>, Vec<u8>, Option<bool>),
    MovePrefix(Vec<u8>, Vec<u8>, bool),
    DelPrefix(Vec<u8>),
    List(Vec<u8>, Vec<(Vec<u8>, u64)>),
    Batch(Vec<(Vec<u8>, u32)>, Option<(u32, Vec<u8>)>),
    Nothing,
    /// happens or not
    Maybe(Box<Seen>),
    Gone(Vec<u8>),
    TryRename(Vec<u8>, Vec<u8>),
    TryMovePrefix(Vec<u8>, Vec<u8>),
    /// the keys alone
    Keys(Vec<u8>, Vec<Vec<u8>>),
    /// the length alone
    Len(Vec<u8>, Option<u64>),
}
#[derive(Clone, Debug)]
pub(super) struct Event {
    pub thread: usize,
    pub start: u64,
    pub end: u64,
    pub seen: Seen,
}
pub(super) type State = BTreeMap<Vec<u8>, u32>;

/// Whether `seen` can happen in a state; the state after it.
fn apply(s: &State, seen: &Seen, len: &dyn Fn(u32) -> u64) -> Option<State> {
    let mut n = s.clone();
    match seen {
        Seen::Put(k, c) => {
            n.insert(k.clone(), *c);
        }
        Seen::Read(l) => {
            if l.iter().any(|(k, c)| s.get(k) != c.as_ref()) {
                return None;
            }
        }
        Seen::Del(k, l) => {
            if n.remove(k).map(len) != *l {
                return None;
            }
        }
        Seen::Rename(a, b, r) => match (s.get(a), r) {
            (None, None) => {}
            (Some(_), Some(false)) if a != b && s.contains_key(b) => {}
            (Some(c), Some(true)) if a == b || !s.contains_key(b) => {
                let c = *c;
                n.remove(a);
                n.insert(b.clone(), c);
            }
            _ => return None,
        },
        Seen::MovePrefix(p, q, done) => {
            let moved: Vec<Vec<u8>> = s.keys().filter(|k| k.starts_with(p)).cloned().collect();
            let dst = |k: &[u8]| [&q[..], &k[p.len()..]].concat();
            let hit = |k: &Vec<u8>| {
                let d = dst(k);
                (d != *k && s.contains_key(&d)).then_some(d)
            };
            if *done {
                if moved.iter().filter_map(hit).any(|d| !d.starts_with(p)) {
                    return None;
                }
                let taken: Vec<_> = moved.iter().map(|k| (dst(k), n.remove(k).unwrap())).collect();
                n.extend(taken);
            } else if !moved.iter().any(|k| hit(k).is_some()) {
                return None;
            }
        }
        Seen::DelPrefix(p) => n.retain(|k, _| !k.starts_with(p)),
        Seen::List(p, l) => {
            let want: Vec<(Vec<u8>, u64)> = s.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, c)| (k.clone(), len(*c))).collect();
            if want != *l {
                return None;
            }
        }
        Seen::Batch(puts, ren) => {
            for (k, c) in puts {
                n.insert(k.clone(), *c);
            }
            if let Some((c, k)) = ren {
                if let Some(f) = n.iter().find(|x| x.1 == c).map(|x| x.0.clone()) {
                    n.remove(&f);
                    n.insert(k.clone(), *c);
                }
            }
        }
        Seen::Keys(p, l) => {
            if !s.keys().filter(|k| k.starts_with(p)).eq(l.iter()) {
                return None;
            }
        }
        Seen::Len(k, l) => {
            if s.get(k).map(|c| len(*c)) != *l {
                return None;
            }
        }
        Seen::Nothing => {}
        Seen::Gone(k) => {
            n.remove(k);
        }
        Seen::TryRename(a, b) => {
            if let Some(x) = apply(s, &Seen::Rename(a.clone(), b.clone(), Some(true)), len) {
                return Some(x);
            }
        }
        Seen::TryMovePrefix(a, b) => {
            if let Some(x) = apply(s, &Seen::MovePrefix(a.clone(), b.clone(), true), len) {
                return Some(x);
            }
        }
        Seen::Maybe(x) => return apply(s, x, len),
    }
    Some(n)
}

/// Looks for an order of the events that explains them. Returns the deepest prefix otherwise.
pub(super) fn linearize(init: &State, ev: &[Vec<Event>], len: &dyn Fn(u32) -> u64, last: &State) -> Result<u64, (Vec<usize>, State)> {
    fn go(at: &mut Vec<usize>, s: &State, ev: &[Vec<Event>], len: &dyn Fn(u32) -> u64, last: &State, seen: &mut HashSet<(Vec<usize>, Vec<(Vec<u8>, u32)>)>, best: &mut (Vec<usize>, State)) -> bool {
        if at.iter().sum::<usize>() > best.0.iter().sum::<usize>() {
            *best = (at.clone(), s.clone());
        }
        if at.iter().zip(ev).all(|(a, e)| *a == e.len()) {
            return s == last;
        }
        if !seen.insert((at.clone(), s.iter().map(|(k, v)| (k.clone(), *v)).collect())) {
            return false;
        }
        let first_end = at.iter().zip(ev).filter_map(|(a, e)| e.get(*a)).map(|e| e.end).min().unwrap();
        for t in 0..ev.len() {
            let Some(e) = ev[t].get(at[t]) else { continue };
            if e.start > first_end {
                continue;
            }
            for n in apply(s, &e.seen, len).into_iter().chain(matches!(e.seen, Seen::Maybe(_)).then(|| s.clone())) {
                at[t] += 1;
                if go(at, &n, ev, len, last, seen, best) {
                    return true;
                }
                at[t] -= 1;
            }
        }
        false
    }
    let mut at = vec![0; ev.len()];
    let mut seen = HashSet::new();
    let mut best = (at.clone(), init.clone());
    if go(&mut at, init, ev, len, last, &mut seen, &mut best) {
        Ok(seen.len() as u64)
    } else {
        Err(best)
    }
}

#[derive(Default)]
struct Contents {
    ids: HashMap<Vec<u8>, u32>,
    all: Vec<Vec<u8>>,
}
impl Contents {
    fn add(&mut self, b: &[u8]) -> u32 {
        if let Some(i) = self.ids.get(b) {
            return *i;
        }
        let i = self.all.len() as u32;
        self.ids.insert(b.to_vec(), i);
        self.all.push(b.to_vec());
        i
    }
}

struct Ctx {
    dir: PathBuf,
    src: PathBuf,
    keys: Vec<Vec<u8>>,
    clock: AtomicU64,
    tag: AtomicU64,
    contents: Mutex<Contents>,
    busy: AtomicU64,
    held_read: AtomicU64,
    limit: Option<u64>,
    /// operations may fail
    faulty: bool,
    failed: AtomicU64,
    /// where the history is written to, for when this process is dead
    log: Option<i32>,
    /// where values were found, if that matters
    extents: Option<Mutex<HashSet<(String, u64, u64)>>>,
}
/// What is written there.
#[derive(Serialize, Deserialize)]
enum Rec {
    Content(u32, u64, u32),
    Init(Vec<(Vec<u8>, u32)>),
    Start(usize, u64),
    Intent(usize, Seen),
    End(usize, u64, Seen),
}
impl Ctx {
    fn log(&self, r: impl FnOnce() -> Rec) {
        if let Some(fd) = self.log {
            let mut b = serde_json::to_vec(&r()).unwrap();
            b.push(b'\n');
            raw::write_all(fd, &b);
        }
    }
    fn note_extents(&self, h: &H) {
        let Some(x) = &self.extents else { return };
        let l = h.read().unwrap().list_items(b"");
        if let Ok(l) = l {
            x.lock().unwrap().extend(l.into_iter().filter_map(|i| i.value.location.into_non_zero()).map(|n| (n.file_id.to_string(), n.file_offset, n.length)));
        }
    }
    fn key(&self, k: u8) -> Vec<u8> {
        self.keys[k as usize % self.keys.len()].clone()
    }
    fn pfx(&self, p: &Pfx) -> Vec<u8> {
        let k = self.key(p.k);
        let mut v = k[..(p.len as usize).min(k.len())].to_vec();
        v.extend(p.extra);
        v
    }
    fn fresh(&self, size: u32) -> (Vec<u8>, u32) {
        let t = self.tag.fetch_add(1, SeqCst);
        let c = content(t, size as usize).to_vec();
        let id = self.contents.lock().unwrap().add(&c);
        self.log(|| Rec::Content(id, t, size));
        (c, id)
    }
    fn known(&self, b: &[u8], what: &str) -> R<u32> {
        match self.contents.lock().unwrap().ids.get(b) {
            Some(i) => Ok(*i),
            None => fail("content", format!("{what}: {} bytes that nobody wrote ({} zeros)", b.len(), b.iter().filter(|x| **x == 0).count())),
        }
    }
}

struct Held {
    sv: SnapshotValue<Value>,
    id: u32,
    key: Vec<u8>,
}

fn busy(e: &(dyn std::error::Error + 'static)) -> bool {
    let mut e = Some(e);
    while let Some(x) = e {
        if let Some(rusqlite::Error::SqliteFailure(f, _)) = x.downcast_ref::<rusqlite::Error>() {
            return matches!(f.code, rusqlite::ErrorCode::DatabaseBusy | rusqlite::ErrorCode::DatabaseLocked);
        }
        if let Some(p) = x.downcast_ref::<possum::Error>() {
            return match p {
                possum::Error::Sqlite(s) => busy(s),
                possum::Error::Anyhow(a) => busy(a.as_ref()),
                _ => false,
            };
        }
        e = x.source();
    }
    false
}
enum E {
    Busy,
    Fail(Fail),
}
impl From<Fail> for E {
    fn from(f: Fail) -> E {
        E::Fail(f)
    }
}
type B<T> = Result<T, E>;
fn pe<T>(r: Result<T, possum::Error>, what: &str) -> B<T> {
    r.map_err(|e| if busy(&e) { E::Busy } else { E::Fail(Fail { kind: "op-error".into(), msg: format!("{what}: {e:?}") }) })
}
fn ae<T>(r: anyhow::Result<T>, what: &str) -> B<T> {
    r.map_err(|e| if busy(e.as_ref()) { E::Busy } else { E::Fail(Fail { kind: "op-error".into(), msg: format!("{what}: {e:?}") }) })
}
fn se<T>(r: rusqlite::Result<T>, what: &str) -> B<T> {
    r.map_err(|e| if busy(&e) { E::Busy } else { E::Fail(Fail { kind: "op-error".into(), msg: format!("{what}: {e:?}") }) })
}

fn read_one(sv: &SnapshotValue<Value>, how: u8) -> R<Vec<u8>> {
    match how % 3 {
        0 => ok(sv.view(|b| b.to_vec()), "view"),
        1 => {
            let mut v = vec![];
            ok(sv.new_reader().read_to_end(&mut v), "new_reader")?;
            Ok(v)
        }
        _ => {
            use positioned_io::ReadAt;
            let mut v = vec![0u8; sv.length() as usize];
            let mut p = 0;
            while p < v.len() {
                let n = ok(sv.read_at(p as u64, &mut v[p..]), "read_at")?;
                check!(n > 0, "short-read", "read_at({p}) of {} returned 0", sv.length());
                p += n;
            }
            Ok(v)
        }
    }
}

type Found = Vec<(Vec<u8>, Option<SnapshotValue<Value>>)>;
fn snap(h: &H, keys: &[Vec<u8>]) -> B<Found> {
    let g = h.read().unwrap();
    let mut rd = se(g.read(), "read")?;
    let mut got = vec![];
    for k in keys {
        got.push((k.clone(), se(rd.add(k), "Reader::add")?));
    }
    let s: Snapshot = ae(rd.begin(), "Reader::begin")?;
    Ok(got.into_iter().map(|(k, v)| (k, v.map(|v| s.value(v)))).collect())
}
fn found(c: &Ctx, f: &Found, how: u8) -> R<Seen> {
    let mut l = vec![];
    for (k, sv) in f {
        l.push((k.clone(), match sv {
            None => None,
            Some(sv) => Some(c.known(&read_one(sv, how)?, &format!("key {}", show(k)))?),
        }));
    }
    Ok(Seen::Read(l))
}

fn limit(c: &Ctx, h: &H) -> B<()> {
    let Some(max) = c.limit else { return Ok(()) };
    loop {
        let r = set_limits(&mut h.write().unwrap(), Some(max), false);
        match r {
            Ok(()) => return Ok(()),
            Err(e) if busy(e.as_ref()) => sim::sleep_ns(1_000_000),
            Err(e) => return ae(Err(e), "set_instance_limits"),
        }
    }
}

/// `means`: told what the operation will do to the contents, before it does.
fn act(c: &Ctx, h: &mut H, held: &mut Vec<Held>, op: &Do, means: &mut dyn FnMut(Seen)) -> B<Seen> {
    Ok(match op {
        Do::Put { k, size, chunk } => {
            let k = c.key(*k);
            let (d, id) = c.fresh(*size);
            means(Seen::Put(k.clone(), id));
            let (n, _) = ae(h.read().unwrap().single_write_from(k.clone(), Feed { data: &d, chunk: *chunk as usize, fail: false, calls: 0 }), "single_write_from")?;
            if n != d.len() as u64 {
                return Err(E::Fail(Fail { kind: "wrong-length".into(), msg: format!("single_write_from returned {n} of {}", d.len()) }));
            }
            Seen::Put(k, id)
        }
        Do::Get { k, how } => {
            let k = c.key(*k);
            let v = ae(h.read().unwrap().read_single(&k), "read_single")?;
            found(c, &vec![(k, v)], *how)?
        }
        Do::Del { k } => {
            let k = c.key(*k);
            means(Seen::Gone(k.clone()));
            let r = pe(h.read().unwrap().single_delete(&k), "single_delete")?;
            Seen::Del(k, r.map(|s| s.size))
        }
        Do::Rename { a, b } => {
            let (a, b) = (c.key(*a), c.key(*b));
            means(Seen::TryRename(a.clone(), b.clone()));
            let r = h.write().unwrap().rename_item(&a, &b);
            match r {
                Ok(_) => Seen::Rename(a, b, Some(true)),
                Err(possum::Error::NoSuchKey) => Seen::Rename(a, b, None),
                Err(e) if busy(&e) => return Err(E::Busy),
                Err(e) if c.faulty && sim::faults_fired() > 0 => pe(Err(e), "rename_item")?,
                Err(_) => Seen::Rename(a, b, Some(false)),
            }
        }
        Do::MovePrefix { p, q } => {
            let (p, q) = (c.pfx(p), c.pfx(q));
            means(Seen::TryMovePrefix(p.clone(), q.clone()));
            let r = h.read().unwrap().move_prefix(&p, &q);
            match r {
                Ok(()) => Seen::MovePrefix(p, q, true),
                Err(e) if busy(e.as_ref()) => return Err(E::Busy),
                Err(e) if c.faulty && sim::faults_fired() > 0 => ae(Err(e), "move_prefix")?,
                Err(_) => Seen::MovePrefix(p, q, false),
            }
        }
        Do::DelPrefix { p } => {
            let p = c.pfx(p);
            means(Seen::DelPrefix(p.clone()));
            pe(h.read().unwrap().delete_prefix(&p), "delete_prefix")?;
            Seen::DelPrefix(p)
        }
        Do::List { p } => {
            let p = c.pfx(p);
            let l = pe(h.read().unwrap().list_items(&p), "list_items")?;
            let mut l: Vec<(Vec<u8>, u64)> = l.into_iter().map(|i| (i.key, i.value.length())).collect();
            l.sort();
            Seen::List(p, l)
        }
        Do::Import { k, size } => {
            let k = c.key(*k);
            let (d, id) = c.fresh(*size);
            let mut f = {
                let _e = sim::exempt();
                let p = c.src.join(format!("s{}", c.tag.fetch_add(1, SeqCst)));
                let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
                f.write_all(&d).unwrap();
                f.seek(SeekFrom::Start(d.len() as u64 / 2)).unwrap();
                f
            };
            means(Seen::Put(k.clone(), id));
            let n = ae(h.write().unwrap().clone_from_file(k.clone(), &mut f), "clone_from_file")?;
            if n != d.len() as u64 {
                return Err(E::Fail(Fail { kind: "wrong-length".into(), msg: format!("clone_from_file returned {n} of {}", d.len()) }));
            }
            Seen::Put(k, id)
        }
        Do::Snap { ks, hold, how } => {
            let ks: Vec<_> = ks.iter().map(|k| c.key(*k)).collect();
            let f = snap(h, &ks)?;
            let seen = found(c, &f, *how)?;
            if *hold {
                if let Seen::Read(l) = &seen {
                    for ((key, sv), (_, id)) in f.into_iter().zip(l) {
                        if let (Some(sv), Some(id)) = (sv, id) {
                            held.push(Held { sv, id: *id, key });
                        }
                    }
                }
            }
            seen
        }
        Do::ReadAbort { k } => {
            let g = h.read().unwrap();
            let mut rd = se(g.read(), "read")?;
            se(rd.add(&c.key(*k)), "Reader::add")?;
            Seen::Nothing
        }
        Do::Batch { puts, rename, abort } => {
            let ren = match rename {
                None => None,
                Some((a, b)) => match snap(h, &[c.key(*a)])?.remove(0).1 {
                    Some(sv) if sv.length() >= 8 => {
                        let id = c.known(&read_one(&sv, 0)?, "value to rename")?;
                        Some((*sv, id, c.key(*b)))
                    }
                    _ => None,
                },
            };
            let mut bw = BatchWriter::new(h.clone());
            let mut l = vec![];
            for (k, size) in puts {
                let (d, id) = c.fresh(*size);
                let mut vw = pe(bw.new_value().begin(), "begin")?;
                ok(vw.write_all(&d), "write")?;
                ok(bw.stage_write(c.key(*k), vw), "stage_write")?;
                l.push((c.key(*k), id));
            }
            let ren = ren.map(|(v, id, k)| {
                bw.rename_value(v, k.clone());
                (id, k)
            });
            if *abort {
                return Ok(Seen::Nothing);
            }
            means(Seen::Batch(l.clone(), ren.clone()));
            ae(bw.commit(), "commit")?;
            Seen::Batch(l, ren)
        }
        Do::Retry { k, bad, size, abort } => {
            let k = c.key(*k);
            let mut bw = BatchWriter::new(h.clone());
            let mut vw = pe(bw.new_value().begin(), "begin")?;
            let d = content(u64::MAX - c.tag.fetch_add(1, SeqCst), *bad as usize);
            let mut feed = Feed { data: &d, chunk: 3000, fail: true, calls: 0 };
            let r = vw.copy_from(Peeking { feed: &mut feed, look: Some(sim::yield_now) });
            if r.is_ok() {
                return Err(E::Fail(Fail { kind: "copy-fail".into(), msg: "copy_from of a failing source reported success".into() }));
            }
            if *abort {
                return Ok(Seen::Nothing);
            }
            let (d, id) = c.fresh(*size);
            pe(vw.copy_from(&d[..]), "copy_from")?;
            ok(bw.stage_write(k.clone(), vw), "stage_write")?;
            means(Seen::Put(k.clone(), id));
            ae(bw.commit(), "commit")?;
            Seen::Put(k, id)
        }
        Do::Walk => {
            let l = ae(h.read().unwrap().walk_dir(), "walk_dir")?;
            for e in l {
                use possum::walk::EntryType::*;
                let name = e.path.file_name().unwrap().to_string_lossy().into_owned();
                let top = e.path.parent() == Some(&c.dir);
                let right = match e.entry_type {
                    ManifestFile => top && name.starts_with("manifest.db"),
                    ValuesFile => top && name.starts_with("values-"),
                    SnapshotDir => top && name.starts_with("snapshot-"),
                    SnapshotValue => !top && name.starts_with("values-"),
                    Unknown => top && (name.starts_with(".clone_test") || name.starts_with(".tmp")),
                };
                if !right {
                    return Err(E::Fail(Fail { kind: "wrong-type".into(), msg: format!("{:?} is {:?}", e.path, e.entry_type) }));
                }
            }
            Seen::Nothing
        }
        Do::Drop => {
            held.clear();
            Seen::Nothing
        }
        Do::Reopen => {
            let new = Arc::new(RwLock::new(ae(Handle::new(c.dir.clone()), "Handle::new")?));
            limit(c, &new)?;
            *h = new;
            Seen::Nothing
        }
        Do::Cleanup => {
            pe(h.read().unwrap().cleanup_snapshots(), "cleanup_snapshots")?;
            Seen::Nothing
        }
        Do::Tick { ms } => {
            sim::sleep_ns(*ms as u64 * 1_000_000);
            Seen::Nothing
        }
    })
}

fn script(c: &Ctx, t: usize, mut h: H, s: &Script) -> R<Vec<Event>> {
    let mut held = vec![];
    let mut ev = vec![];
    for op in &s.ops {
        sim::progress();
        let start = c.clock.fetch_add(1, SeqCst);
        c.log(|| Rec::Start(t, start));
        let mut meant = Seen::Nothing;
        let r = act(c, &mut h, &mut held, op, &mut |s| {
            c.log(|| Rec::Intent(t, s.clone()));
            meant = s;
        });
        let end = c.clock.fetch_add(1, SeqCst);
        let seen = match r {
            Ok(s) => s,
            Err(E::Busy) => {
                c.busy.fetch_add(1, SeqCst);
                Seen::Nothing
            }
            // What failed happened entirely or not at all.
            Err(E::Fail(f)) if c.faulty && f.kind == "op-error" && sim::faults_fired() > 0 => {
                c.failed.fetch_add(1, SeqCst);
                match meant {
                    Seen::Nothing => Seen::Nothing,
                    x => Seen::Maybe(Box::new(x)),
                }
            }
            Err(E::Fail(f)) => return fail(&f.kind, format!("thread {t}: {op:?}: {}", f.msg)),
        };
        c.log(|| Rec::End(t, end, seen.clone()));
        c.note_extents(&h);
        ev.push(Event { thread: t, start, end, seen });
        for x in &held {
            let b = match read_one(&x.sv, 0) {
                Err(f) if c.faulty && f.kind == "op-error" && sim::faults_fired() > 0 => continue,
                b => b?,
            };
            let want = c.contents.lock().unwrap().all[x.id as usize].clone();
            check!(b == want, "snapshot-changed", "thread {t}: snapshot of key {} changed during {op:?}: {}", show(&x.key), diff(&b, &want));
            c.held_read.fetch_add(1, SeqCst);
        }
    }
    Ok(ev)
}

fn describe(c: &Ctx, e: &Event) -> String {
    let k = |b: &[u8]| show(b);
    let v = |i: &u32| format!("v{i}({})", c.contents.lock().unwrap().all[*i as usize].len());
    let s = match &e.seen {
        Seen::Put(a, i) => format!("put {}={}", k(a), v(i)),
        Seen::Read(l) => format!("read {}", l.iter().map(|(a, i)| format!("{}={}", k(a), i.as_ref().map(v).unwrap_or("-".into()))).collect::<Vec<_>>().join(",")),
        Seen::Del(a, r) => format!("del {} -> {r:?}", k(a)),
        Seen::Rename(a, b, r) => format!("rename {} {} -> {r:?}", k(a), k(b)),
        Seen::MovePrefix(a, b, r) => format!("move-prefix {} {} -> {r}", k(a), k(b)),
        Seen::DelPrefix(a) => format!("delete-prefix {}", k(a)),
        Seen::List(a, l) => format!("list {} -> {}", k(a), l.iter().map(|(a, n)| format!("{}:{n}", k(a))).collect::<Vec<_>>().join(",")),
        Seen::Batch(l, r) => format!("batch {} rename {:?}", l.iter().map(|(a, i)| format!("{}={}", k(a), v(i))).collect::<Vec<_>>().join(","), r),
        s => format!("{s:?}"),
    };
    format!("t{} [{},{}] {s}", e.thread, e.start, e.end)
}

struct Done {
    c: Arc<Ctx>,
    hs: Vec<H>,
    init: State,
    ev: Vec<Vec<Event>>,
}

/// Opens the store, fills it, runs the threads. `began` is called before they start.
fn threads(n: &NCase, dir: &Path, log: Option<i32>, opt: Opt, began: impl FnOnce()) -> R<Done> {
    let store = dir.join("store");
    let src = dir.join("src");
    std::fs::create_dir_all(&src).unwrap();
    let keys = if n.keys.is_empty() { vec![vec![]] } else { n.keys.clone() };
    let c = Arc::new(Ctx {
        dir: store.clone(),
        src,
        keys,
        clock: AtomicU64::new(0),
        tag: AtomicU64::new(1),
        contents: Default::default(),
        busy: AtomicU64::new(0),
        held_read: AtomicU64::new(0),
        limit: n.limit.map(|l| l as u64),
        faulty: n.faults.is_some(),
        failed: AtomicU64::new(0),
        log,
        extents: opt.reclaim.then(Default::default),
    });
    let mut hs: Vec<H> = vec![];
    for _ in 0..n.handles.max(1) {
        hs.push(Arc::new(RwLock::new(ok(Handle::new(store.clone()), "Handle::new")?)));
    }
    for h in &hs {
        if let Err(E::Fail(f)) = limit(&c, h) {
            return Err(f);
        }
    }
    let mut init = State::new();
    for (i, (k, size)) in n.before.iter().enumerate() {
        sim::progress();
        let (d, id) = c.fresh(*size);
        ok(hs[i % hs.len()].read().unwrap().single_write_from(c.key(*k), &d[..]), "single_write_from")?;
        init.insert(c.key(*k), id);
        c.note_extents(&hs[0]);
    }
    if n.limit.is_some() {
        init = look(&c, &hs[0])?;
    }
    c.log(|| Rec::Init(init.clone().into_iter().collect()));
    began();
    let ts: Vec<_> = n
        .threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, s)| {
            let (c, h) = (c.clone(), hs[s.handle as usize % hs.len()].clone());
            std::thread::spawn(move || script(&c, t, h, &s))
        })
        .collect();
    let mut ev = vec![];
    let mut err = None;
    for t in ts {
        match t.join() {
            Ok(Ok(e)) => ev.push(e),
            Ok(Err(f)) => err = err.or(Some(f)),
            Err(_) => err = err.or(Some(Fail { kind: "panic".into(), msg: "a thread panicked".into() })),
        }
    }
    match err {
        Some(f) => Err(f),
        None => Ok(Done { c, hs, init, ev }),
    }
}

/// What is left, by what the handle lists and reads.
fn look(c: &Ctx, h: &H) -> R<State> {
    let mut s = State::new();
    for (k, x) in list_handle(h)? {
        let Some(sv) = ok(h.read().unwrap().read_single(&k), "read_single at the end")? else {
            return fail("lost-key", format!("key {} is listed but cannot be read", show(&k)));
        };
        check!(sv.length() == x.len, "wrong-length", "key {}", show(&k));
        let b = read_one(&sv, 0)?;
        s.insert(k.clone(), c.known(&b, &format!("key {} at the end", show(&k)))?);
    }
    Ok(s)
}

fn explain(c: &Ctx, init: &State, ev: &[Vec<Event>], last: &State, o: &mut Outcome) -> R<()> {
    let len = |i: u32| c.contents.lock().unwrap().all[i as usize].len() as u64;
    match linearize(init, ev, &len, last) {
        Ok(states) => o.bump("states-searched", states),
        Err((at, s)) => {
            let mut all: Vec<&Event> = ev.iter().flatten().collect();
            all.sort_by_key(|e| e.start);
            let st = |s: &State| s.iter().map(|(k, v)| format!("{}=v{v}", show(k))).collect::<Vec<_>>().join(",");
            return fail(
                "not-linearizable",
                format!("no order explains: initially {}; {}; finally {}; got as far as {at:?} with {}", st(init), all.iter().map(|e| describe(c, e)).collect::<Vec<_>>().join("; "), st(last), st(&s)),
            );
        }
    }
    Ok(())
}

/// All handles have the same limit: it holds whenever anybody looks, and what is read was written and not replaced.
fn limited(c: &Ctx, max: u64, init: &State, ev: &[Vec<Event>], last: &State, o: &mut Outcome) -> R<()> {
    let len = |i: u32| c.contents.lock().unwrap().all[i as usize].len() as u64;
    let all: Vec<&Event> = ev.iter().flatten().collect();
    let total: u64 = last.values().map(|i| len(*i)).sum();
    check!(total <= max, "over-limit", "{total} bytes at the end, with a limit of {max} on every handle");
    let mut written: u64 = init.values().map(|i| len(*i)).sum();
    for e in &all {
        match &e.seen {
            Seen::List(p, l) => {
                let total: u64 = l.iter().map(|x| x.1).sum();
                check!(total <= max, "over-limit", "a listing of {} shows {total} bytes, with a limit of {max} on every handle", show(p));
                o.bump("totals-checked", 1);
            }
            Seen::Put(_, i) => written += len(*i),
            Seen::Batch(l, _) => written += l.iter().map(|x| len(x.1)).sum::<u64>(),
            _ => {}
        }
    }
    if written <= max {
        o.bump("never-over-limit", 1);
        return explain(c, init, ev, last, o);
    }
    o.bump("beyond-limit", 1);
    // (key, content if it is a write, start, end)
    let mut changes: Vec<(Vec<u8>, Option<u32>, u64, u64)> = vec![];
    for e in &all {
        match &e.seen {
            Seen::Put(k, i) => changes.push((k.clone(), Some(*i), e.start, e.end)),
            Seen::Del(k, Some(_)) => changes.push((k.clone(), None, e.start, e.end)),
            Seen::Batch(l, _) => {
                for (j, (k, i)) in l.iter().enumerate() {
                    if !l[j + 1..].iter().any(|x| x.0 == *k) {
                        changes.push((k.clone(), Some(*i), e.start, e.end));
                    }
                }
            }
            _ => {}
        }
    }
    let possible = |k: &Vec<u8>, i: u32, start: u64, end: u64| {
        changes
            .iter()
            .filter(|w| w.0 == *k && w.1 == Some(i) && w.2 < end)
            .map(|w| w.3 as i64)
            .chain((init.get(k) == Some(&i)).then_some(-1))
            .any(|done| !changes.iter().any(|x| x.0 == *k && x.1 != Some(i) && x.2 as i64 > done && x.3 < start))
    };
    for e in &all {
        if let Seen::Read(l) = &e.seen {
            for (k, i) in l.iter().filter_map(|(k, i)| i.map(|i| (k, i))) {
                check!(possible(k, i, e.start, e.end), "stale", "{}: not the value of the key at any such moment", describe(c, e));
            }
        }
    }
    for (k, i) in last {
        check!(possible(k, *i, u64::MAX, u64::MAX), "stale", "key {} holds v{i} at the end", show(k));
    }
    Ok(())
}

/// The whole blocks inside what was a value and is no value any more must be free.
fn all_reclaimed(c: &Ctx, l: &Listing, o: &mut Outcome) -> R<()> {
    let bs = BS as u64;
    let _e = sim::exempt();
    let mut gone: Vec<_> = c.extents.as_ref().unwrap().lock().unwrap().iter().cloned().collect();
    gone.sort();
    for (id, off, len) in gone {
        let name = &id;
        let Ok(f) = std::fs::File::open(c.dir.join(name)) else { continue };
        let mut live: Vec<(u64, u64)> = l.values().filter_map(|x| x.loc.as_ref()).filter(|x| x.file == id).map(|x| (x.off, x.off + x.len)).collect();
        live.sort();
        let end = off + len;
        live.push((end, end));
        let mut at = off;
        for (a, b) in live {
            let (from, to) = (at.div_ceil(bs) * bs, a.min(end) / bs * bs);
            if from < to {
                o.bump("reclaimed-regions", 1);
                let x = first_data(&f, from).unwrap_or(u64::MAX);
                check!(x >= to, "not-reclaimed", "block at {x} of {name} still allocated; {at}..{} belongs to no value", a.min(end));
            }
            at = b.max(at);
        }
    }
    Ok(())
}

fn conc(n: &NCase, dir: &Path, opt: Opt, faults: Option<sim::Plan>, o: &mut Outcome) -> R<()> {
    let store = dir.join("store");
    let Done { c, mut hs, init, ev } = threads(n, dir, None, opt, || {
        sim::set_plan(faults.unwrap_or_default());
    })
    .map_err(|f| match sim::fault_log() {
        l if l.is_empty() => f,
        l => Fail { msg: format!("{} [faults: {}]", f.msg, l.join(" ")), ..f },
    })?;
    o.bump("mut-calls", sim::mut_calls());
    o.bump("fault-calls", sim::fault_calls());
    let fired = sim::faults_fired();
    if n.faults.is_some() {
        // What is left in the background runs into the remaining faults.
        sim::settle(4);
        let log = sim::fault_log().join(" ");
        sim::clear_plan();
        sim::progress();
        o.bump("faults-fired", fired);
        o.bump("failed-ops", c.failed.load(SeqCst));
        if fired > 0 {
            hs = vec![Arc::new(RwLock::new(ok(Handle::new(store.clone()), "Handle::new after the faults")?))];
        }
        let last = look(&c, &hs[0])?;
        explain(&c, &init, &ev, &last, o).map_err(|f| Fail { msg: format!("{} [faults: {log}]", f.msg), ..f })?;
    }
    sim::progress();
    // What is left, through the handles and through a new one.
    let last = look(&c, &hs[0])?;
    match n.limit {
        Some(max) => limited(&c, max as u64, &init, &ev, &last, o)?,
        None if n.faults.is_none() => explain(&c, &init, &ev, &last, o)?,
        None => {}
    }
    // Nothing is lost later on.
    sim::progress();
    sim::settle(8);
    for h in hs.iter().skip(1) {
        let s = look(&c, h)?;
        check!(s == last, "content", "another handle sees other contents at the end");
    }
    let punchers: Vec<_> = if opt.reclaim { hs.iter().map(|h| h.read().unwrap().get_value_puncher_done()).collect() } else { vec![] };
    drop(hs);
    sim::progress();
    sim::settle(8);
    for p in punchers {
        p.wait();
    }
    let mut w = World::new(&c.keys, n.mode, n.exdev, Oracle { contents: true, accounting: true, dirs: true, ..Default::default() }, store.clone(), dir.join("src2"));
    let m = last.iter().map(|(k, i)| (k.clone(), std::rc::Rc::new(c.contents.lock().unwrap().all[*i as usize].clone()))).collect();
    w.adopt(m)?;
    w.slot(0)?;
    if opt.reclaim && c.busy.load(SeqCst) == 0 {
        all_reclaimed(&c, &w.listing()?, o)?;
    }
    w.verify_all(0, 1)?;
    let r = w.finish();
    std::mem::forget(w);
    r?;
    stats(&c, &ev, o);
    Ok(())
}

fn stats(c: &Ctx, ev: &[Vec<Event>], o: &mut Outcome) {
    let changes = |s: &Seen| !matches!(s, Seen::Read(_) | Seen::List(..) | Seen::Nothing);
    let mut overlaps = 0;
    for a in ev.iter().flatten() {
        for b in ev.iter().flatten() {
            if a.thread < b.thread && a.start < b.end && b.start < a.end && (changes(&a.seen) || changes(&b.seen)) && a.seen != Seen::Nothing && b.seen != Seen::Nothing {
                overlaps += 1;
            }
        }
    }
    o.bump("overlaps", overlaps);
    o.bump("busy", c.busy.load(SeqCst));
    o.bump("held-reads", c.held_read.load(SeqCst));
    o.bump("ops", ev.iter().map(|e| e.len() as u64).sum());
}

#[derive(Clone, Copy, Default)]
struct Opt {
    reclaim: bool,
}

fn eval(n: &NCase, opt: Opt) -> Eval {
    let run = |faults: Option<sim::Plan>| simulated(n.mode, n.exdev, &n.sched, n.seed as u64, |dir, o| conc(n, dir, opt, faults, o));
    if n.faults.is_none() && n.crash.is_none() {
        return run(None);
    }
    let mut out = run(None)?;
    if out.fail.is_some() {
        return Ok(out);
    }
    let st = out.stats.clone();
    let count = |k: &str| st.get(k).copied().unwrap_or(0);
    if let Some((mask, ws)) = &n.faults {
        let calls = count("fault-calls");
        for (at, f, len) in ws {
            let plan = sim::Plan { fault_at: Some(((*at as u64 * calls) >> 16, Some(*f))), fault_len: *len as u64, fault_mask: *mask, ..Default::default() };
            let x = run(Some(plan))?;
            for (k, v) in x.stats {
                out.bump(&k, v);
            }
            if x.fail.is_some() {
                out.fail = x.fail;
                return Ok(out);
            }
        }
    }
    if let Some((ps, partial)) = &n.crash {
        let calls = count("mut-calls");
        for p in ps {
            let at = (*p as u64 * calls) >> 16;
            let dir = fresh_dir();
            let r = die(n, &dir, at, *partial, &mut out);
            remove_dir(&dir);
            if let Some(f) = r? {
                out.fail = Some(Fail { msg: format!("crash at call {at} of {calls}: {}", f.msg), ..f });
                return Ok(out);
            }
        }
    }
    Ok(out)
}

/// The process dies at the given call; what it left behind must be explained by what had been done, and what was
/// under way.
fn die(n: &NCase, dir: &Path, at: u64, partial: bool, out: &mut Outcome) -> Result<Option<Fail>, String> {
    let mut ends = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let (r, log) = fork_run_with(
        120,
        || {
            sim_body(n.mode, n.exdev, &n.sched, n.seed as u64, |_| {
                let d = threads(n, dir, Some(ends[1]), Opt::default(), || {
                    sim::set_plan(sim::Plan { crash_at: Some(at), crash_partial: partial, ..Default::default() });
                })?;
                drop(d);
                raw::exit_now(98)
            })
        },
        || {
            use std::os::fd::FromRawFd;
            unsafe { raw::sys(libc::SYS_close, &[ends[1] as usize]) };
            let mut b = vec![];
            unsafe { std::fs::File::from_raw_fd(ends[0]) }.read_to_end(&mut b).unwrap();
            b
        },
    );
    match r {
        ChildEnd::Exited(99) => {}
        ChildEnd::Exited(98) => return Ok(None),
        r => return Ok(Some(classify(r)?.fail.unwrap_or(Fail { kind: "ended".into(), msg: "the history ended without dying".into() }))),
    }
    raw::released(&dir.join("store"));
    let x = in_child(120, || {
        sim_body(n.mode, n.exdev, &sim::Sched::default(), n.seed as u64 ^ 0xABCDEF, |o| {
            let keys = if n.keys.is_empty() { vec![vec![]] } else { n.keys.clone() };
            let mut all = Contents::default();
            let mut init = State::new();
            let mut ev: Vec<Vec<Event>> = n.threads.iter().map(|_| vec![]).collect();
            for l in log.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
                match serde_json::from_slice(l).unwrap() {
                    Rec::Content(id, tag, size) => {
                        let i = all.add(&content(tag, size as usize));
                        assert_eq!(i, id);
                    }
                    Rec::Init(s) => init = s.into_iter().collect(),
                    Rec::Start(thread, start) => ev[thread].push(Event { thread, start, end: u64::MAX, seen: Seen::Nothing }),
                    Rec::Intent(t, s) => ev[t].last_mut().unwrap().seen = Seen::Maybe(Box::new(s)),
                    Rec::End(t, end, seen) => {
                        let e = ev[t].last_mut().unwrap();
                        e.end = end;
                        e.seen = seen;
                    }
                }
            }
            let under_way = ev.iter().flatten().filter(|e| matches!(e.seen, Seen::Maybe(_))).count() as u64;
            let store = dir.join("store");
            let mut w = World::new(&keys, n.mode, n.exdev, Oracle { contents: true, accounting: true, reclaim: true, dirs: true, ..Default::default() }, store.clone(), dir.join("src2"));
            let m = crash::read_all(&mut w)?;
            let c = Ctx {
                dir: store,
                src: dir.join("src"),
                keys,
                clock: AtomicU64::new(0),
                tag: AtomicU64::new(0),
                contents: Mutex::new(all),
                busy: AtomicU64::new(0),
                held_read: AtomicU64::new(0),
                limit: None,
                faulty: false,
                failed: AtomicU64::new(0),
                log: None,
                extents: None,
            };
            let mut last = State::new();
            for (k, b) in &m {
                last.insert(k.clone(), c.known(b, &format!("key {} after the crash", show(k)))?);
            }
            explain(&c, &init, &ev, &last, o)?;
            w.adopt(m)?;
            let hi = w.slot(0)?;
            for how in 0..3 {
                w.verify_all(hi, how)?;
            }
            for (i, op) in [Op::Put { h: 0, k: 0, size: 5000, chunk: 0 }, Op::Del { h: 0, k: 1 }, Op::Settle, Op::Put { h: 0, k: 2, size: 9000, chunk: 0 }, Op::DelPrefix { h: 0, p: Pfx { k: n.seed as u8, len: 1, extra: None } }].iter().enumerate() {
                if n.seed >> i & 1 != 0 {
                    sim::progress();
                    w.step(op)?;
                }
            }
            let r = w.finish();
            std::mem::forget(w);
            o.bump("crashes", 1);
            o.bump("crashes-with-operations-under-way", (under_way > 0) as u64);
            o.bump("crashes-with-several-operations-under-way", (under_way > 1) as u64);
            r
        })
    })?;
    for (k, v) in x.stats {
        if !k.starts_with("sim-") {
            out.bump(&k, v);
        }
    }
    Ok(x.fail)
}

fn pfx() -> BoxedStrategy<Pfx> {
    (any::<u8>(), 0u8..3, prop::option::weighted(0.2, prop_oneof![Just(0xffu8), Just(b'a'), any::<u8>()])).prop_map(|(k, len, extra)| Pfx { k, len, extra }).boxed()
}
fn dense() -> BoxedStrategy<sim::Sched> {
    let gap = prop_oneof![4 => 0u16..4, 4 => 0u16..16, 3 => 0u16..60, 1 => 0u16..300];
    (proptest::collection::vec((gap, any::<u8>()), 0..90), crate::engine::fine()).prop_map(|(gaps, fine)| sim::Sched { gaps, fine }).boxed()
}

#[derive(Clone)]
struct Prof {
    threads: std::ops::Range<usize>,
    ops: std::ops::Range<usize>,
    keys: (usize, usize),
    w: Vec<(&'static str, u32)>,
    modes: [u32; 3],
    handles: std::ops::Range<u8>,
    /// batches are dropped, copies fail
    aborts: bool,
    limit: bool,
    faults: bool,
    crash: bool,
}
fn prof(w: &[(&'static str, u32)]) -> Prof {
    Prof { threads: 2..4, ops: 1..7, keys: (1, 5), w: w.to_vec(), modes: [3, 2, 3], handles: 1..4, aborts: true, limit: false, faults: false, crash: false }
}

fn strat(p: &Prof) -> BoxedStrategy<NCase> {
    let sz = || size(SizeProfile::Blocks);
    let k = any::<u8>;
    let ab = if p.aborts { 0.15 } else { 0.0 };
    let d = proptest::strategy::Union::new_weighted(
        p.w.iter()
            .filter(|x| x.1 > 0)
            .map(|(name, w)| {
                let s = match *name {
                    "put" => (k(), sz(), prop_oneof![Just(0u16), 1u16..3000]).prop_map(|(k, size, chunk)| Do::Put { k, size, chunk }).boxed(),
                    "get" => (k(), k()).prop_map(|(k, how)| Do::Get { k, how }).boxed(),
                    "del" => k().prop_map(|k| Do::Del { k }).boxed(),
                    "rename" => (k(), k()).prop_map(|(a, b)| Do::Rename { a, b }).boxed(),
                    "movepfx" => (pfx(), pfx()).prop_map(|(p, q)| Do::MovePrefix { p, q }).boxed(),
                    "delpfx" => pfx().prop_map(|p| Do::DelPrefix { p }).boxed(),
                    "list" => pfx().prop_map(|p| Do::List { p }).boxed(),
                    "import" => (k(), sz()).prop_map(|(k, size)| Do::Import { k, size }).boxed(),
                    "snap" => (proptest::collection::vec(k(), 0..5), any::<bool>(), k()).prop_map(|(ks, hold, how)| Do::Snap { ks, hold, how }).boxed(),
                    "readabort" => k().prop_map(|k| Do::ReadAbort { k }).boxed(),
                    "batch" => (proptest::collection::vec((k(), sz()), 0..4), prop::option::weighted(0.25, (k(), k())), prop::bool::weighted(ab))
                        .prop_map(|(puts, rename, abort)| Do::Batch { puts, rename, abort })
                        .boxed(),
                    "batchput" => (proptest::collection::vec((k(), sz()), 0..4), prop::bool::weighted(ab)).prop_map(|(puts, abort)| Do::Batch { puts, rename: None, abort }).boxed(),
                    "drop" => Just(Do::Drop).boxed(),
                    "reopen" => Just(Do::Reopen).boxed(),
                    "cleanup" => Just(Do::Cleanup).boxed(),
                    "tick" => (0u16..2500).prop_map(|ms| Do::Tick { ms }).boxed(),
                    "walk" => Just(Do::Walk).boxed(),
                    "retry" => (k(), sz(), sz(), prop::bool::weighted(ab)).prop_map(|(k, bad, size, abort)| Do::Retry { k, bad, size, abort }).boxed(),
                    x => panic!("no operation {x}"),
                };
                (*w, s)
            })
            .collect(),
    )
    .boxed();
    let thread = (k(), proptest::collection::vec(d, p.ops.clone())).prop_map(|(handle, ops)| Script { handle, ops });
    let m = p.modes;
    let mode = prop_oneof![m[0] => Just(Mode::Seg), m[1] => Just(Mode::Flock), m[2] => Just(Mode::Clone)];
    let limit = if p.limit { prop_oneof![1 => Just(0u32), 3 => 1u32..200, 5 => 1u32..40_000, 2 => 40_000u32..400_000].prop_map(Some).boxed() } else { Just(None).boxed() };
    let faults = if p.faults {
        let window = (any::<u16>(), faults::fault(), prop_oneof![4 => Just(1u8), 3 => 2u8..6, 1 => 6u8..40]);
        (faults::mask(), proptest::collection::vec(window, 1..4)).prop_map(Some).boxed()
    } else {
        Just(None).boxed()
    };
    let crash = if p.crash { (proptest::collection::vec(any::<u16>(), 1..8), any::<bool>()).prop_map(Some).boxed() } else { Just(None).boxed() };
    let base = (mode, prop::bool::weighted(0.2), any::<u32>(), dense(), keys(p.keys.0, p.keys.1), p.handles.clone(), proptest::collection::vec((k(), sz()), 0..5), proptest::collection::vec(thread, p.threads.clone()));
    (base, limit, faults, crash)
        .prop_map(|((mode, exdev, seed, sched, keys, handles, before, threads), limit, faults, crash)| NCase { mode, exdev, seed, sched, keys, handles, before, threads, limit, faults, crash })
        .boxed()
}

const OVERLAP: &str = "threads on one directory under generated schedules; non-trivial: two operations of different threads overlapped in time and one of them changed the contents";
fn mk(name: &'static str, p: Prof, opt: Opt, quick: u32, thorough: u32, rule: &'static str, nontrivial: fn(&Stats) -> bool) -> Box<dyn DynCheck> {
    Box::new(Check { name, strat: strat(&p), eval: Box::new(move |n| eval(n, opt)), nontrivial, rule, quick, thorough, shrinks: 400 })
}
fn s(t: &Stats, k: &str) -> u64 {
    t.get(k).copied().unwrap_or(0)
}

/// The checks with threads of each property.
pub fn get(id: &str) -> Vec<Box<dyn DynCheck>> {
    let overlap = |t: &Stats| s(t, "overlaps") > 0;
    let plain = |p: Prof, quick: u32| vec![mk("threads", p, Opt::default(), quick, quick * 40, OVERLAP, overlap)];
    match id {
        "C01" => plain(prof(&[("put", 12), ("get", 12), ("del", 5), ("rename", 2), ("list", 4), ("import", 3), ("snap", 4), ("batchput", 3), ("reopen", 4), ("retry", 2), ("drop", 1), ("tick", 1)]), 3000),
        "C02" => plain(Prof { keys: (1, 4), ..prof(&[("batch", 16), ("retry", 8), ("snap", 8), ("list", 6), ("get", 6), ("put", 3), ("del", 3), ("drop", 1), ("tick", 1)]) }, 3000),
        "C03" => plain(Prof { keys: (1, 3), ops: 2..7, ..prof(&[("snap", 16), ("put", 10), ("del", 10), ("delpfx", 2), ("rename", 3), ("import", 2), ("batch", 3), ("retry", 2), ("cleanup", 3), ("tick", 5), ("reopen", 2), ("drop", 1)]) }, 3000),
        "C04" => plain(Prof { keys: (1, 4), ops: 2..8, handles: 1..3, ..prof(&[("put", 16), ("del", 14), ("delpfx", 2), ("batch", 6), ("retry", 3), ("get", 6), ("import", 1), ("tick", 6), ("reopen", 3)]) }, 3000),
        "C05" => vec![mk(
            "threads",
            Prof { keys: (1, 5), ops: 2..8, aborts: false, ..prof(&[("put", 16), ("del", 12), ("delpfx", 2), ("batch", 4), ("rename", 2), ("snap", 4), ("drop", 2), ("tick", 4), ("reopen", 2), ("get", 2)]) },
            Opt { reclaim: true },
            4000,
            160_000,
            "threads under generated schedules, then everything is dropped; non-trivial: whole blocks between live values that must be free",
            |t| s(t, "reclaimed-regions") > 0 && s(t, "overlaps") > 0,
        )],
        "C06" => vec![mk(
            "threads",
            Prof { keys: (1, 6), limit: true, ..prof(&[("put", 16), ("batchput", 6), ("list", 10), ("get", 6), ("snap", 3), ("del", 3), ("import", 2), ("reopen", 1), ("tick", 3), ("drop", 1)]) },
            Opt::default(),
            4000,
            160_000,
            "threads with handles that all have the same limit; non-trivial: more was written than the limit, and operations overlapped",
            |t| s(t, "beyond-limit") > 0 && s(t, "overlaps") > 0,
        )],
        "C07" => plain(prof(&[("put", 10), ("del", 8), ("batch", 8), ("rename", 4), ("movepfx", 3), ("delpfx", 3), ("import", 3), ("retry", 3), ("list", 4), ("snap", 2), ("reopen", 1), ("tick", 2)]), 2500),
        "C08" => plain(Prof { keys: (2, 7), ..prof(&[("put", 8), ("movepfx", 10), ("delpfx", 6), ("list", 10), ("batchput", 3), ("del", 2), ("snap", 3), ("rename", 2)]) }, 2500),
        "C09" => plain(Prof { keys: (1, 4), ..prof(&[("put", 8), ("rename", 12), ("batch", 12), ("list", 4), ("snap", 4), ("get", 4), ("del", 3), ("movepfx", 2)]) }, 2500),
        "C11" => plain(Prof { keys: (1, 4), ..prof(&[("import", 14), ("put", 6), ("get", 8), ("retry", 4), ("batchput", 3), ("del", 4), ("snap", 4), ("tick", 1)]) }, 2500),
        "C12" => vec![mk(
            "threads",
            Prof { threads: 1..4, crash: true, ..prof(&[("put", 14), ("del", 8), ("rename", 3), ("movepfx", 2), ("delpfx", 2), ("import", 4), ("snap", 5), ("batch", 8), ("retry", 3), ("get", 2), ("drop", 1), ("reopen", 1), ("cleanup", 1), ("tick", 3)]) },
            Opt::default(),
            1500,
            60_000,
            "threads under generated schedules, and the process dies; non-trivial: it died with an operation that changes the contents under way",
            |t| s(t, "crashes-with-operations-under-way") > 0,
        )],
        "C13" => vec![mk(
            "threads",
            Prof { faults: true, ..prof(&[("put", 14), ("get", 6), ("del", 8), ("rename", 3), ("movepfx", 2), ("delpfx", 2), ("list", 2), ("import", 4), ("snap", 5), ("batch", 8), ("retry", 3), ("drop", 1), ("reopen", 1), ("cleanup", 1), ("tick", 3)]) },
            Opt::default(),
            2500,
            100_000,
            "threads under generated schedules, with faults; non-trivial: an operation failed while operations overlapped",
            |t| s(t, "failed-ops") > 0 && s(t, "overlaps") > 0,
        )],
        "C14" => vec![
            mk(
                "mixed",
                Prof {
                    threads: 2..5,
                    keys: (1, 6),
                    ..prof(&[("put", 12), ("get", 8), ("del", 6), ("rename", 3), ("movepfx", 2), ("delpfx", 2), ("list", 3), ("import", 4), ("snap", 7), ("readabort", 1), ("batch", 7), ("drop", 1), ("reopen", 1), ("cleanup", 1), ("tick", 2), ("walk", 1), ("retry", 2)])
                },
                Opt::default(),
                10_000,
                400_000,
                OVERLAP,
                overlap,
            ),
            // few keys, deletion and reclamation against reading
            mk(
                "contended",
                Prof { ops: 2..7, keys: (1, 3), handles: 1..3, ..prof(&[("put", 12), ("get", 10), ("del", 10), ("rename", 2), ("delpfx", 1), ("list", 1), ("import", 2), ("snap", 10), ("batch", 5), ("drop", 1), ("tick", 3), ("retry", 2)]) },
                Opt::default(),
                8_000,
                300_000,
                OVERLAP,
                overlap,
            ),
        ],
        "C20" => vec![mk(
            "threads",
            Prof { modes: [0, 0, 1], keys: (1, 3), ops: 2..8, ..prof(&[("snap", 14), ("get", 6), ("put", 6), ("drop", 8), ("cleanup", 12), ("walk", 6), ("reopen", 4), ("del", 2), ("tick", 1)]) },
            Opt::default(),
            4000,
            160_000,
            OVERLAP,
            overlap,
        )],
        _ => vec![],
    }
}
