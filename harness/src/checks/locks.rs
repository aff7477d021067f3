//! C17: the file-locking primitives against a model of range locks.
use super::*;
use crate::check;
use possum::sys::{FileLocking, Flock, FlockArg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Shared,
    Excl,
    Unlock,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Open { ro: bool },
    /// a second descriptor of the same open file
    Dup { f: u8 },
    Close { f: u8 },
    Lock { f: u8, kind: Kind, len: Option<u64>, off: u64, block: bool },
    Max { f: u8, kind: Kind },
    Trim { f: u8, from: u64, by: u64 },
    Flock { f: u8, kind: Kind },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct LCase {
    mode: Mode,
    ops: Vec<Op>,
    sched: sim::Sched,
}

const TOP: u64 = i64::MAX as u64;

fn off() -> BoxedStrategy<u64> {
    prop_oneof![12 => 0u64..20, 2 => (0u64..20).prop_map(|x| TOP - x), 2 => (0u64..6).prop_map(|x| x * 4096), 1 => (31u32..63, 0u64..20).prop_map(|(b, d)| (1 << b) - 10 + d), 1 => 0..TOP].boxed()
}
fn strat() -> BoxedStrategy<LCase> {
    let kind = || prop_oneof![4 => Just(Kind::Shared), 5 => Just(Kind::Excl), 2 => Just(Kind::Unlock)];
    let lock = (any::<u8>(), kind(), prop::option::weighted(0.75, prop_oneof![6 => 0u64..12, 1 => 0u64..20_000, 1 => (31u32..63, 0u64..20).prop_map(|(b, d)| (1 << b) - 10 + d), 1 => 0..TOP]), off(), prop::bool::weighted(0.25))
        .prop_map(|(f, kind, len, off, block)| Op::Lock { f, kind, len, off, block });
    let op = prop_oneof![
        3 => prop::bool::weighted(0.2).prop_map(|ro| Op::Open { ro }),
        1 => any::<u8>().prop_map(|f| Op::Dup { f }),
        2 => any::<u8>().prop_map(|f| Op::Close { f }),
        14 => lock,
        3 => (any::<u8>(), kind()).prop_map(|(f, kind)| Op::Max { f, kind }),
        4 => (any::<u8>(), off(), prop_oneof![6 => 0u64..12, 1 => 0u64..20_000, 1 => (31u32..63, 0u64..20).prop_map(|(b, d)| (1 << b) - 10 + d), 1 => 0..TOP]).prop_map(|(f, from, by)| Op::Trim { f, from, by }),
        1 => (any::<u8>(), kind()).prop_map(|(f, kind)| Op::Flock { f, kind }),
    ];
    (prop_oneof![3 => Just(Mode::Seg), 2 => Just(Mode::Flock)], proptest::collection::vec(op, 1..30), crate::engine::sched(30))
        .prop_map(|(mode, ops, sched)| LCase { mode, ops, sched })
        .boxed()
}

/// Locks of one open file: sorted disjoint inclusive ranges.
#[derive(Clone, Debug, Default, PartialEq)]
struct Locks(Vec<(u64, u64, Kind)>);
impl Locks {
    fn set(&mut self, a: u64, b: u64, k: Kind) {
        let mut v = vec![];
        for (x, y, t) in self.0.drain(..) {
            if y < a || x > b {
                v.push((x, y, t));
                continue;
            }
            if x < a {
                v.push((x, a - 1, t));
            }
            if y > b {
                v.push((b + 1, y, t));
            }
        }
        if k != Kind::Unlock {
            v.push((a, b, k));
        }
        v.sort_by_key(|x| x.0);
        self.0 = v;
    }
    fn conflicts(&self, a: u64, b: u64, k: Kind) -> bool {
        k != Kind::Unlock && self.0.iter().any(|(x, y, t)| *x <= b && *y >= a && (k == Kind::Excl || *t == Kind::Excl))
    }
    fn at(&self, p: u64) -> Kind {
        self.0.iter().find(|(x, y, _)| *x <= p && p <= *y).map(|x| x.2).unwrap_or(Kind::Unlock)
    }
}

struct Desc {
    fds: Vec<Arc<File>>,
    ro: bool,
    ranges: Locks,
    whole: Locks,
}

#[allow(deprecated)]
fn arg(k: Kind, block: bool) -> FlockArg {
    match (k, block) {
        (Kind::Shared, false) => FlockArg::LockSharedNonblock,
        (Kind::Shared, true) => FlockArg::LockShared,
        (Kind::Excl, false) => FlockArg::LockExclusiveNonblock,
        (Kind::Excl, true) => FlockArg::LockExclusive,
        (Kind::Unlock, false) => FlockArg::UnlockNonblock,
        (Kind::Unlock, true) => FlockArg::Unlock,
    }
}

/// What the kernel would refuse to a stranger at one offset.
fn kernel_at(f: &File, p: u64) -> Kind {
    let probe = |t: i32| unsafe {
        let mut l: libc::flock64 = std::mem::zeroed();
        l.l_type = t as i16;
        l.l_start = p as i64;
        l.l_len = 1;
        assert_eq!(libc::fcntl(f.as_raw_fd(), libc::F_OFD_GETLK, &mut l), 0);
        l.l_type != libc::F_UNLCK as i16
    };
    if probe(libc::F_RDLCK) {
        Kind::Excl
    } else if probe(libc::F_WRLCK) {
        Kind::Shared
    } else {
        Kind::Unlock
    }
}
fn kernel_whole(path: &std::path::Path) -> Kind {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
    unsafe {
        if libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) == 0 {
            Kind::Unlock
        } else if libc::flock(f.as_raw_fd(), libc::LOCK_SH | libc::LOCK_NB) == 0 {
            Kind::Shared
        } else {
            Kind::Excl
        }
    }
}

fn run(c: &LCase, dir: &std::path::Path, o: &mut Outcome) -> R<()> {
    let path = dir.join("locked");
    std::fs::write(&path, b"some bytes").unwrap();
    let flock_mode = c.mode == Mode::Flock;
    let open = |ro: bool| std::fs::OpenOptions::new().read(true).write(!ro).open(&path).unwrap();
    let mut ds: Vec<Desc> = vec![];
    let probe = open(false);
    for (step, op) in c.ops.iter().enumerate() {
        sim::progress();
        if ds.is_empty() {
            ds.push(Desc { fds: vec![Arc::new(open(false))], ro: false, ranges: Locks::default(), whole: Locks::default() });
        }
        let n = ds.len();
        // (file, kind, range, blocking, by flock, what was returned)
        let i = |f: &u8| *f as usize % n;
        match op {
            Op::Open { ro } => {
                if n < 5 {
                    ds.push(Desc { fds: vec![Arc::new(open(*ro))], ro: *ro, ranges: Locks::default(), whole: Locks::default() });
                }
            }
            Op::Dup { f } => {
                let d = &mut ds[i(f)];
                let k = d.fds[0].try_clone().unwrap();
                d.fds.push(Arc::new(k));
            }
            Op::Close { f } => {
                let k = i(f);
                ds[k].fds.pop();
                if ds[k].fds.is_empty() {
                    ds.remove(k);
                    o.bump("closed", 1);
                }
            }
            Op::Trim { f, from, by } => {
                let k = i(f);
                let to = from.saturating_add(*by).min(TOP);
                let r = ds[k].fds[0].trim_exclusive_lock_left(*from, to);
                check!(matches!(r, Ok(true)), "trim-failed", "trim_exclusive_lock_left({from}, {to}) = {r:?}");
                if !flock_mode && to > *from {
                    ds[k].ranges.set(*from, to - 1, Kind::Unlock);
                    o.bump("trims", 1);
                }
            }
            Op::Lock { .. } | Op::Max { .. } | Op::Flock { .. } => {
                let (k, kind, len, off, block, by_flock) = match op {
                    Op::Lock { f, kind, len, off, block } => (i(f), *kind, *len, *off, *block, flock_mode),
                    Op::Max { f, kind } => (i(f), *kind, None, 0, false, flock_mode),
                    Op::Flock { f, kind } => (i(f), *kind, None, 0, false, true),
                    _ => unreachable!(),
                };
                // Ranges end within the range of offsets.
                let len = len.map(|l| l.min(TOP - off));
                let file = ds[k].fds.last().unwrap().clone();
                let call = {
                    let op = op.clone();
                    move || match op {
                        Op::Max { .. } => file.lock_max_segment(arg(kind, false)),
                        Op::Flock { .. } => file.flock(arg(kind, false)),
                        _ => file.lock_segment(arg(kind, block), len, off),
                    }
                };
                let (a, b) = if by_flock {
                    (0, TOP)
                } else {
                    match len {
                        Some(0) => {
                            // An empty range conflicts with nothing and changes nothing.
                            let r = call();
                            check!(matches!(r, Ok(true)), "empty-range", "lock of an empty range = {r:?}");
                            continue;
                        }
                        Some(l) => (off, off + l - 1),
                        None => (off, TOP),
                    }
                };
                let get = |d: &Desc| if by_flock { d.whole.clone() } else { d.ranges.clone() };
                if ds[k].ro && kind == Kind::Excl && !by_flock {
                    // Exclusive range locks need a writable file.
                    if !block {
                        let r = call();
                        check!(r.is_err(), "ro-lock", "exclusive range lock of a read-only file = {r:?}");
                    }
                    continue;
                }
                let conflict = ds.iter().enumerate().any(|(j, d)| j != k && get(d).conflicts(a, b, kind));
                if !conflict {
                    let r = call();
                    check!(matches!(r, Ok(true)), "not-granted", "step {step} {op:?}: {r:?} though nothing conflicts");
                    o.bump("granted", 1);
                    let d = &mut ds[k];
                    if by_flock { d.whole.set(a, b, kind) } else { d.ranges.set(a, b, kind) }
                } else if !block {
                    let r = call();
                    check!(matches!(r, Ok(false)), "conflict-granted", "step {step} {op:?}: {r:?} though another file holds a conflicting lock");
                    o.bump("refused", 1);
                    if by_flock && ds[k].whole.at(0) != Kind::Unlock {
                        // flock gives up the old lock before it is refused the new one.
                        ds[k].whole = Locks::default();
                    }
                } else {
                    // Waits until the others let go.
                    let done = Arc::new(Mutex::new(None));
                    let d2 = done.clone();
                    let t = std::thread::spawn(move || {
                        let r = call();
                        *d2.lock().unwrap() = Some(r);
                    });
                    sim::sleep_ns(50_000_000);
                    check!(done.lock().unwrap().is_none(), "conflict-granted", "step {step} {op:?}: a blocking request returned {:?} while a conflicting lock is held", done.lock().unwrap());
                    for j in 0..ds.len() {
                        if j != k && get(&ds[j]).conflicts(a, b, kind) {
                            check!(done.lock().unwrap().is_none(), "conflict-granted", "step {step} {op:?}: a blocking request returned while a conflicting lock is held");
                            let r = ds[j].fds[0].lock_segment(FlockArg::UnlockNonblock, None, 0);
                            check!(matches!(r, Ok(true)), "unlock-failed", "{r:?}");
                            if flock_mode { ds[j].whole.set(0, TOP, Kind::Unlock) } else { ds[j].ranges.set(0, TOP, Kind::Unlock) }
                        }
                    }
                    let _ = t.join();
                    let r = done.lock().unwrap().take();
                    check!(matches!(r, Some(Ok(true))), "not-granted", "step {step} {op:?}: a blocking request ended with {r:?}");
                    o.bump("waited", 1);
                    let d = &mut ds[k];
                    if by_flock { d.whole.set(a, b, kind) } else { d.ranges.set(a, b, kind) }
                }
            }
        }
        // The kernel's state is exactly the model's.
        let _e = sim::exempt();
        let mut pts: Vec<u64> = vec![0, 1, 20, 4096, TOP - 1];
        for d in &ds {
            for (a, b, _) in &d.ranges.0 {
                pts.extend([a.saturating_sub(1), *a, *b, b.saturating_add(1)]);
            }
        }
        if let Op::Lock { off, len, .. } = op {
            pts.extend([*off, off.saturating_sub(1), off.saturating_add(len.unwrap_or(5)), off.saturating_add(len.unwrap_or(5)).saturating_sub(1)]);
        }
        if let Op::Trim { from, by, .. } = op {
            let to = from.saturating_add(*by);
            pts.extend([*from, from.saturating_sub(1), to, to.saturating_sub(1)]);
        }
        for p in pts {
            let p = p.min(TOP - 1);
            let want = ds.iter().map(|d| d.ranges.at(p)).max_by_key(|k| match k { Kind::Unlock => 0, Kind::Shared => 1, Kind::Excl => 2 }).unwrap_or(Kind::Unlock);
            let got = kernel_at(&probe, p);
            check!(got == want, "lock-state", "after step {step} {op:?}: offset {p} is {got:?}, want {want:?}");
        }
        let want = ds.iter().map(|d| d.whole.at(0)).max_by_key(|k| match k { Kind::Unlock => 0, Kind::Shared => 1, Kind::Excl => 2 }).unwrap_or(Kind::Unlock);
        let got = kernel_whole(&path);
        check!(got == want, "lock-state", "after step {step} {op:?}: whole-file lock is {got:?}, want {want:?}");
    }
    Ok(())
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check {
        name: "locks",
        strat: strat(),
        eval: Box::new(|c: &LCase| simulated(c.mode, false, &c.sched, 1, |dir, o| run(c, dir, o))),
        nontrivial: |t| t.get("granted").copied().unwrap_or(0) > 0 && t.get("refused").copied().unwrap_or(0) + t.get("waited").copied().unwrap_or(0) > 0,
        rule: "histories of lock requests of several open files of one file, with the kernel's lock table read after each; non-trivial: a request granted and one refused or made to wait",
        quick: 50000,
        thorough: 2_000_000,
        shrinks: 500,
    })]
}
