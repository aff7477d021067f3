//! C12: the process dies at a system call that changes something; the store is opened again.
use super::*;
use crate::check;
use crate::data::*;
use crate::engine::to_ops as ok;
use crate::raw;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::*};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct KCase {
    base: Case,
    /// crash points, as fractions of the number of mutating calls of the history
    points: Vec<u16>,
    /// a write that is under way is cut in half
    partial: bool,
    /// opening the store after the crash dies too, at this call
    again: Option<u8>,
    /// another process has the store open all the time
    witness: bool,
    /// the process that recovers draws the same random numbers as the one that died; not generated with whole-file
    /// locks, where a writer of a file with values in it would wait for its own readers
    same_rng: bool,
    /// what is done with the recovered store
    post: Vec<Op>,
}

/// Memory shared with the children.
struct Shared(*mut AtomicU64);
impl Shared {
    fn new() -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert_ne!(p, libc::MAP_FAILED);
        Shared(p as *mut AtomicU64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, 4096) };
    }
}

fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    h ^ b.len() as u64
}
type Sum = Vec<(Vec<u8>, u64, u64)>;
fn sum(m: &BTreeMap<Vec<u8>, Bytes>) -> Sum {
    m.iter().map(|(k, v)| (k.clone(), v.len() as u64, hash(v))).collect()
}
fn show_sum(s: &Sum) -> String {
    s.iter().map(|(k, n, h)| format!("{}:{n}/{:04x}", show(k), h & 0xffff)).collect::<Vec<_>>().join(" ")
}

/// The history; counts what has returned.
fn history(c: &KCase, dir: &Path, plan: Option<(u64, bool)>, sh: &Shared, mut each: impl FnMut(&World)) -> R<Stats> {
    let b = &c.base;
    let mut w = World::new(&b.keys, b.mode, b.exdev, Oracle::default(), dir.join("store"), dir.join("src"));
    sim::set_plan(sim::Plan { crash_at: plan.map(|p| p.0), crash_partial: plan.map(|p| p.1).unwrap_or(false), ..Default::default() });
    for op in &b.ops {
        sim::progress();
        w.step(op)?;
        each(&w);
        sh.at(0).fetch_add(1, SeqCst);
    }
    // Reclamation goes on in the background.
    sim::progress();
    w.snaps.clear();
    w.batches.clear();
    sim::settle(4);
    for h in w.hs.iter_mut() {
        *h = None;
    }
    sim::settle(4);
    let st = std::mem::take(&mut w.stats);
    std::mem::forget(w);
    Ok(st)
}

pub fn read_all(w: &mut World) -> R<BTreeMap<Vec<u8>, Bytes>> {
    let l = w.listing()?;
    let h = w.h(w.hs.iter().position(|h| h.is_some()).unwrap());
    let mut m = BTreeMap::new();
    for (k, x) in &l {
        let v = ok(h.read().unwrap().read_single(k), "read_single after the crash")?;
        let Some(v) = v else { return fail("lost-key", format!("key {} is listed but cannot be read", show(k))) };
        let b = ok(v.view(|b| b.to_vec()), "view after the crash")?;
        check!(b.len() as u64 == x.len, "wrong-length", "key {}: {} bytes, listed as {}", show(k), b.len(), x.len);
        m.insert(k.clone(), Rc::new(b));
    }
    Ok(m)
}

fn recover(c: &KCase, dir: &Path, allowed: &[Sum], w: &mut World) -> R<()> {
    let m = read_all(w)?;
    let got = sum(&m);
    if !allowed.contains(&got) {
        let kind = if allowed.iter().all(|a| a.iter().any(|x| !got.iter().any(|y| x.0 == y.0))) {
            "lost-key"
        } else if allowed.iter().all(|a| got.iter().any(|y| !a.iter().any(|x| x.0 == y.0))) {
            "ghost-key"
        } else {
            "content"
        };
        return fail(kind, format!("after the crash: {}; before the operation: {}; after it: {}", show_sum(&got), show_sum(&allowed[0]), allowed.get(1).map(show_sum).unwrap_or_default()));
    }
    w.adopt(m)?;
    let hi = w.slot(0)?;
    for how in 0..4 {
        w.verify_all(hi, how)?;
    }
    for op in &c.post {
        sim::progress();
        w.step(op)?;
    }
    sim::progress();
    let _ = dir;
    w.finish()
}

fn eval(c: &KCase, every: bool) -> Eval {
    let b = &c.base;
    // Without a crash: what each operation leaves behind, and how many calls there are.
    let sh = Shared::new();
    let dir = fresh_dir();
    let dry = in_child(120, || {
        sim_body(b.mode, b.exdev, &b.sched, b.seed as u64, |o| {
            let mut sums = vec![Sum::new()];
            let r = history(c, &dir, None, &sh, |w| sums.push(w.model.iter().map(|(k, v)| (k.clone(), v.data.len() as u64, hash(&v.data))).collect()));
            let n = sim::mut_calls();
            o.extra = serde_json::json!([n, sums]);
            o.stats = r?;
            Ok(())
        })
    });
    remove_dir(&dir);
    let dry = dry?;
    if dry.fail.is_some() {
        return Ok(dry);
    }
    let (n, sums): (u64, Vec<Sum>) = serde_json::from_value(dry.extra).unwrap();
    let mut out = Outcome { stats: dry.stats, ..Default::default() };
    let points: Vec<u64> = if every && n <= 160 { (0..n).collect() } else { c.points.iter().map(|p| (*p as u64 * n) >> 16).collect() };
    for p in points {
        let dir = fresh_dir();
        let r = one(c, &dir, p, &sums, &mut out);
        remove_dir(&dir);
        match r? {
            None => {}
            Some(f) => {
                out.fail = Some(Fail { msg: format!("crash at call {p} of {n}: {}", f.msg), ..f });
                return Ok(out);
            }
        }
    }
    Ok(out)
}

fn one(c: &KCase, dir: &Path, p: u64, sums: &[Sum], out: &mut Outcome) -> Result<Option<Fail>, String> {
    let b = &c.base;
    let sh = Shared::new();
    // With identifiers coming up again, a file may be removed and another of its name appear.
    let oracle = Oracle { contents: true, accounting: true, reclaim: !c.same_rng, dirs: true, ..Default::default() };
    // File identifiers are 32 bits and may come up again; longer random names do not.
    let seed = |attempt: u64| {
        let names = std::fs::read_dir(dir.join("store")).map(|d| d.flatten().any(|e| e.file_name().to_string_lossy().starts_with(".clone_test"))).unwrap_or(false);
        if c.same_rng && !names {
            b.seed as u64
        } else {
            b.seed as u64 ^ (0xABCDEF * attempt)
        }
    };
    let crash = |plan: (u64, bool)| -> Result<Option<Fail>, String> {
        sh.at(0).store(0, SeqCst);
        let r = fork_run(120, || {
            sim_body(b.mode, b.exdev, &b.sched, b.seed as u64, |_| {
                history(c, dir, Some(plan), &sh, |_| {})?;
                raw::exit_now(98)
            })
        });
        raw::released(&dir.join("store"));
        match r {
            ChildEnd::Exited(99) | ChildEnd::Exited(98) => Ok(None),
            r => Ok(Some(classify(r)?.fail.unwrap_or(Fail { kind: "ended".into(), msg: "the history ended without dying".into() }))),
        }
    };
    let allowed = || -> Vec<Sum> {
        let i = sh.at(0).load(SeqCst) as usize;
        let mut v = vec![sums[i].clone()];
        v.extend(sums.get(i + 1).cloned());
        v
    };
    let recovery = |attempt, before: &mut dyn FnMut(&mut World) -> R<()>| -> Outcome {
        sim_body(b.mode, b.exdev, &sim::Sched::default(), seed(attempt), |o| {
            let mut w = World::new(&b.keys, b.mode, b.exdev, oracle, dir.join("store"), dir.join("src2"));
            let r = before(&mut w).and_then(|_| recover(c, dir, &allowed(), &mut w));
            o.stats = std::mem::take(&mut w.stats);
            std::mem::forget(w);
            r
        })
    };
    let done = if c.witness {
        // The other process opens the store first, and is told when this one is dead.
        let mut ends = [[0i32; 2]; 2];
        for e in ends.iter_mut() {
            assert_eq!(unsafe { libc::pipe2(e.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
        }
        let [up, down] = ends;
        let r = fork_run_with(120, || {
            recovery(1, &mut |w| {
                w.slot(0)?;
                w.listing()?;
                raw::write_all(up[1], b"x");
                let mut x = [0u8; 1];
                unsafe { raw::sys(libc::SYS_close, &[down[1] as usize]) };
                let n = unsafe { raw::sys(libc::SYS_read, &[down[0] as usize, x.as_mut_ptr() as usize, 1]) };
                if n != 1 {
                    raw::exit_now(97);
                }
                Ok(())
            })
        }, || {
            unsafe { raw::sys(libc::SYS_close, &[up[1] as usize]) };
            let mut x = [0u8; 1];
            let n = unsafe { raw::sys(libc::SYS_read, &[up[0] as usize, x.as_mut_ptr() as usize, 1]) };
            let r = if n == 1 { crash((p, c.partial)) } else { Err("the witness did not open the store".into()) };
            if matches!(r, Ok(None)) {
                raw::write_all(down[1], b"x");
            }
            for e in [up[0], down[0], down[1]] {
                unsafe { raw::sys(libc::SYS_close, &[e as usize]) };
            }
            r
        });
        let (r, x) = r;
        match x? {
            Some(f) => return Ok(Some(f)),
            None => classify(r)?,
        }
    } else {
        if let Some(f) = crash((p, c.partial))? {
            return Ok(Some(f));
        }
        if let Some(q) = c.again {
            let r = fork_run(120, || {
                sim_body(b.mode, b.exdev, &sim::Sched::default(), seed(1), |_| {
                    let mut w = World::new(&b.keys, b.mode, b.exdev, Oracle::default(), dir.join("store"), dir.join("src2"));
                    sim::set_plan(sim::Plan { crash_at: Some(q as u64), crash_partial: c.partial, ..Default::default() });
                    read_all(&mut w)?;
                    let h = w.h(0);
                    ok(h.read().unwrap().cleanup_snapshots(), "cleanup_snapshots")?;
                    raw::exit_now(98)
                })
            });
            raw::released(&dir.join("store"));
            match r {
                ChildEnd::Exited(99) => out.bump("crashed-again", 1),
                ChildEnd::Exited(98) => {}
                r => return Ok(Some(classify(r)?.fail.unwrap_or(Fail { kind: "ended".into(), msg: "the second process did not die".into() }))),
            }
        }
        in_child(120, || recovery(2, &mut |_| Ok(())))?
    };
    out.bump("crashes", 1);
    if c.witness {
        out.bump("crashes-with-witness", 1);
    }
    let i = sh.at(0).load(SeqCst) as usize;
    if sums.get(i + 1).map(|n| *n != sums[i]).unwrap_or(false) {
        out.bump("crashes-inside-a-change", 1);
    }
    if !sums[i].is_empty() {
        out.bump("crashes-with-data", 1);
    }
    for (k, v) in done.stats {
        out.bump(&format!("after-{k}"), v);
    }
    Ok(done.fail)
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    let w = weights(&[
        ("put", 14), ("del", 6), ("delpfx", 2), ("movepfx", 2), ("rename", 3), ("import", 4), ("snap", 4), ("snapdrop", 1), ("bnew", 4), ("bbegin", 4),
        ("bput", 8), ("bmany", 1), ("bwrite", 5), ("bstage", 4), ("bimport", 2), ("brename", 2), ("bcommit", 5), ("bdrop", 1), ("open", 1), ("reopen", 2), ("close", 1),
        ("settle", 3), ("cleanup", 1), ("get", 1),
    ]);
    let base = |ops| Profile {
        w: w.clone(),
        sizes: SizeProfile::Mixed,
        ops,
        keys: (1, 7),
        modes: vec![(2, Mode::Seg), (1, Mode::Flock), (2, Mode::Clone)],
        preempt: 30,
        oracle: Oracle::default(),
        nopunch: false,
    };
    let post = Profile {
        w: weights(&[("put", 10), ("del", 4), ("rename", 1), ("import", 3), ("get", 2), ("bnew", 2), ("bput", 4), ("bcommit", 3), ("snap", 2), ("snapread", 2), ("settle", 1), ("verify", 1), ("cleanup", 1), ("reopen", 1)]),
        ..base((0, 0))
    };
    let mk = |name, ops, every: bool, points: std::ops::Range<usize>, quick, thorough, rule| -> Box<dyn DynCheck> {
        let strat = (
            case(&base(ops)),
            proptest::collection::vec(any::<u16>(), points),
            any::<bool>(),
            prop::option::weighted(0.3, 0u8..60),
            prop::bool::weighted(0.2),
            prop::bool::weighted(0.5),
            proptest::collection::vec(op(&post), 0..10),
        )
            .prop_map(|(base, points, partial, again, witness, same_rng, post)| KCase { same_rng: same_rng && !witness && base.mode != Mode::Flock, base, points, partial, again, witness, post })
            .boxed();
        Box::new(Check { name, strat, eval: Box::new(move |c| eval(c, every)), nontrivial: |t| t.get("crashes-inside-a-change").copied().unwrap_or(0) > 0, rule, quick, thorough, shrinks: 250 })
    };
    vec![
        mk("every-call", (1, 6), true, 1..6, 400, 12_000, "short histories with a crash at every call that changes a file; non-trivial: a crash inside an operation that changes the contents"),
        mk("sampled", (4, 30), false, 1..10, 4000, 120_000, "longer histories with crashes at sampled calls; non-trivial: a crash inside an operation that changes the contents"),
    ]
}
