//! C13: file operations fail; what was committed stays, what failed happened entirely or not at all.
use super::*;
use crate::check;
use crate::data::*;
use crate::engine::to_ops as ok;
use crate::sim::Fault;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Window {
    /// where it begins, as a fraction of the calls of the history
    at: u16,
    fault: Fault,
    /// consecutive calls
    len: u8,
    /// look at the store through a new handle after the failure
    reopen: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct FCase {
    base: Case,
    mask: u32,
    windows: Vec<Window>,
}

fn new_world(b: &Case, dir: &std::path::Path) -> World {
    let oracle = Oracle { contents: true, accounting: true, dirs: false, ..Default::default() };
    let mut w = World::new(&b.keys, b.mode, b.exdev, oracle, dir.join("store"), dir.join("src"));
    w.quiet = true;
    w
}

/// Everything the store holds, read through the given handle.
pub fn contents(h: &H) -> R<BTreeMap<Vec<u8>, Bytes>> {
    let l = list_handle(h)?;
    let mut m = BTreeMap::new();
    for (k, x) in &l {
        let v = ok(h.read().unwrap().read_single(k), "read_single after the fault")?;
        let Some(v) = v else { return fail("lost-key", format!("key {} is listed but cannot be read after the fault", show(k))) };
        let b = ok(v.view(|b| b.to_vec()), "view after the fault")?;
        check!(b.len() as u64 == x.len, "wrong-length", "key {}: {} bytes, listed as {}", show(k), b.len(), x.len);
        m.insert(k.clone(), Rc::new(b));
    }
    Ok(m)
}
pub fn show_map(m: &BTreeMap<Vec<u8>, Bytes>) -> String {
    m.iter().map(|(k, v)| format!("{}:{}", show(k), v.len())).collect::<Vec<_>>().join(" ")
}

struct Run<'a> {
    w: World,
    /// allowances for the operation that failed
    before: BTreeMap<Vec<u8>, Bytes>,
    after: BTreeMap<Vec<u8>, Bytes>,
    o: &'a mut Outcome,
}
impl Run<'_> {
    /// The store is as before the operation, or as after it.
    fn settle_contents(&mut self, got: BTreeMap<Vec<u8>, Bytes>, log: &str) -> R<()> {
        if got != self.before && got != self.after {
            let kind = match () {
                _ if self.before.keys().any(|k| !got.contains_key(k) && self.after.contains_key(k)) => "lost-key",
                _ if got.keys().any(|k| !self.before.contains_key(k) && !self.after.contains_key(k)) => "ghost-key",
                _ => "content",
            };
            return fail(kind, format!("after faults [{log}]: {}; before the operation: {}; after it: {}", show_map(&got), show_map(&self.before), show_map(&self.after)));
        }
        self.o.bump(if self.before == self.after {
            "failed-reads"
        } else if got == self.before {
            "failed-without-effect"
        } else {
            "failed-with-effect"
        }, 1);
        let old = std::mem::take(&mut self.w.model);
        self.w.adopt(got)?;
        // Contents tell values apart; snapshots may still name them.
        for (k, m) in self.w.model.iter_mut() {
            let was = old.get(k).filter(|o| o.data == m.data).or_else(|| old.values().find(|o| !m.data.is_empty() && o.data == m.data));
            if let Some(o) = was {
                m.vid = o.vid;
            }
        }
        Ok(())
    }
    fn close_all(&mut self) {
        self.w.batches.clear();
        for h in self.w.hs.iter_mut() {
            *h = None;
        }
    }
    fn recover(&mut self, reopen: bool, log: &str) -> R<()> {
        self.w.batches.clear();
        sim::progress();
        let got = if reopen {
            None
        } else {
            let hi = self.w.slot(0)?;
            let h = self.w.h(hi);
            match contents(&h) {
                Ok(m) => Some(m),
                // The handle may not have survived.
                Err(f) if f.kind == "op-error" => None,
                Err(f) => return Err(f),
            }
        };
        let got = match got {
            Some(m) => {
                self.o.bump("same-handle", 1);
                m
            }
            None => {
                self.close_all();
                self.o.bump("reopened", 1);
                sim::progress();
                let hi = self.w.slot(0)?;
                let h = self.w.h(hi);
                contents(&h)?
            }
        };
        self.settle_contents(got, log)
    }
}

fn history(c: &FCase, dir: &std::path::Path, armed: Option<&[(u64, Fault, u64, bool)]>, o: &mut Outcome) -> R<()> {
    let b = &c.base;
    let mut windows = armed.unwrap_or(&[]).iter();
    let mut arm = |windows: &mut std::slice::Iter<(u64, Fault, u64, bool)>| -> Option<bool> {
        let w = windows.next();
        sim::set_plan(sim::Plan { fault_at: w.map(|w| (w.0, Some(w.1))), fault_len: w.map(|w| w.2).unwrap_or(0), fault_mask: c.mask, ..Default::default() });
        w.map(|w| w.3)
    };
    let mut reopen = arm(&mut windows);
    let mut r = Run { w: new_world(b, dir), before: Default::default(), after: Default::default(), o };
    // A handle that returned an error may fail again, until it is replaced.
    let mut suspect = false;
    let mut fired = 0;
    let res = (|| {
        let mut i = 0;
        while i < b.ops.len() {
            let op = &b.ops[i];
            i += 1;
            sim::progress();
            r.before = r.w.model.iter().map(|(k, v)| (k.clone(), v.data.clone())).collect();
            r.after = r.w.predict(op);
            match r.w.step(op) {
                Ok(()) => {}
                Err(f) if f.kind == "op-error" && (sim::faults_fired() > fired || suspect) => {
                    let log = sim::fault_log().join(" ");
                    let now = sim::faults_fired() > fired;
                    fired = sim::faults_fired();
                    sim::clear_plan();
                    r.o.bump("failed-ops", 1);
                    let again = suspect && !now;
                    let ro = reopen.unwrap_or(false) || again;
                    if again {
                        r.o.bump("handle-unusable", 1);
                    }
                    r.recover(ro, &log).map_err(|g| Fail { kind: g.kind, msg: format!("{} [operation {op:?} failed with: {}]", g.msg, f.msg) })?;
                    suspect = !ro;
                    reopen = arm(&mut windows);
                }
                Err(f) => return Err(Fail { kind: f.kind, msg: format!("{} [faults: {}]", f.msg, sim::fault_log().join(" ")) }),
            }
            if sim::faults_fired() > fired {
                // Nobody noticed, or the background was hit.
                fired = sim::faults_fired();
                r.o.bump("unnoticed-faults", 1);
                suspect = true;
            }
        }
        r.o.bump("fault-calls", sim::fault_calls());
        if armed.is_none() {
            return Ok(());
        }
        // The rest goes by itself; what is left in the background runs into the remaining faults.
        sim::progress();
        sim::settle(6);
        sim::clear_plan();
        sim::progress();
        let before: BTreeMap<Vec<u8>, Bytes> = r.w.model.iter().map(|(k, v)| (k.clone(), v.data.clone())).collect();
        r.before = before.clone();
        r.after = before;
        for s in &r.w.snaps {
            for e in &s.ents {
                World::read_value(&e.sv, 5, &e.data, &format!("snapshot of key {} after all faults", show(&e.key)))?;
            }
        }
        if suspect || sim::faults_fired() > 0 {
            r.close_all();
        }
        r.w.finish().map_err(|f| Fail { kind: f.kind, msg: format!("{} [at the end; faults: {}]", f.msg, sim::fault_log().join(" ")) })
    })();
    let st = std::mem::take(&mut r.w.stats);
    for (k, v) in st {
        r.o.bump(&k, v);
    }
    r.o.bump("faults-fired", sim::faults_fired());
    std::mem::forget(r.w);
    res
}

fn eval(c: &FCase) -> Eval {
    let b = &c.base;
    let dry = simulated(b.mode, b.exdev, &b.sched, b.seed as u64, |dir, o| history(c, dir, None, o))?;
    if dry.fail.is_some() {
        return Ok(dry);
    }
    let n = dry.stats.get("fault-calls").copied().unwrap_or(0);
    let mut left = n;
    let armed: Vec<(u64, Fault, u64, bool)> = c
        .windows
        .iter()
        .map(|w| {
            let at = (w.at as u64 * left) >> 16;
            left -= at;
            (at, w.fault, w.len as u64, w.reopen)
        })
        .collect();
    simulated(b.mode, b.exdev, &b.sched, b.seed as u64, |dir, o| history(c, dir, Some(&armed), o))
}

/// A fault at every call of a short history.
fn eval_every(c: &FCase) -> Eval {
    let b = &c.base;
    let dry = simulated(b.mode, b.exdev, &b.sched, b.seed as u64, |dir, o| history(c, dir, None, o))?;
    if dry.fail.is_some() {
        return Ok(dry);
    }
    let n = dry.stats.get("fault-calls").copied().unwrap_or(0);
    let mut out = Outcome::default();
    let Some(w) = c.windows.first() else { return Ok(out) };
    let step = n.div_ceil(150).max(1);
    let mut at = w.at as u64 % step;
    while at < n {
        let x = simulated(b.mode, b.exdev, &b.sched, b.seed as u64, |dir, o| history(c, dir, Some(&[(at, w.fault, w.len as u64, w.reopen)]), o))?;
        for (k, v) in x.stats {
            out.bump(&k, v);
        }
        if let Some(f) = x.fail {
            out.fail = Some(Fail { msg: format!("fault at call {at} of {n}: {}", f.msg), ..f });
            return Ok(out);
        }
        at += step;
    }
    Ok(out)
}

pub fn fault() -> BoxedStrategy<Fault> {

        prop_oneof![
            3 => prop_oneof![Just(libc::ENOSPC), Just(libc::EIO), Just(libc::EDQUOT)].prop_map(Fault::Errno),
            1 => prop_oneof![Just(libc::EINTR), Just(libc::EACCES), Just(libc::EMFILE), Just(libc::ENOLCK), Just(libc::ENOMEM)].prop_map(Fault::Errno),
            1 => Just(Fault::Short),
            2 => prop_oneof![Just(libc::ENOSPC), Just(libc::EIO)].prop_map(Fault::Partial),
        ]
    .boxed()
}
pub fn mask() -> BoxedStrategy<u32> {
    let kinds = prop_oneof![3 => Just(0u32), 3 => Just(1 << sim::K_VALUES), 2 => Just(1 << sim::K_DB), 1 => Just(1 << sim::K_DIRENT)];
    let classes = prop_oneof![5 => Just(0u32), 2 => Just(1u32), 1 => Just(2), 2 => Just(4), 1 => Just(8), 1 => Just(16), 1 => Just(5)];
    (kinds, classes).prop_map(|(k, c)| k | c << 16).boxed()
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    let base = |ops| Profile {
        w: weights(&[
            ("put", 14), ("get", 5), ("del", 5), ("delpfx", 2), ("movepfx", 2), ("rename", 3), ("list", 1), ("import", 4), ("snap", 4), ("snapread", 3), ("snapdrop", 1),
            ("readabort", 1), ("bnew", 4), ("bbegin", 4), ("bput", 8), ("bmany", 1), ("bulk", 1), ("bwrite", 5), ("bcopyfail", 1), ("bstage", 4), ("bimport", 2), ("brename", 2), ("bcommit", 5), ("bdrop", 1),
            ("wdrop", 1), ("open", 1), ("reopen", 2), ("close", 1), ("settle", 4), ("cleanup", 1),
        ]),
        sizes: SizeProfile::Mixed,
        ops,
        keys: (1, 7),
        modes: vec![(2, Mode::Seg), (1, Mode::Flock), (2, Mode::Clone)],
        preempt: 20,
        oracle: Oracle::default(),
        nopunch: false,
    };
    let window = move || {
        (any::<u16>(), fault(), prop_oneof![4 => Just(1u8), 3 => 2u8..6, 1 => 6u8..40], any::<bool>()).prop_map(|(at, fault, len, reopen)| Window { at, fault, len, reopen })
    };
    // What is written to values again and again, with faults of what changes values files.
    let writers = || {
        let mut p = base((6, 30));
        for (op, w) in [("bnew", 8), ("bbegin", 12), ("bwrite", 24), ("bcopyfail", 4), ("bstage", 10), ("bimport", 4), ("bcommit", 8), ("blend", 2), ("bput", 4), ("bulk", 0), ("bmany", 0)] {
            p.w.insert(op, w);
        }
        p
    };
    let mk = |name, ops, nw: std::ops::Range<usize>, every: bool, quick, thorough, rule| -> Box<dyn DynCheck> {
        let (p, mask) = if name == "writers" {
            let classes = prop_oneof![3 => Just(1u32), 1 => Just(5), 1 => Just(2), 1 => Just(7)];
            (writers(), classes.prop_map(|c| 1 << sim::K_VALUES | c << 16).boxed())
        } else {
            (base(ops), mask())
        };
        let strat = (case(&p), mask, proptest::collection::vec(window(), nw)).prop_map(|(base, mask, windows)| FCase { base, mask, windows }).boxed();
        Box::new(Check {
            name,
            strat,
            eval: Box::new(move |c| if every { eval_every(c) } else { eval(c) }),
            nontrivial: |t| t.get("failed-without-effect").copied().unwrap_or(0) + t.get("failed-with-effect").copied().unwrap_or(0) + t.get("writes-retried").copied().unwrap_or(0) > 0,
            rule,
            quick,
            thorough,
            shrinks: if every { 60 } else { 250 },
        })
    };
    vec![
        mk("every-call", (1, 6), 1..2, true, 200, 6000, "short histories with a fault at every file call in turn; non-trivial: an operation that changes the contents failed"),
        mk("writers", (6, 30), 1..6, false, 4000, 100_000, "histories of batches with faults of reads, writes, truncations and clones of values files only; non-trivial: an operation that changes the contents failed, or a write, import or copy did"),
        mk("sampled", (3, 30), 1..6, false, 9_000, 300_000, "longer histories with up to five windows of faults; non-trivial: an operation that changes the contents failed"),
    ]
}
