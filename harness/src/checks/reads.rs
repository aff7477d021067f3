//! C10: every way of reading a snapshot value, at generated positions, by one or several threads.
use super::*;
use crate::check;
use crate::data::*;
use possum::{SnapshotValue, Value};
use positioned_io::ReadAt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Pos {
    Abs(u32),
    /// relative to the end of the value
    End(i16),
    Huge(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Rd {
    At { v: u8, pos: Pos, buf: u32 },
    View { v: u8 },
    Read { v: u8, buf: u32 },
    /// streams with the chunk sizes in turn, over two values interleaved if `w` is another
    Stream { v: u8, w: u8, chunks: Vec<u16> },
    ViewIn { v: u8, w: u8 },
    Panic { v: u8, w: u8 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct RCase {
    mode: Mode,
    seed: u32,
    sched: sim::Sched,
    /// (value size, start a new file by a second batch before it)
    vals: Vec<(u32, bool)>,
    /// indexes that are deleted before or after the snapshot
    del_before: u16,
    del_after: u16,
    readers: Vec<Vec<Rd>>,
    two_snaps: bool,
}

fn pos() -> BoxedStrategy<Pos> {
    prop_oneof![
        2 => Just(Pos::Abs(0)),
        4 => (0u32..4 * BS).prop_map(Pos::Abs),
        2 => (0u32..4, -1i32..2).prop_map(|(k, d)| Pos::Abs((k as i32 * BS as i32 + d).max(0) as u32)),
        6 => (-6i16..6).prop_map(Pos::End),
        1 => prop_oneof![Just(u64::MAX), Just(i64::MAX as u64), Just(u64::MAX - 4096), any::<u64>()].prop_map(Pos::Huge),
    ]
    .boxed()
}
fn buf() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 5 => 1u32..12, 3 => 1u32..2 * BS, 2 => Just(16 * BS), 2 => (BS - 2)..(BS + 3)].boxed()
}
fn strat() -> BoxedStrategy<RCase> {
    let v = any::<u8>;
    let rd = prop_oneof![
        10 => (v(), pos(), buf()).prop_map(|(v, pos, buf)| Rd::At { v, pos, buf }),
        3 => v().prop_map(|v| Rd::View { v }),
        3 => (v(), buf()).prop_map(|(v, buf)| Rd::Read { v, buf }),
        3 => (v(), v(), proptest::collection::vec(prop_oneof![1u16..8, 1u16..5000], 1..4)).prop_map(|(v, w, chunks)| Rd::Stream { v, w, chunks }),
        2 => (v(), v()).prop_map(|(v, w)| Rd::ViewIn { v, w }),
        1 => (v(), v()).prop_map(|(v, w)| Rd::Panic { v, w }),
    ];
    let mode = prop_oneof![Just(Mode::Seg), Just(Mode::Flock), Just(Mode::Clone)];
    let script = proptest::collection::vec(rd, 1..12);
    (
        (mode, any::<u32>(), crate::engine::sched(60)),
        proptest::collection::vec((size(SizeProfile::Mixed), prop::bool::weighted(0.2)), 1..7),
        prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
        prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
        prop_oneof![5 => proptest::collection::vec(script.clone(), 1..2), 2 => proptest::collection::vec(script, 2..4)],
        prop::bool::weighted(0.3),
    )
        .prop_map(|((mode, seed, sched), vals, del_before, del_after, readers, two_snaps)| RCase { mode, seed, sched, vals, del_before, del_after, readers, two_snaps })
        .boxed()
}

type SV = SnapshotValue<Value>;
use crate::engine::to_ops as ok;

fn read_one(vals: &[(SV, Vec<u8>)], rd: &Rd, st: &mut std::collections::BTreeMap<String, u64>) -> R<()> {
    let mut bump = |k: &str| *st.entry(k.into()).or_default() += 1;
    let val = |i: &u8| &vals[*i as usize % vals.len()];
    match rd {
        Rd::At { v, pos, buf } => {
            let (sv, data) = val(v);
            let n = data.len() as u64;
            let p = match pos {
                Pos::Abs(p) => *p as u64,
                Pos::End(d) => n.saturating_add_signed(*d as i64),
                Pos::Huge(p) => *p,
            };
            let mut b = vec![0xEEu8; *buf as usize];
            let got = ok(sv.read_at(p, &mut b), &format!("read_at({p}, {buf}) of a value of {n}"))?;
            let from = p.min(n) as usize;
            let want = &data[from..(from + *buf as usize).min(data.len())];
            check!(got == want.len(), "read-count", "read_at({p}, {buf}) of a value of {n} returned {got}, want {}", want.len());
            check!(b[..got] == *want, "content", "read_at({p}, {buf}) of a value of {n}: {}", diff(&b[..got], want));
            bump(if p >= n { "at-beyond" } else if from > 0 { "at-inner" } else { "at-start" });
            if p < n && p + *buf as u64 > n {
                bump("at-clipped");
            }
        }
        Rd::View { v } => {
            let (sv, data) = val(v);
            let got = ok(sv.view(|b| b.to_vec()), "view")?;
            check!(got == *data, "content", "view: {}", diff(&got, data));
            bump("views");
        }
        Rd::ViewIn { v, w } => {
            // Two values at once, also of the same file, and another kind of read inside a view.
            let (sv, data) = val(v);
            let (sw, dw) = val(w);
            let got = ok(
                sv.view(|a| -> R<bool> {
                    let mut buf = vec![0u8; 5];
                    let n = ok(sw.read_at(1, &mut buf), "read_at inside a view")?;
                    let want = &dw[dw.len().min(1)..dw.len().min(6)];
                    check!(&buf[..n] == want, "content", "read_at inside a view: {}", diff(&buf[..n], want));
                    ok(sw.view(|b| a == &data[..] && b == &dw[..]), "view inside a view")
                }),
                "view",
            )??;
            check!(got, "content", "view inside a view: wrong bytes");
            bump("nested-views");
        }
        Rd::Panic { v, w } => {
            // What the caller does inside a view is the caller's problem only.
            let (sv, _) = val(v);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sv.view(|_| -> () { std::panic::panic_any(crate::child::Expected) })));
            let r: Option<()> = match r {
                Ok(r) => r.ok(),
                Err(_) => None,
            };
            check!(r.is_none(), "content", "a view that panicked returned something");
            let (sw, dw) = val(w);
            let got = ok(sw.view(|b| b.to_vec()), "view")?;
            check!(got == *dw, "content", "view: {}", diff(&got, dw));
            bump("panicking-views");
        }
        Rd::Read { v, buf } => {
            let (sv, data) = val(v);
            let mut b = vec![0xEEu8; *buf as usize];
            let got = ok(sv.read(&mut b), "read")?;
            let want = &data[..data.len().min(*buf as usize)];
            check!(got == want.len(), "read-count", "read({buf}) of a value of {} returned {got}", data.len());
            check!(b[..got] == *want, "content", "read({buf}): {}", diff(&b[..got], want));
            bump("reads");
        }
        Rd::Stream { v, w, chunks } => {
            let (a, b) = (val(v), val(w));
            let mut rs = [(a.0.new_reader(), vec![], &a.1, false), (b.0.new_reader(), vec![], &b.1, false)];
            let mut i = 0;
            while !(rs[0].3 && rs[1].3) {
                let n = (chunks[i % chunks.len()] as usize).max(a.1.len() / 60).max(b.1.len() / 60).max(1);
                let r = &mut rs[i % 2];
                i += 1;
                let mut buf = vec![0xEEu8; n];
                let got = ok(r.0.read(&mut buf), "new_reader().read")?;
                check!(got <= n, "read-count", "stream returned {got} for a buffer of {n}");
                if got == 0 {
                    r.3 = true;
                }
                r.1.extend_from_slice(&buf[..got]);
                check!(r.1.len() <= r.2.len(), "content", "stream of a value of {} bytes yields {}", r.2.len(), r.1.len());
            }
            for r in rs {
                check!(r.1 == *r.2, "content", "stream: {}", diff(&r.1, r.2));
            }
            bump("streams");
        }
    }
    Ok(())
}

fn run(c: &RCase, dir: &std::path::Path, o: &mut Outcome) -> R<()> {
    let h = ok(possum::Handle::new(dir.join("store")), "Handle::new")?;
    let mut model = vec![];
    {
        let mut batches = vec![ok(h.new_writer(), "new_writer")?];
        for (i, (n, new)) in c.vals.iter().enumerate() {
            if *new {
                batches.push(ok(h.new_writer(), "new_writer")?);
            }
            let b = batches.last_mut().unwrap();
            let mut w = ok(b.new_value().begin(), "begin")?;
            let d = content(i as u64 + 1, *n as usize);
            ok(w.copy_from(&d[..]), "copy_from")?;
            ok(b.stage_write(vec![i as u8], w), "stage_write")?;
            model.push(d.to_vec());
        }
        for b in batches {
            ok(b.commit(), "commit")?;
        }
    }
    for i in 0..model.len() {
        if c.del_before >> i & 1 == 1 {
            ok(h.single_delete(&[i as u8]), "single_delete")?;
        }
    }
    sim::settle(3);
    let snap = |keys: Vec<usize>| -> R<Vec<(SV, Vec<u8>)>> {
        let mut rd = ok(h.read(), "read")?;
        let mut vs = vec![];
        for i in keys {
            let v = ok(rd.add(&[i as u8]), "add")?;
            check!(v.is_some(), "lost-key", "key {i} is missing");
            vs.push((v.unwrap(), i));
        }
        let s = ok(rd.begin(), "begin")?;
        Ok(vs.into_iter().map(|(v, i)| (s.value(v), model[i].clone())).collect())
    };
    let live: Vec<usize> = (0..model.len()).filter(|i| c.del_before >> i & 1 == 0).collect();
    if live.is_empty() {
        return Ok(());
    }
    let mut vals = if c.two_snaps {
        let (a, b): (Vec<_>, Vec<_>) = live.iter().partition(|i| *i % 2 == 0);
        let mut v = snap(a)?;
        v.extend(snap(b)?);
        v
    } else {
        snap(live.clone())?
    };
    if c.seed & 1 == 1 {
        vals.reverse();
    }
    for i in &live {
        if c.del_after >> i & 1 == 1 {
            ok(h.single_delete(&[*i as u8]), "single_delete")?;
            o.bump("deleted-under-snapshot", 1);
        }
    }
    // After whatever readers did, the handle goes on.
    let again = |o: &mut Outcome| -> R<()> {
        if model.len() > 1 {
            for i in &live {
                if c.del_after >> i & 1 == 0 {
                    let v = ok(h.read_single(&[*i as u8]), "read_single")?;
                    check!(v.is_some(), "lost-key", "key {i} is missing");
                    let got = ok(v.unwrap().view(|b| b.to_vec()), "view")?;
                    check!(got == model[*i], "content", "view: {}", diff(&got, &model[*i]));
                }
            }
            let (n, _) = ok(h.single_write_from(vec![200], &b"more"[..]), "single_write_from")?;
            check!(n == 4, "wrong-length", "wrote {n}");
            o.bump("used-again", 1);
        }
        Ok(())
    };
    if c.readers.len() == 1 {
        for r in &c.readers[0] {
            sim::progress();
            read_one(&vals, r, &mut o.stats)?;
        }
    } else {
        let vals = Arc::new(vals);
        let ts: Vec<_> = c
            .readers
            .iter()
            .cloned()
            .map(|rs| {
                let vals = vals.clone();
                std::thread::spawn(move || {
                    let mut st = Default::default();
                    let r: R<()> = rs.iter().try_for_each(|r| read_one(&vals, r, &mut st));
                    (r, st)
                })
            })
            .collect();
        for t in ts {
            let Ok((r, st)) = t.join() else { return fail("panic", "a reading thread panicked") };
            for (k, v) in st {
                o.bump(&k, v);
            }
            r?;
        }
        o.bump("threads", 1);
    }
    again(o)
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check {
        name: "reads",
        strat: strat(),
        eval: Box::new(|c: &RCase| simulated(c.mode, false, &c.sched, c.seed as u64, |dir, o| run(c, dir, o))),
        nontrivial: |t| {
            let g = |k: &str| t.get(k).copied().unwrap_or(0);
            g("at-inner") + g("at-clipped") > 0 && g("views") + g("reads") + g("streams") + g("at-beyond") > 0
        },
        rule: "layouts of values read by positioned reads, views, reads and streams in any order and by up to three threads; non-trivial: a positioned read inside a value or clipped by its end, and another kind of read",
        quick: 20000,
        thorough: 500_000,
        shrinks: 500,
    })]
}
