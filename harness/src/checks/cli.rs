//! C16: the command-line tool, run as a real process on directories that the Rust API made.
use super::*;
use crate::check;
use crate::data::{self, *};
use crate::engine::to_ops as ok;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Cmd {
    WriteFile { k: u8, size: u32, sub: bool },
    WriteMissing,
    List { p: Pfx },
    Read { k: u8 },
    Print { fragments: bool, file: Option<u8> },
    Punch { file: Option<u8> },
    LastEnd { file: u8, at: u32 },
    ShowHoles { n: u8 },
    PunchHole { file_blocks: u8, off: u32, len: u32 },
    Info,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct CCase {
    base: Case,
    nopunch: bool,
    /// commands, each run before the operation of that index (modulo their number)
    cmds: Vec<(u8, Cmd)>,
}

fn name(k: &[u8]) -> Option<OsString> {
    if k.is_empty() || k.len() > 250 || k == b"." || k == b".." || k.contains(&0) || k.contains(&b'/') {
        return None;
    }
    Some(OsString::from_vec(k.to_vec()))
}
fn arg(k: &[u8]) -> Option<&str> {
    if k.contains(&0) {
        return None;
    }
    std::str::from_utf8(k).ok()
}

struct Out {
    ok: bool,
    out: Vec<u8>,
    err: String,
}
fn cli(args: &[&OsStr]) -> R<Out> {
    let exe = std::env::var_os("PV_CLI").expect("PV_CLI");
    let _e = sim::exempt();
    let o = std::process::Command::new(exe).args(args).env("RUST_BACKTRACE", "0").output().expect("running the tool");
    use std::os::unix::process::ExitStatusExt;
    let err = String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>();
    check!(o.status.signal().is_none(), "tool-died", "{args:?}: {:?} {err}", o.status);
    check!(!err.contains("panicked at"), "tool-panic", "{args:?}: {err}");
    Ok(Out { ok: o.status.success(), out: o.stdout, err })
}
fn good(args: &[&OsStr]) -> R<Vec<u8>> {
    let o = cli(args)?;
    check!(o.ok, "tool-failed", "{args:?}: {}", o.err);
    Ok(o.out)
}
fn s(x: &str) -> &OsStr {
    OsStr::new(x)
}
fn sorted_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    v.sort();
    v
}

/// The maximal runs of data in a file.
fn data_runs(f: &File) -> Vec<(u64, u64)> {
    let n = f.metadata().unwrap().len();
    let mut v = vec![];
    let mut at = 0;
    while at < n {
        let Some(d) = first_data(f, at) else { break };
        let h = first_hole(f, d).min(n);
        v.push((d, h));
        at = h;
    }
    v
}
/// What is allocated before live values and belongs to none.
fn missing(f: &File, values: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let runs = data_runs(f);
    let mut from = 0;
    for (o, l) in values {
        for (a, b) in &runs {
            let (a, b) = ((*a).max(from), (*b).min(*o));
            if a < b {
                v.push((a, b));
            }
        }
        from = o + l;
    }
    v
}
fn whole(r: (u64, u64)) -> Option<(u64, u64)> {
    let b = BS as u64;
    let (s, e) = (r.0.div_ceil(b) * b, r.1 / b * b);
    (s < e).then_some((s, e))
}

type Files = BTreeMap<String, Vec<(u64, u64)>>;
/// Every values file in the directory with its live extents.
fn files(w: &mut World) -> R<Files> {
    let l = w.listing()?;
    let mut m = Files::new();
    let _e = sim::exempt();
    for e in std::fs::read_dir(&w.dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("values-") && e.file_type().unwrap().is_file() {
            m.insert(n, vec![]);
        }
    }
    drop(_e);
    for x in l.values().filter_map(|x| x.loc.as_ref()) {
        match m.get_mut(&x.file) {
            Some(v) => v.push((x.off, x.len)),
            None => return fail("file-missing", format!("{} holds a live value but does not exist", x.file)),
        }
    }
    for v in m.values_mut() {
        v.sort();
    }
    Ok(m)
}
fn pick(fs: &Files, i: u8) -> Option<&String> {
    fs.keys().nth(i as usize % fs.len().max(1))
}
/// `name: a-b (` lines.
fn regions(out: &[u8]) -> R<Vec<(String, u64, u64)>> {
    let t = String::from_utf8_lossy(out);
    let mut v = vec![];
    for l in t.lines() {
        let p = (|| {
            let (base, r) = l[l.rfind("values-")?..].split_once(": ")?;
            let (a, b) = r.split(' ').next()?.split_once('-')?;
            let base = base.to_string();
            Some((base, a.parse().ok()?, b.parse().ok()?))
        })();
        match p {
            Some(x) => v.push(x),
            None => return fail("unreadable-output", format!("line {l:?}")),
        }
    }
    v.sort();
    Ok(v)
}

fn run_cmd(w: &mut World, c: &Cmd, st: &mut Stats) -> R<()> {
    sim::settle(3);
    sim::progress();
    let mut bump = |k: &str| *st.entry(k.into()).or_default() += 1;
    let dir = w.dir.clone();
    let db = [s("database"), dir.as_os_str()];
    let with = |rest: &[&OsStr]| -> Vec<OsString> { db.iter().chain(rest).map(|x| x.to_os_string()).collect() };
    fn refs(v: &[OsString]) -> Vec<&OsStr> {
        v.iter().map(|x| x.as_os_str()).collect()
    }
    match c {
        Cmd::WriteFile { k, size, sub } => {
            let Some(n) = name(&w.key(*k)) else { return Ok(()) };
            let (d, _) = w.fresh(*size);
            let parent = if *sub { w.src.join("some dir") } else { w.src.clone() };
            std::fs::create_dir_all(&parent).unwrap();
            let p = parent.join(&n);
            std::fs::write(&p, &d[..]).unwrap();
            let o = good(&refs(&with(&[s("write-file"), s("--"), p.as_os_str()])))?;
            check!(o.is_empty(), "tool-output", "write-file printed {}", show(&o));
            check!(std::fs::read(&p).ok().as_deref() == Some(&d[..]), "source-changed", "write-file changed its source");
            std::fs::remove_file(&p).unwrap();
            let t0 = sim::now_ms();
            w.put_model(n.as_bytes().to_vec(), d, t0);
            bump("cli-writes");
            w.sync(None, None)
        }
        Cmd::WriteMissing => {
            let o = cli(&refs(&with(&[s("write-file"), w.src.join("no such file").as_os_str()])))?;
            check!(!o.ok, "tool-success", "write-file of a missing file succeeded");
            w.sync(None, None)
        }
        Cmd::List { p } => {
            let p = w.pfx(p);
            let Some(a) = arg(&p) else { return Ok(()) };
            let o = if p.is_empty() { good(&refs(&with(&[s("list-keys")])))? } else { good(&refs(&with(&[s("list-keys"), s("--"), s(a)])))? };
            let mut want = vec![];
            let mut n = 0;
            for k in w.model.keys().filter(|k| k.starts_with(&p)) {
                want.extend_from_slice(k);
                want.push(b'\n');
                n += 1;
            }
            check!(sorted_lines(&o) == sorted_lines(&want), "tool-list", "list-keys {a:?} printed {}, want {}", show(&o), show(&want));
            if n > 0 && n < w.model.len() {
                bump("cli-list-partial");
            }
            w.sync(None, None)
        }
        Cmd::Read { k } => {
            let k = w.key(*k);
            let Some(a) = arg(&k) else { return Ok(()) };
            let o = cli(&refs(&with(&[s("read-key"), s("--"), s(a)])))?;
            match w.model.get(&k) {
                None => {
                    check!(!o.ok && o.out.is_empty(), "tool-read", "read-key of the missing {} succeeded: {}", show(&k), show(&o.out));
                    bump("cli-read-missing");
                }
                Some(m) => {
                    check!(o.ok, "tool-failed", "read-key {}: {}", show(&k), o.err);
                    check!(o.out == m.data[..], "tool-read", "read-key {}: {}", show(&k), diff(&o.out, &m.data));
                    bump("cli-reads");
                }
            }
            w.sync(None, None)
        }
        Cmd::Print { fragments, file } => {
            let fs = files(w)?;
            let only = file.and_then(|i| pick(&fs, i)).cloned();
            let mut a = with(&[s("print-missing-holes")]);
            if *fragments {
                a.push("--fragments".into());
            }
            if let Some(f) = &only {
                a.push(dir.join(f).into());
            }
            let before = contents(&fs, &dir);
            let got = regions(&good(&refs(&a))?)?;
            let mut want = vec![];
            for (n, v) in &fs {
                if only.as_ref().map(|o| o == n).unwrap_or(true) {
                    for r in missing(&File::open(dir.join(n)).unwrap(), v) {
                        if *fragments || whole(r).is_some() {
                            want.push((n.clone(), r.0, r.1));
                        }
                    }
                }
            }
            want.sort();
            check!(got == want, "tool-holes", "{a:?} printed {got:?}, want {want:?}");
            check!(contents(&fs, &dir) == before, "tool-changed", "print-missing-holes changed a values file");
            if !want.is_empty() {
                bump("cli-printed-holes");
            }
            w.sync(None, None)
        }
        Cmd::Punch { file } => {
            let fs = files(w)?;
            let only = file.and_then(|i| pick(&fs, i)).cloned();
            let mut a = with(&[s("punch-missing-holes")]);
            if let Some(f) = &only {
                a.push(dir.join(f).into());
            }
            let before = contents(&fs, &dir);
            let printed = regions(&good(&refs(&a))?)?;
            // Extents that snapshots use.
            let mut used: BTreeSet<(String, u64, u64)> = BTreeSet::new();
            for e in w.snaps.iter().flat_map(|s| &s.ents) {
                if let Some(n) = e.sv.location.into_non_zero() {
                    used.insert((n.file_id.to_string(), n.file_offset, n.file_offset + n.length));
                }
            }
            let writing = !w.batches.is_empty() || !w.hs.iter().all(|h| h.is_none());
            for (n, v) in &fs {
                let f = File::open(dir.join(n)).unwrap();
                let (old, runs) = &before[n];
                let mut want: Vec<(u64, u64)> = vec![];
                if only.as_ref().map(|o| o == n).unwrap_or(true) {
                    want.extend(missing_of(runs, v).into_iter().filter_map(whole));
                }
                let mut new = vec![0; old.len()];
                check!(f.metadata().unwrap().len() == old.len() as u64, "tool-changed", "punch-missing-holes changed the length of {n}");
                f.read_exact_at(&mut new, 0).unwrap();
                // Outside the whole blocks of missing holes nothing changes.
                let mut at = 0;
                for (a, b) in want.iter().copied().chain([(old.len() as u64, old.len() as u64)]) {
                    let (x, y) = (&old[at as usize..a as usize], &new[at as usize..a as usize]);
                    check!(x == y, "tool-changed", "punch-missing-holes changed {n} at {} outside missing holes {want:?}", at as usize + x.iter().zip(y).take_while(|(p, q)| p == q).count());
                    at = b;
                }
                for (a, b) in &want {
                    let busy = used.iter().any(|u| u.0 == *n && u.1 < *b && *a < u.2) || w.mode == Mode::Flock && (writing || used.iter().any(|u| u.0 == *n));
                    let free = first_data(&f, *a).map(|d| d >= *b).unwrap_or(true);
                    if free {
                        check!(printed.iter().any(|p| p.0 == *n && p.1 <= *a && p.2 >= *b), "tool-output", "{n}: {a}-{b} was punched but {printed:?} was printed");
                        bump("cli-punched");
                    } else {
                        check!(busy, "tool-not-punched", "{n}: {a}-{b} is a missing hole but was not punched (printed {printed:?})");
                        bump("cli-punch-busy");
                    }
                }
                for p in printed.iter().filter(|p| p.0 == *n) {
                    let free = first_data(&f, p.1).map(|d| d >= p.2).unwrap_or(true);
                    check!(free, "tool-output", "{n}: printed {}-{} as punched but it is not", p.1, p.2);
                }
                if !want.is_empty() && v.len() > 1 {
                    bump("cli-punch-among-values");
                }
            }
            for e in w.snaps.iter().flat_map(|s| &s.ents) {
                World::read_value(&e.sv, 5, &e.data, &format!("snapshot of key {} after punch-missing-holes", show(&e.key)))?;
                World::read_value(&e.sv, 1, &e.data, &format!("snapshot of key {} after punch-missing-holes", show(&e.key)))?;
            }
            let hi = w.slot(0)?;
            w.verify_all(hi, 5)?;
            w.sync(None, None)
        }
        Cmd::LastEnd { file, at } => {
            let fs = files(w)?;
            let Some(n) = pick(&fs, *file) else { return Ok(()) };
            let id = n["values-".len()..].to_string();
            let o = good(&[s("last-end-offset"), dir.as_os_str(), s(&id), s(&at.to_string())])?;
            let want = fs[n].iter().map(|x| x.0 + x.1).filter(|e| *e <= *at as u64).max().unwrap_or(0);
            check!(o == format!("{want}\n").into_bytes(), "tool-last-end", "last-end-offset {id} {at} printed {}, want {want}", show(&o));
            bump("cli-last-end");
            Ok(())
        }
        Cmd::ShowHoles { n } => {
            let fs = files(w)?;
            let ps: Vec<PathBuf> = fs.keys().take(1 + *n as usize % 3).map(|f| dir.join(f)).collect();
            if ps.is_empty() {
                return Ok(());
            }
            let mut a = vec![s("show-holes")];
            a.extend(ps.iter().map(|p| p.as_os_str()));
            let o = String::from_utf8_lossy(&good(&a)?).to_string();
            let mut want = String::new();
            for p in &ps {
                let f = File::open(p).unwrap();
                let n = f.metadata().unwrap().len();
                let mut at = 0;
                let line = |k: &str, a: u64, b: u64| format!("{}: {k}, {a}-{b} (length {})\n", p.display(), b - a);
                for (a, b) in data_runs(&f) {
                    if at < a {
                        want += &line("Hole", at, a);
                    }
                    want += &line("Data", a, b);
                    at = b;
                }
                if at < n {
                    want += &line("Hole", at, n);
                }
            }
            check!(o == want, "tool-show-holes", "show-holes printed {o:?}, want {want:?}");
            bump("cli-show-holes");
            Ok(())
        }
        Cmd::PunchHole { file_blocks, off, len } => {
            let n = *file_blocks as usize * BS as usize + 100;
            let (d, _) = w.fresh(n as u32);
            let p = w.src.join("punch me");
            std::fs::write(&p, &d[..]).unwrap();
            let (off, len) = (*off as usize % n, (*len as usize).max(1));
            let o = cli(&[s("punch-hole"), p.as_os_str(), s(&off.to_string()), s(&len.to_string())])?;
            check!(o.ok, "tool-failed", "punch-hole {off} {len}: {}", o.err);
            let got = std::fs::read(&p).unwrap();
            check!(got.len() == n, "tool-punch", "punch-hole changed the length {n} to {}", got.len());
            let end = (off + len).min(n);
            // What lies outside stays, whole blocks inside are free.
            check!(got[..off] == d[..off] && got[end..] == d[end..], "tool-punch", "punch-hole {off} {len} changed bytes outside");
            if let Some((a, b)) = whole((off as u64, end as u64)) {
                let f = File::open(&p).unwrap();
                check!(first_data(&f, a).map(|x| x >= b).unwrap_or(true), "tool-punch", "punch-hole {off} {len} left data in {a}-{b}");
                check!(got[a as usize..b as usize].iter().all(|x| *x == 0), "tool-punch", "punch-hole left bytes");
                bump("cli-punch-hole");
            }
            std::fs::remove_file(&p).unwrap();
            Ok(())
        }
        Cmd::Info => {
            let o = good(&refs(&with(&[s("info")])))?;
            let o = String::from_utf8_lossy(&o).to_string();
            check!(o.contains(&format!("{dir:?}")) && o.contains(&BS.to_string()), "tool-info", "info printed {o:?}");
            w.sync(None, None)
        }
    }
}
type Before = BTreeMap<String, (Vec<u8>, Vec<(u64, u64)>)>;
fn contents(fs: &Files, dir: &Path) -> Before {
    fs.keys().map(|n| (n.clone(), (std::fs::read(dir.join(n)).unwrap_or_default(), data_runs(&File::open(dir.join(n)).unwrap())))).collect()
}
fn missing_of(runs: &[(u64, u64)], values: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut from = 0;
    for (o, l) in values {
        for (a, b) in runs {
            let (a, b) = ((*a).max(from), (*b).min(*o));
            if a < b {
                v.push((a, b));
            }
        }
        from = o + l;
    }
    v
}

fn eval(c: &CCase) -> Eval {
    let b = &c.base;
    simulated(b.mode, b.exdev, &b.sched, b.seed as u64, |dir, o| {
        let oracle = Oracle { contents: true, ..Default::default() };
        let mut w = World::new(&b.keys, b.mode, b.exdev, oracle, dir.join("store"), dir.join("src"));
        w.always_nopunch = c.nopunch;
        let mut st = Stats::new();
        let r = (|| {
            for i in 0..=b.ops.len() {
                for (at, cmd) in &c.cmds {
                    if *at as usize % (b.ops.len() + 1) == i {
                        // The directory exists by now, or the tool creates it.
                        run_cmd(&mut w, cmd, &mut st)?;
                    }
                }
                if let Some(op) = b.ops.get(i) {
                    sim::progress();
                    w.step(op)?;
                }
            }
            sim::progress();
            w.finish()
        })();
        o.stats = std::mem::take(&mut w.stats);
        o.stats.extend(st);
        std::mem::forget(w);
        r
    })
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    let p = Profile {
        w: weights(&[
            ("put", 16), ("del", 9), ("rename", 1), ("import", 3), ("snap", 5), ("snapread", 1), ("snapdrop", 1), ("bnew", 3), ("bbegin", 2), ("bput", 8),
            ("bwrite", 4), ("bstage", 2), ("brename", 1), ("bcommit", 4), ("bdrop", 1), ("open", 1), ("reopen", 1), ("nopunch", 4), ("settle", 1),
        ]),
        sizes: SizeProfile::Blocks,
        ops: (1, 30),
        keys: (2, 8),
        modes: vec![(4, Mode::Seg), (1, Mode::Flock), (1, Mode::Clone)],
        preempt: 10,
        oracle: Oracle::default(),
        nopunch: false,
    };
    let k = any::<u8>;
    let pfx = (k(), 0u8..3, prop::option::weighted(0.2, prop_oneof![Just(b'a'), Just(b'-'), Just(0x7f)])).prop_map(|(k, len, extra)| Pfx { k, len, extra });
    let f = || prop::option::weighted(0.4, any::<u8>());
    let cmd = prop_oneof![
        3 => (k(), data::size(SizeProfile::Mixed), any::<bool>()).prop_map(|(k, size, sub)| Cmd::WriteFile { k, size, sub }),
        1 => Just(Cmd::WriteMissing),
        3 => pfx.prop_map(|p| Cmd::List { p }),
        4 => k().prop_map(|k| Cmd::Read { k }),
        6 => (any::<bool>(), f()).prop_map(|(fragments, file)| Cmd::Print { fragments, file }),
        8 => f().prop_map(|file| Cmd::Punch { file }),
        1 => (k(), 0u32..60_000).prop_map(|(file, at)| Cmd::LastEnd { file, at }),
        1 => k().prop_map(|n| Cmd::ShowHoles { n }),
        1 => (0u8..6, any::<u32>(), prop_oneof![1u32..30_000, (1u32..5).prop_map(|n| n * BS)]).prop_map(|(file_blocks, off, len)| Cmd::PunchHole { file_blocks, off, len }),
        1 => Just(Cmd::Info),
    ];
    let text = proptest::collection::vec(
        prop_oneof![
            6 => proptest::collection::vec(prop_oneof![Just(b'a'), Just(b'b'), Just(b'-'), Just(b' '), Just(b'.')], 0..4),
            1 => Just("clé ☃".as_bytes().to_vec()),
            1 => Just(b"two\nlines".to_vec()),
            1 => proptest::collection::vec(any::<u8>(), 1..5),
        ],
        2..8,
    );
    let strat = (case(&p), text, prop::bool::weighted(0.4), proptest::collection::vec((k(), cmd), 1..6))
        .prop_map(|(mut base, mut keys, nopunch, cmds)| {
            keys.sort();
            keys.dedup();
            base.keys = keys;
            CCase { base, nopunch, cmds }
        })
        .boxed();
    vec![Box::new(Check {
        name: "tool",
        strat,
        eval: Box::new(eval),
        nontrivial: |t| ["cli-writes", "cli-reads", "cli-list-partial", "cli-printed-holes", "cli-punched", "cli-punch-busy"].iter().any(|k| t.get(*k).copied().unwrap_or(0) > 0),
        rule: "histories of the Rust API with commands of the real tool between them; non-trivial: the tool wrote or read a value, listed some but not all keys, or found, punched or left a missing hole",
        quick: 15_000,
        thorough: 150_000,
        shrinks: 400,
    })]
}
