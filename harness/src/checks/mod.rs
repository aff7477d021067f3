//! The checks of each property.
use crate::child::*;
use crate::engine::*;
use crate::frame::*;
use crate::sim::{self, CloneEmu, Mode};

pub mod capi;
pub mod cli;
pub mod conc;
pub mod crash;
pub mod faults;
pub mod go;
pub mod hist;
pub mod locks;
pub mod opening;
pub mod reads;
pub mod sparse;

pub fn get(id: &str) -> Vec<Box<dyn DynCheck>> {
    let mut l = match id {
        "C10" => reads::get(),
        "C12" => crash::get(),
        "C13" => faults::get(),
        "C14" => vec![],
        "C15" => capi::get(),
        "C16" => cli::get(),
        "C17" => locks::get(),
        "C18" => sparse::get(),
        "C19" => opening::get(),
        "C22" => go::get(),
        _ => hist::get(id),
    };
    l.extend(conc::get(id));
    l
}
pub fn level(id: &str) -> &'static str {
    match id {
        "C12" | "C13" => "fault_enumeration",
        _ => "exploration",
    }
}
pub fn assumptions(id: &str) -> Vec<&'static str> {
    const KERNEL: &str = "Linux with tmpfs scratch directories; range locks, hole punching and SEEK_DATA/SEEK_HOLE of the kernel are real";
    if id == "C22" {
        return vec![
            KERNEL,
            "the scratch filesystem cannot clone, so files are read under range locks",
            "goroutines run on real threads in real time: their schedules are neither chosen nor repeated; Go's race detector watches the binding, not the library",
            "the anacrolix Go modules the binding imports aren't installed here and are replaced by small stand-ins",
        ];
    }
    vec![
        KERNEL,
        "file cloning is emulated at the FICLONE ioctl by copying the source (the scratch filesystem cannot clone)",
        "threads are serialised by a simulator that switches at file, lock, futex, clock and thread operations, and in a part of the cases between any two basic blocks of the library; sqlite's own code is switched only at its system calls, and the effects of unordered memory accesses are out of reach",
        "time is virtual, so what takes long on a real clock is decided too, and nothing depends on the speed of the machine",
    ]
}

/// Sets up the process for a case: read mechanism, clone emulation. Must run before possum is used.
pub fn setup_mode(mode: Mode, exdev: bool) {
    if mode == Mode::Flock {
        std::env::set_var("POSSUM_EMULATE_FREEBSD", "1");
    } else {
        std::env::remove_var("POSSUM_EMULATE_FREEBSD");
    }
    sim::set_clone(if mode == Mode::Clone { CloneEmu::Works } else { CloneEmu::Unsupported });
    sim::set_exdev(exdev);
}

pub fn panics() -> Option<Fail> {
    let p = PANICS.lock().unwrap();
    if p.is_empty() {
        None
    } else {
        Some(Fail { kind: "panic".into(), msg: p.join(" | ") })
    }
}

/// Runs `f` under the simulator; to be called in a child process.
pub fn sim_body(mode: Mode, exdev: bool, sched: &sim::Sched, seed: u64, f: impl FnOnce(&mut Outcome) -> R<()>) -> Outcome {
    setup_mode(mode, exdev);
    let mut o = Outcome::default();
    sim::start(sched, seed, on_deadlock);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o)));
    o.fail = match r {
        Ok(Ok(())) => panics(),
        Ok(Err(f)) => Some(match panics() {
            Some(p) => Fail { kind: f.kind, msg: format!("{} [panics: {}]", f.msg, p.msg) },
            None => f,
        }),
        Err(_) => panics().or(Some(Fail { kind: "panic".into(), msg: String::new() })),
    };
    let (y, s, p, t) = sim::stats();
    o.bump("sim-yields", y);
    o.bump("sim-switches", s);
    o.bump("sim-preemptions", p);
    o.bump("sim-threads", t as u64);
    o.bump("sim-preemptions-within-code", sim::fine_preemptions());
    o
}

/// Runs `f` in a child under the simulator with a scratch directory.
pub fn simulated(mode: Mode, exdev: bool, sched: &sim::Sched, seed: u64, f: impl FnOnce(&std::path::Path, &mut Outcome) -> R<()>) -> Eval {
    let dir = fresh_dir();
    let r = in_child(120, || sim_body(mode, exdev, sched, seed, |o| f(&dir, o)));
    remove_dir(&dir);
    r
}

pub fn run_history(c: &Case, oracle: Oracle, nopunch: bool) -> Eval {
    simulated(c.mode, c.exdev, &c.sched, c.seed as u64, |dir, o| {
        let mut w = World::new(&c.keys, c.mode, c.exdev, oracle, dir.join("store"), dir.join("src"));
        w.always_nopunch = nopunch;
        let r = (|| {
            for op in &c.ops {
                sim::progress();
                w.step(op)?;
            }
            sim::progress();
            w.finish()
        })();
        o.stats = std::mem::take(&mut w.stats);
        std::mem::forget(w);
        r
    })
}
