//! Deterministic scheduler, virtual clock, crash points, I/O faults and file-clone emulation, all by
//! defining the libc entry points the code under test uses. Only threads of a case are managed; the
//! interposers pass straight through for everything else.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::raw::*;
use libc::{c_char, c_int, c_void, off64_t, size_t, ssize_t, timespec, timeval};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU8, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mode {
    Seg,
    Flock,
    Clone,
}

/// What the file clone call does.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CloneEmu {
    /// ask the kernel
    Native,
    /// emulate a successful clone by copying
    Works,
    /// EOPNOTSUPP
    Unsupported,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sched {
    /// (yield points to pass, choice among runnable threads)
    pub gaps: Vec<(u16, u8)>,
    /// preemptions between any two basic blocks of the code under test
    #[serde(default)]
    pub fine: Option<Fine>,
}

/// Preempts wherever a thread enters one of the chosen blocks.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fine {
    /// chooses the blocks and the threads to go on with
    pub salt: u16,
    /// one block in 2^rate is chosen
    pub rate: u8,
    /// preemptions at most
    pub most: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fault {
    Errno(i32),
    /// transfer only part of a write, then succeed
    Short,
    /// transfer part of a write, then fail
    Partial(i32),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    pub crash_at: Option<u64>,
    pub crash_partial: bool,
    pub fault_at: Option<(u64, Option<Fault>)>,
    /// how many consecutive eligible calls fail
    pub fault_len: u64,
    /// which kinds of files are eligible (bit per K_*), 0 = all
/// kinds of files, and from bit 16 on classes of calls
        pub fault_mask: u32,
}

// ---------------------------------------------------------------- state

/// Virtual time one operation may take. No wait in the code under test comes near it.
const STUCK_NS: u64 = 2 * 3_600_000_000_000;
const REALTIME_BASE: u64 = 1_700_000_000_000_000_000;
const MONO_BASE: u64 = 1_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ready,
    Futex(usize, Option<u64>),
    Sleep(u64),
    Join(usize),
    Dead,
}
struct Thr {
    baton: AtomicU32,
    st: St,
    timed_out: bool,
    pth: libc::pthread_t,
    polls: u64,
}

struct Sim {
    threads: Vec<Box<Thr>>,
    cur: usize,
    now: u64,
    sched: Vec<(u16, u8)>,
    pos: usize,
    gap: u32,
    fine: Option<Fine>,
    fine_rng: u64,
    fine_done: u64,
    spun: u32,
    yields: u64,
    switches: u64,
    preemptions: u64,
    seed: u64,
    rng: u64,
    plan: Plan,
    mut_calls: u64,
    fault_calls: u64,
    faults_fired: u64,
    /// a plain write here was cut short; the next one fails with this
    cut_short: Option<(c_int, i32)>,
    fault_log: Vec<String>,
    crash_done: bool,
    deadlock: Option<fn(&str)>,
    stuck_at: u64,
    file_log: bool,
    log: Vec<String>,
}

static mut SIM: Option<Box<Sim>> = None;
static ENABLED: AtomicBool = AtomicBool::new(false);
static CLONE: AtomicU8 = AtomicU8::new(0);
static EXDEV: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static HELD: Cell<i32> = const { Cell::new(0) };
    static PENDING: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    /// Exempts the harness's own file operations from faults, crashes and yields.
    static EXEMPT: Cell<u32> = const { Cell::new(0) };
}

fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}
#[inline]
fn managed() -> bool {
    ENABLED.load(Relaxed) && TID.with(|t| t.get()) != usize::MAX && !INSIDE.with(|t| t.get())
}

pub struct Exempt;
pub fn exempt() -> Exempt {
    EXEMPT.with(|e| e.set(e.get() + 1));
    Exempt
}
impl Drop for Exempt {
    fn drop(&mut self) {
        EXEMPT.with(|e| e.set(e.get() - 1));
    }
}
fn is_exempt() -> bool {
    EXEMPT.with(|e| e.get() > 0)
}

// ---------------------------------------------------------------- control

pub fn set_clone(c: CloneEmu) {
    CLONE.store(
        match c {
            CloneEmu::Native => 0,
            CloneEmu::Works => 1,
            CloneEmu::Unsupported => 2,
        },
        Relaxed,
    );
}

/// Cloning a foreign file into a values file fails with EXDEV.
pub fn set_exdev(x: bool) {
    EXDEV.store(x, Relaxed);
}

/// Makes the calling thread managed thread 0.
pub fn start(sched: &Sched, seed: u64, deadlock: fn(&str)) {
    let s = Box::new(Sim {
        threads: vec![Box::new(Thr {
            baton: AtomicU32::new(0),
            st: St::Ready,
            timed_out: false,
            pth: unsafe { libc::pthread_self() },
            polls: 0,
        })],
        cur: 0,
        now: 0,
        sched: sched.gaps.clone(),
        pos: 0,
        gap: sched.gaps.first().map(|g| g.0 as u32).unwrap_or(u32::MAX),
        fine: sched.fine,
        fine_rng: sched.fine.map(|f| mix(f.salt as u64 + 77)).unwrap_or(0),
        fine_done: 0,
        spun: 0,
        yields: 0,
        switches: 0,
        preemptions: 0,
        seed,
        rng: seed ^ 0x9e3779b97f4a7c15,
        plan: Plan::default(),
        mut_calls: 0,
        fault_calls: 0,
        faults_fired: 0,
        cut_short: None,
        fault_log: vec![],
        crash_done: false,
        deadlock: Some(deadlock),
        stuck_at: STUCK_NS,
        file_log: std::env::var_os("PV_SYSLOG").is_some(),
        log: vec![],
    });
    unsafe { SIM = Some(s) };
    TID.with(|t| t.set(0));
    FINE_ON.store(sched.fine.is_some(), SeqCst);
    ENABLED.store(true, SeqCst);
}
/// Disables the simulation; must only be called when every other thread is dead, or right before
/// the process exits (others never get the baton again).
pub fn stop() {
    ENABLED.store(false, SeqCst);
}
pub fn set_plan(p: Plan) {
    let s = sim();
    s.plan = p;
    s.cut_short = None;
    s.mut_calls = 0;
    s.fault_calls = 0;
}
pub fn clear_plan() {
    sim().cut_short = None;
    sim().plan = Plan::default();
}
pub fn mut_calls() -> u64 {
    sim().mut_calls
}
pub fn fault_calls() -> u64 {
    sim().fault_calls
}
pub fn faults_fired() -> u64 {
    sim().faults_fired
}
pub fn fault_log() -> Vec<String> {
    sim().fault_log.clone()
}
/// Tells that the calling thread makes progress.
pub fn progress() {
    let s = sim();
    s.stuck_at = s.now.saturating_add(STUCK_NS);
}
pub fn now_ns() -> u64 {
    sim().now
}
/// Wall clock of the case in milliseconds since the epoch.
pub fn now_ms() -> i64 {
    ((REALTIME_BASE + sim().now) / 1_000_000) as i64
}
pub fn advance_ms(ms: u64) {
    sim().now += ms * 1_000_000;
}
pub fn fine_preemptions() -> u64 {
    sim().fine_done
}
pub fn stats() -> (u64, u64, u64, usize) {
    let s = sim();
    (s.yields, s.switches, s.preemptions, s.threads.len())
}
pub fn take_log() -> Vec<String> {
    std::mem::take(&mut sim().log)
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
/// Threads other than the caller that are alive.
pub fn live_others() -> usize {
    let s = sim();
    let me = tid();
    s.threads.iter().enumerate().filter(|(i, t)| *i != me && t.st != St::Dead).count()
}
/// True if no other thread can do anything before someone calls it or `horizon` ns pass.
pub fn others_idle(horizon: u64) -> bool {
    let s = sim();
    let me = tid();
    let lim = s.now.saturating_add(horizon);
    s.threads.iter().enumerate().all(|(i, t)| {
        i == me
            || match t.st {
                St::Dead | St::Join(_) | St::Futex(_, None) => true,
                St::Futex(_, Some(d)) | St::Sleep(d) => d > lim,
                St::Ready => false,
            }
    })
}
pub fn sleep_ns(ns: u64) {
    let s = sim();
    let d = s.now.saturating_add(ns);
    block(St::Sleep(d));
}
/// Gives every other thread time until they are all idle (blocked without a deadline in the next
/// hour) or `rounds` seconds of virtual time have passed. Returns whether they are idle.
pub fn settle(rounds: u32) -> bool {
    for _ in 0..rounds {
        if others_idle(3_600_000_000_000) {
            return true;
        }
        sleep_ns(1_050_000_000);
    }
    others_idle(3_600_000_000_000)
}
/// An explicit yield point for harness code.
pub fn yield_now() {
    if managed() {
        maybe_yield();
    }
}

// ---------------------------------------------------------------- scheduling

fn futex_raw(addr: *const AtomicU32, op: i32, val: u32) -> isize {
    unsafe { syscall6(libc::SYS_futex, addr as usize, (op | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0) }
}
fn give_baton(t: &Thr) {
    t.baton.store(1, SeqCst);
    futex_raw(&t.baton, libc::FUTEX_WAKE, 1);
}
fn take_baton(t: &Thr) {
    while t.baton.compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        futex_raw(&t.baton, libc::FUTEX_WAIT, 0);
    }
}

impl Sim {
    fn expire(&mut self) {
        let now = self.now;
        for t in &mut self.threads {
            match t.st {
                St::Sleep(d) if d <= now => {
                    t.st = St::Ready;
                    t.timed_out = true;
                }
                St::Futex(_, Some(d)) if d <= now => {
                    t.st = St::Ready;
                    t.timed_out = true;
                }
                _ => {}
            }
        }
    }
    /// Chooses the next thread to run; advances the clock if nobody can.
    fn pick(&mut self, exclude_self: bool) -> Option<usize> {
        let me = self.cur;
        loop {
            self.expire();
            let n = self.threads.len();
            let mut c: Vec<usize> = vec![];
            for k in 1..=n {
                let i = (me + k) % n;
                if exclude_self && i == me {
                    continue;
                }
                if self.threads[i].st == St::Ready {
                    c.push(i);
                }
            }
            match c.len() {
                0 => {
                    if exclude_self {
                        return None;
                    }
                    let dl = self
                        .threads
                        .iter()
                        .filter_map(|t| match t.st {
                            St::Sleep(d) | St::Futex(_, Some(d)) => Some(d),
                            _ => None,
                        })
                        .min();
                    match dl {
                        // More than ten years away: nobody will ever run again.
                        Some(d) if d < 10 * 365 * 86_400 * 1_000_000_000 && self.now < self.stuck_at => self.now = self.now.max(d),
                        _ => {
                            let d = self.describe();
                            if let Some(f) = self.deadlock {
                                f(&d)
                            }
                            exit_now(78)
                        }
                    }
                }
                1 => return Some(c[0]),
                n => {
                    let ch = if self.pos < self.sched.len() { self.sched[self.pos].1 as usize } else { 0 };
                    return Some(c[ch % n]);
                }
            }
        }
    }
    fn describe(&self) -> String {
        self.threads.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", t.st)).collect::<Vec<_>>().join(" ")
    }
    fn next_gap(&mut self) {
        self.pos += 1;
        self.gap = self.sched.get(self.pos).map(|g| g.0 as u32).unwrap_or(u32::MAX);
    }
}

fn switch_to(next: usize) {
    let me = tid();
    let s = sim();
    if next == me {
        return;
    }
    s.cur = next;
    s.switches += 1;
    s.spun = 0;
    let mine: *const Thr = &*s.threads[me];
    give_baton(&s.threads[next]);
    take_baton(unsafe { &*mine });
}

/// Blocks the calling thread; returns true if woken by the passage of time.
fn block(st: St) -> bool {
    let s = sim();
    let me = tid();
    s.threads[me].st = st;
    s.threads[me].timed_out = false;
    INSIDE.with(|i| i.set(true));
    let next = s.pick(false).unwrap();
    switch_to(next);
    INSIDE.with(|i| i.set(false));
    let s = sim();
    debug_assert!(s.threads[me].st == St::Ready);
    s.threads[me].timed_out
}

fn maybe_yield() {
    if is_exempt() {
        return;
    }
    if HELD.with(|h| h.get()) > 0 {
        PENDING.with(|p| p.set(true));
        return;
    }
    PENDING.with(|p| p.set(false));
    let s = sim();
    s.yields += 1;
    if s.gap > 0 {
        if s.gap != u32::MAX {
            s.gap -= 1;
        }
        return;
    }
    INSIDE.with(|i| i.set(true));
    let next = s.pick(true);
    s.next_gap();
    if let Some(n) = next {
        s.preemptions += 1;
        switch_to(n);
    }
    INSIDE.with(|i| i.set(false));
}

// ---------------------------------------------------------------- blocks of the code under test

static FINE_ON: AtomicBool = AtomicBool::new(false);
/// One byte per block, shared with the case processes.
static COV: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicU32 = AtomicU32::new(0);

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5851f42d4c957f2d;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// Begins recording which blocks are reached, in this process and those it forks.
pub fn record_blocks() {
    let n = BLOCKS.load(Relaxed) as usize + 1;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    if p != libc::MAP_FAILED {
        COV.store(p as usize, SeqCst);
    }
}
/// Blocks reached, and how many there are.
pub fn blocks() -> (Vec<u32>, u64) {
    let n = BLOCKS.load(Relaxed);
    let p = COV.load(Relaxed);
    if p == 0 {
        return (vec![], n as u64);
    }
    ((1..=n).filter(|i| unsafe { *((p + *i as usize) as *const u8) } != 0).collect(), n as u64)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = BLOCKS.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g;
    let cov = COV.load(Relaxed);
    if cov != 0 {
        *((cov + id as usize) as *mut u8) = 1;
    }
    if FINE_ON.load(Relaxed) {
        fine(id)
    }
}
fn fine(id: u32) {
    if !managed() || is_exempt() || HELD.with(|h| h.get()) > 0 {
        return;
    }
    let s = sim();
    let Some(f) = s.fine else { return };
    // Spinning until another thread has gone on.
    s.spun += 1;
    if s.spun > 5000 {
        s.spun = 0;
        INSIDE.with(|i| i.set(true));
        s.expire();
        let (me, n) = (s.cur, s.threads.len());
        match (1..n).map(|k| (me + k) % n).find(|i| s.threads[*i].st == St::Ready) {
            Some(next) => switch_to(next),
            None => s.now += 1000,
        }
        INSIDE.with(|i| i.set(false));
        return;
    }
    if mix(id as u64 ^ ((f.salt as u64) << 32)) & ((1u64 << f.rate) - 1) != 0 || s.fine_done >= f.most as u64 {
        return;
    }
    INSIDE.with(|i| i.set(true));
    s.expire();
    let me = s.cur;
    let c: Vec<usize> = (0..s.threads.len()).filter(|i| *i != me && s.threads[*i].st == St::Ready).collect();
    if !c.is_empty() {
        s.fine_rng = mix(s.fine_rng);
        // Staying is a choice too, so that a block entered again and again is left at different times.
        let n = c.len() + 1;
        if let Some(n) = c.get(s.fine_rng as usize % n) {
            s.fine_done += 1;
            switch_to(*n);
        }
    }
    INSIDE.with(|i| i.set(false));
}

// ---------------------------------------------------------------- files

pub const K_OTHER: u8 = 0;
pub const K_VALUES: u8 = 1;
pub const K_DB: u8 = 2;
pub const K_SHM: u8 = 3;
pub const K_DIRENT: u8 = 4;
const NFD: usize = 65536;
static KIND: [AtomicU8; NFD] = [const { AtomicU8::new(0) }; NFD];

fn kind(fd: c_int) -> u8 {
    if fd >= 0 && (fd as usize) < NFD {
        KIND[fd as usize].load(Relaxed)
    } else {
        0
    }
}
fn set_kind(fd: c_int, k: u8) {
    if fd >= 0 && (fd as usize) < NFD {
        KIND[fd as usize].store(k, Relaxed)
    }
}
unsafe fn path_kind(p: *const c_char) -> u8 {
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    let base = b.rsplit(|c| *c == b'/').next().unwrap_or(b);
    if base.starts_with(b"values-") {
        K_VALUES
    } else if base.starts_with(b"manifest.db-shm") {
        K_SHM
    } else if base.starts_with(b"manifest.db") {
        K_DB
    } else if base.starts_with(b"snapshot-") || base.starts_with(b".clone_test") {
        K_DIRENT
    } else {
        K_OTHER
    }
}

/// What the caller should do at a system call.
enum Act {
    Go,
    Fail(i32),
    Short,
    PartialFail(i32),
    CrashPartial,
}

/// Called before a file operation of a managed thread. `mutating`: changes files.
/// Classes of calls to which faults can be restricted.
fn class(name: &str) -> u32 {
    match name {
        _ if name.contains("write") => 1,
        "read" | "pread" | "lseek" => 2,
        "ftruncate" | "fallocate" | "ficlone" => 4,
        "fcntl_lock" | "flock" => 8,
        _ => 16,
    }
}
fn gate(k: u8, name: &str, mutating: bool, detail: usize) -> Act {
    if !managed() || is_exempt() || k == K_OTHER {
        return Act::Go;
    }
    let s = sim();
    if s.file_log {
        let (n, t) = (s.now, tid());
        let l = format!("{n} t{t} {name} k{k} {detail}\n");
        INSIDE.with(|i| i.set(true));
        write_all(2, l.as_bytes());
        INSIDE.with(|i| i.set(false));
    }
    if mutating {
        if k != K_SHM {
            if s.plan.crash_at == Some(s.mut_calls) {
                if s.plan.crash_partial && name.contains("write") && detail > 1 {
                    return Act::CrashPartial;
                }
                exit_now(99);
            }
            s.mut_calls += 1;
        }
    }
    if k != K_SHM {
        let n = s.fault_calls;
        let (kinds, classes) = (s.plan.fault_mask & 0xffff, s.plan.fault_mask >> 16);
        if (kinds == 0 || kinds & (1 << k) != 0) && (classes == 0 || classes & class(name) != 0) {
            s.fault_calls += 1;
            if let Some((at, f)) = s.plan.fault_at {
                if n >= at && n < at + s.plan.fault_len.max(1) {
                    let act = match f {
                        Some(Fault::Errno(e)) => Act::Fail(e),
                        Some(Fault::Short) if name.contains("write") && detail > 1 => Act::Short,
                        Some(Fault::Partial(e)) if name.contains("write") && detail > 1 => Act::PartialFail(e),
                        Some(Fault::Partial(e)) => Act::Fail(e),
                        _ => Act::Go,
                    };
                    if !matches!(act, Act::Go) {
                        s.faults_fired += 1;
                        INSIDE.with(|i| i.set(true));
                        s.fault_log.push(format!("{name}#{n}(kind {k})"));
                        if s.file_log {
                            write_all(2, b"  FAULT\n");
                        }
                        INSIDE.with(|i| i.set(false));
                        return act;
                    }
                }
            }
        }
    }
    if k == K_VALUES || k == K_DIRENT {
        maybe_yield();
    }
    Act::Go
}

// ---------------------------------------------------------------- interposed: files

unsafe fn do_open(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    let k = if ENABLED.load(Relaxed) { path_kind(path) } else { K_OTHER };
    if k != K_OTHER {
        if let Act::Fail(e) = gate(k, if flags & libc::O_CREAT != 0 { "open_create" } else { "open" }, flags & (libc::O_CREAT | libc::O_TRUNC) != 0, flags as usize) {
            set_errno(e);
            return -1;
        }
    }
    let r = ret(sys(libc::SYS_openat, &[libc::AT_FDCWD as usize, path as usize, flags as usize, mode])) as c_int;
    if r >= 0 {
        set_kind(r, if k == K_DIRENT { K_OTHER } else { k });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let k = kind(fd);
    if k == K_VALUES && managed() {
        let s = sim();
        if s.cut_short.is_some_and(|(f, _)| f == fd) {
            s.cut_short = None;
        }
        maybe_yield();
    }
    set_kind(fd, 0);
    ret(sys(libc::SYS_close, &[fd as usize])) as c_int
}
unsafe fn do_write(name: &str, fd: c_int, buf: *const c_void, n: size_t, off: Option<i64>) -> ssize_t {
    let raw = |n: usize| match off {
        None => ret(sys(libc::SYS_write, &[fd as usize, buf as usize, n])),
        Some(o) => ret(sys(libc::SYS_pwrite64, &[fd as usize, buf as usize, n, o as usize])),
    };
    let act = gate(kind(fd), name, true, n);
    if off.is_none() && kind(fd) != K_OTHER && managed() && !is_exempt() {
        if let Some((f, e)) = std::mem::take(&mut sim().cut_short) {
            if f == fd && !matches!(act, Act::CrashPartial) {
                set_errno(e);
                return -1;
            }
        }
    }
    match act {
        Act::Go => raw(n),
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        Act::Short => raw((n / 2).max(1)),
        Act::PartialFail(e) => {
            // A write at the file's position that fails has written nothing: a disk that fills up cuts one short and
            // fails the next.
            if off.is_none() {
                let r = raw((n / 2).max(1));
                sim().cut_short = Some((fd, e));
                return r;
            }
            raw((n / 2).max(1));
            set_errno(e);
            -1
        }
        Act::CrashPartial => {
            raw((n / 2).max(1));
            exit_now(99)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write("write", fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write("pwrite", fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write("pwrite", fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    match gate(kind(fd), "writev", true, 0) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_writev, &[fd as usize, iov as usize, cnt as usize])),
    }
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match gate(kind(fd), "pread", false, n) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_pread64, &[fd as usize, buf as usize, n, off as usize])),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match gate(kind(fd), "read", false, n) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_read, &[fd as usize, buf as usize, n])),
    }
}
unsafe fn do_lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match gate(kind(fd), "lseek", false, wh as usize) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_lseek, &[fd as usize, off as usize, wh as usize])) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}
unsafe fn do_ftruncate(fd: c_int, len: off64_t) -> c_int {
    match gate(kind(fd), "ftruncate", true, len as usize) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_ftruncate, &[fd as usize, len as usize])) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    do_ftruncate(fd, len)
}
unsafe fn do_fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    match gate(kind(fd), "fallocate", true, len as usize) {
        Act::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => ret(sys(libc::SYS_fallocate, &[fd as usize, mode as usize, off as usize, len as usize])) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    do_fallocate(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    do_fallocate(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Act::Fail(e) = gate(path_kind(p), "unlink", true, 0) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_unlink, &[p as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if let Act::Fail(e) = gate(path_kind(p), "unlinkat", true, 0) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_unlinkat, &[d as usize, p as usize, fl as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if let Act::Fail(e) = gate(path_kind(p), "rmdir", true, 0) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_rmdir, &[p as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    if let Act::Fail(e) = gate(path_kind(p), "mkdir", true, 0) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_mkdir, &[p as usize, m as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Act::Fail(e) = gate(path_kind(b), "rename", true, 0) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_rename, &[a as usize, b as usize])) as c_int
}
unsafe fn do_cfr(fd: c_int, n: size_t) -> Option<i32> {
    match gate(kind(fd), "copy_file_range_write", true, n) {
        Act::Fail(e) => Some(e),
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: u32) -> ssize_t {
    if let Some(e) = do_cfr(o, n) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_copy_file_range, &[i as usize, io as usize, o as usize, oo as usize, n, fl as usize]))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if let Some(e) = do_cfr(o, n) {
        set_errno(e);
        return -1;
    }
    ret(sys(libc::SYS_sendfile, &[o as usize, i as usize, off as usize, n]))
}

const FICLONE: u64 = 0x40049409;

unsafe fn emulate_clone(dst: c_int, src: c_int) -> isize {
    let mut st: libc::stat = std::mem::zeroed();
    if sys(libc::SYS_fstat, &[src as usize, &mut st as *mut _ as usize]) < 0 {
        return -(libc::EBADF as isize);
    }
    // Private descriptors, so the caller's positions stay as they are.
    let sp = format!("/proc/self/fd/{src}\0");
    let s = sys(libc::SYS_openat, &[libc::AT_FDCWD as usize, sp.as_ptr() as usize, libc::O_RDONLY as usize, 0]);
    let s = if s >= 0 { s as usize } else { src as usize };
    let len = st.st_size;
    sys(libc::SYS_ftruncate, &[dst as usize, 0]);
    let mut off: i64 = 0;
    let mut buf = vec![0u8; 1 << 16];
    let mut err = 0;
    while off < len && err == 0 {
        let d = sys(libc::SYS_lseek, &[s, off as usize, libc::SEEK_DATA as usize]);
        if d < 0 {
            break;
        }
        let h = sys(libc::SYS_lseek, &[s, d as usize, libc::SEEK_HOLE as usize]);
        let end = if h < 0 { len } else { (h as i64).min(len) };
        let mut p = d as i64;
        while p < end {
            let want = ((end - p) as usize).min(buf.len());
            let n = sys(libc::SYS_pread64, &[s, buf.as_mut_ptr() as usize, want, p as usize]);
            if n <= 0 {
                break;
            }
            let w = sys(libc::SYS_pwrite64, &[dst as usize, buf.as_ptr() as usize, n as usize, p as usize]);
            if w != n {
                err = if w < 0 { w } else { -(libc::ENOSPC as isize) };
                break;
            }
            p += n as i64;
        }
        off = end;
    }
    sys(libc::SYS_ftruncate, &[dst as usize, len as usize]);
    if s != src as usize {
        sys(libc::SYS_close, &[s]);
    }
    err
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    if req as u32 == FICLONE as u32 {
        let k = kind(fd);
        if let Act::Fail(e) = gate(k, "ficlone", true, 0) {
            set_errno(e);
            return -1;
        }
        match CLONE.load(Relaxed) {
            1 if EXDEV.load(Relaxed) && k == K_VALUES && kind(arg as c_int) == K_OTHER => {
                set_errno(libc::EXDEV);
                return -1;
            }
            1 => return ret(emulate_clone(fd, arg as c_int)) as c_int,
            2 => {
                set_errno(libc::EOPNOTSUPP);
                return -1;
            }
            _ => {}
        }
    }
    ret(sys(libc::SYS_ioctl, &[fd as usize, req as usize, arg])) as c_int
}

const POLL_NS: u64 = 1_000_000;
/// Virtual time after which a blocking lock request that is still refused is a deadlock.
const LOCK_DEADLOCK_NS: u64 = 3_600_000_000_000;

fn lock_poll_wait(started: u64) {
    let s = sim();
    if s.now - started > LOCK_DEADLOCK_NS {
        let d = format!("file lock never granted; {}", s.describe());
        if let Some(f) = s.deadlock {
            f(&d)
        }
        exit_now(78)
    }
    // Back off so that a long wait does not take many steps.
    let waited = s.now - started;
    sleep_ns(POLL_NS.max(waited / 8));
}

unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let k = kind(fd);
    let raw = |cmd: c_int| ret(sys(libc::SYS_fcntl, &[fd as usize, cmd as usize, arg])) as c_int;
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let r = raw(cmd);
            if r >= 0 {
                set_kind(r, k);
            }
            r
        }
        libc::F_SETLK | libc::F_SETLKW | libc::F_OFD_SETLK | libc::F_OFD_SETLKW | libc::F_OFD_GETLK => {
            // Releasing a lock, also down to a shared one, does not fail; SQLite keeps it for good if it seems to, or
            // reports a commit as failed that took place.
            let unlock = k == K_DB && (*(arg as *const libc::flock)).l_type != libc::F_WRLCK as i16;
            if !unlock {
                if let Act::Fail(e) = gate(k, "fcntl_lock", false, cmd as usize) {
                    set_errno(e);
                    return -1;
                }
            }
            if cmd == libc::F_OFD_SETLKW && managed() {
                let started = sim().now;
                loop {
                    let r = raw(libc::F_OFD_SETLK);
                    if r == 0 || (errno() != libc::EAGAIN && errno() != libc::EACCES) {
                        return r;
                    }
                    lock_poll_wait(started);
                }
            }
            let r = raw(cmd);
            if (k == K_SHM || k == K_DB) && managed() {
                let e = errno();
                maybe_yield();
                set_errno(e);
            }
            r
        }
        _ => raw(cmd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if let Act::Fail(e) = gate(kind(fd), "flock", false, op as usize) {
        set_errno(e);
        return -1;
    }
    let raw = |op: c_int| ret(sys(libc::SYS_flock, &[fd as usize, op as usize])) as c_int;
    if managed() && op & libc::LOCK_NB == 0 && op & libc::LOCK_UN == 0 {
        let started = sim().now;
        loop {
            let r = raw(op | libc::LOCK_NB);
            if r == 0 || errno() != libc::EWOULDBLOCK {
                return r;
            }
            lock_poll_wait(started);
        }
    }
    raw(op)
}

// ---------------------------------------------------------------- interposed: time, randomness

unsafe fn ts_ns(t: *const timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        sleep_ns(ts_ns(t));
        return 0;
    }
    ret(sys(libc::SYS_nanosleep, &[t as usize, rem as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, t: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        let ns = ts_ns(t);
        if flags & libc::TIMER_ABSTIME != 0 {
            let base = if clk == libc::CLOCK_REALTIME { REALTIME_BASE } else { MONO_BASE };
            let d = ns.saturating_sub(base);
            if d > sim().now {
                block(St::Sleep(d));
            }
        } else {
            sleep_ns(ns);
        }
        return 0;
    }
    let r = sys(libc::SYS_clock_nanosleep, &[clk as usize, flags as usize, t as usize, rem as usize]);
    (-r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: u32) -> c_int {
    if managed() {
        sleep_ns(us as u64 * 1000);
        return 0;
    }
    let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    ret(sys(libc::SYS_nanosleep, &[&t as *const _ as usize, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if managed() {
        sleep_ns(1000);
        return 0;
    }
    sys(libc::SYS_sched_yield, &[]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, t: *mut timespec) -> c_int {
    if managed() && matches!(clk, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW) {
        let s = sim();
        s.now += 100;
        let base = if matches!(clk, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE) { REALTIME_BASE } else { MONO_BASE };
        let n = base + s.now;
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys(libc::SYS_clock_gettime, &[clk as usize, t as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if managed() {
        let n = REALTIME_BASE + sim().now;
        (*tv).tv_sec = (n / 1_000_000_000) as i64;
        (*tv).tv_usec = (n % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret(sys(libc::SYS_gettimeofday, &[tv as usize, tz as usize])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut tv = timeval { tv_sec: 0, tv_usec: 0 };
    gettimeofday(&mut tv, std::ptr::null_mut());
    if !t.is_null() {
        *t = tv.tv_sec;
    }
    tv.tv_sec
}
unsafe fn fill_random(buf: *mut c_void, n: usize) -> isize {
    if n == 0 || buf.is_null() {
        return 0;
    }
    let s = sim();
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for x in b {
        s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *x = (s.rng >> 33) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if managed() {
        return fill_random(buf, n);
    }
    ret(sys(libc::SYS_getrandom, &[buf as usize, n, fl as usize]))
}

// ---------------------------------------------------------------- interposed: threads

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if managed() {
        if n == libc::SYS_futex {
            return futex(a, b as i32, c as u32, d as *const timespec, f as u32) as i64;
        }
        if n == libc::SYS_getrandom {
            return fill_random(a as *mut c_void, b) as i64;
        }
    }
    ret(syscall6(n, a, b, c, d, e, f)) as i64
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const timespec, _bits: u32) -> isize {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let dl = if ts.is_null() {
                None
            } else {
                let ns = ts_ns(ts);
                Some(if cmd == libc::FUTEX_WAIT {
                    sim().now.saturating_add(ns)
                } else {
                    let base = if op & libc::FUTEX_CLOCK_REALTIME != 0 { REALTIME_BASE } else { MONO_BASE };
                    ns.saturating_sub(base)
                })
            };
            if block(St::Futex(addr, dl)) {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut woken = 0;
            for t in &mut sim().threads {
                if woken >= val as isize {
                    break;
                }
                if let St::Futex(x, _) = t.st {
                    if x == addr {
                        t.st = St::Ready;
                        t.timed_out = false;
                        woken += 1;
                    }
                }
            }
            if woken > 0 {
                maybe_yield();
            }
            woken
        }
        _ => ret(syscall6(libc::SYS_futex, addr, op as usize, val as usize, ts as usize, 0, 0)),
    }
}

static REAL: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
unsafe fn real(i: usize, name: &[u8]) -> usize {
    let p = REAL[i].load(Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    REAL[i].store(p, Relaxed);
    p
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    f: Start,
    arg: *mut c_void,
    tid: usize,
    // The table of threads may move while this thread has not been scheduled yet.
    thr: *const Thr,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    take_baton(unsafe { &*t.thr });
    TID.with(|x| x.set(t.tid));
    let r = (t.f)(t.arg);
    // Thread exit: hand the baton over for good.
    let s = sim();
    INSIDE.with(|i| i.set(true));
    let me = t.tid;
    s.threads[me].st = St::Dead;
    for th in &mut s.threads {
        if th.st == St::Join(me) {
            th.st = St::Ready;
        }
    }
    TID.with(|x| x.set(usize::MAX));
    if ENABLED.load(SeqCst) {
        let n = s.pick(false).unwrap();
        s.cur = n;
        s.switches += 1;
        give_baton(&s.threads[n]);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let rf: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int = std::mem::transmute(real(0, b"pthread_create\0"));
    if !managed() {
        return rf(th, attr, f, arg);
    }
    let s = sim();
    let id = s.threads.len();
    s.threads.push(Box::new(Thr { baton: AtomicU32::new(0), st: St::Ready, timed_out: false, pth: 0, polls: 0 }));
    let t = Box::into_raw(Box::new(Tramp { f, arg, tid: id, thr: &*s.threads[id] }));
    INSIDE.with(|i| i.set(true));
    let r = rf(th, attr, trampoline, t as *mut c_void);
    INSIDE.with(|i| i.set(false));
    if r != 0 {
        s.threads.pop();
        drop(Box::from_raw(t));
        return r;
    }
    s.threads[id].pth = *th;
    let _ = s.threads[id].polls;
    maybe_yield();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let rf: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(real(1, b"pthread_join\0"));
    if managed() {
        let s = sim();
        if let Some(i) = s.threads.iter().rposition(|t| t.pth == th && t.pth != 0) {
            if s.threads[i].st != St::Dead {
                block(St::Join(i));
            }
        }
    }
    rf(th, out)
}
type MutexFn = extern "C" fn(*mut libc::pthread_mutex_t) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut libc::pthread_mutex_t) -> c_int {
    let f: MutexFn = std::mem::transmute(real(2, b"pthread_mutex_lock\0"));
    let r = f(m);
    if r == 0 && managed() {
        HELD.with(|h| h.set(h.get() + 1));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut libc::pthread_mutex_t) -> c_int {
    let f: MutexFn = std::mem::transmute(real(3, b"pthread_mutex_trylock\0"));
    let r = f(m);
    if r == 0 && managed() {
        HELD.with(|h| h.set(h.get() + 1));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut libc::pthread_mutex_t) -> c_int {
    let f: MutexFn = std::mem::transmute(real(4, b"pthread_mutex_unlock\0"));
    let r = f(m);
    if r == 0 && managed() {
        let n = HELD.with(|h| {
            h.set((h.get() - 1).max(0));
            h.get()
        });
        if n == 0 && PENDING.with(|p| p.get()) {
            let e = errno();
            maybe_yield();
            set_errno(e);
        }
    }
    r
}
