//! Evaluates one case in a forked child process, so that crashes, deadlocks, leaked threads and
//! process-wide state of one case never reach another.
use crate::raw;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fail {
    /// A stable class of failure; known findings are keyed on it and the case.
    pub kind: String,
    pub msg: String,
}
pub type R<T> = Result<T, Fail>;
pub fn fail<T>(kind: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $k:expr, $($f:tt)*) => { if !($c) { return $crate::child::fail($k, format!($($f)*)); } };
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub fail: Option<Fail>,
    pub stats: BTreeMap<String, u64>,
    #[serde(default)]
    pub extra: serde_json::Value,
}
impl Outcome {
    pub fn bump(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_default() += n;
        }
    }
}

pub enum ChildEnd {
    Done(Outcome),
    /// Ended without a result: (description, killed by a memory or abort signal)
    Died(String, Option<i32>),
    Exited(i32),
    Timeout,
}

static RESULT_FD: AtomicI32 = AtomicI32::new(-1);
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static SEQ: AtomicU64 = AtomicU64::new(0);

pub fn send_outcome(o: &Outcome) {
    let b = serde_json::to_vec(o).unwrap();
    raw::write_all(RESULT_FD.load(SeqCst), &b);
}

/// Called by the simulator when no thread can ever run again.
pub fn on_deadlock(desc: &str) {
    let o = Outcome { fail: Some(Fail { kind: "deadlock".into(), msg: desc.into() }), ..Default::default() };
    send_outcome(&o);
    raw::exit_now(0);
}

pub fn scratch_base() -> PathBuf {
    static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    BASE.get_or_init(|| std::env::var_os("PV_SCRATCH").map(PathBuf::from).expect("PV_SCRATCH")).clone()
}
/// A fresh scratch directory path for one case (created).
pub fn fresh_dir() -> PathBuf {
    let d = scratch_base().join(format!("{}-{}", std::process::id(), SEQ.fetch_add(1, Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn remove_dir(d: &Path) {
    assert!(d.starts_with(scratch_base()) && d != scratch_base());
    let _ = std::fs::remove_dir_all(d);
}

/// What a case panics with on purpose.
pub struct Expected;

pub fn panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Expected>() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let msg = msg.split("Stack backtrace").next().unwrap_or("").trim_end().to_string();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let th = crate::sim::tid();
        if std::env::var_os("PV_BT").is_some() {
            eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push(format!("thread {th}: {msg} at {loc}"));
        }
    }));
}

pub fn fork_run(timeout_s: u64, f: impl FnOnce() -> Outcome) -> ChildEnd {
    fork_run_with(timeout_s, f, || ()).0
}
/// `meanwhile` runs in this process while the child runs.
pub fn fork_run_with<X>(timeout_s: u64, f: impl FnOnce() -> Outcome, meanwhile: impl FnOnce() -> X) -> (ChildEnd, X) {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        RESULT_FD.store(fds[1], SeqCst);
        if std::env::var_os("PV_BT").is_none() && std::env::var_os("PV_SYSLOG").is_none() {
            let to = match std::env::var("PV_ERRDIR") {
                Ok(d) => std::ffi::CString::new(format!("{d}/{}", std::process::id())).unwrap(),
                Err(_) => c"/dev/null".into(),
            };
            let n = unsafe { raw::sys(libc::SYS_openat, &[libc::AT_FDCWD as usize, to.as_ptr() as usize, (libc::O_WRONLY | libc::O_CREAT) as usize, 0o600]) };
            if n >= 0 {
                unsafe { libc::dup2(n as i32, 2) };
            }
        }
        panic_hook();
        // A thread of its own has generators of random numbers that nobody has used yet.
        struct Here<T>(T);
        unsafe impl<T> Send for Here<T> {}
        let f = Here(f);
        let body = move || {
            let f = f;
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.0)) {
                Ok(o) => o,
                Err(_) => {
                    let msg = PANICS.lock().map(|p| p.join(" | ")).unwrap_or_default();
                    Outcome { fail: Some(Fail { kind: "panic".into(), msg }), ..Default::default() }
                }
            };
            send_outcome(&o);
            raw::exit_now(0);
        };
        let t = unsafe { std::thread::Builder::new().stack_size(16 << 20).spawn_unchecked(body) };
        let _ = t.expect("a thread for the case").join();
        raw::exit_now(96);
    }
    unsafe { libc::close(fds[1]) };
    let x = meanwhile();
    (child_end(timeout_s, pid, fds[0]), x)
}
fn child_end(timeout_s: u64, pid: i32, fd: i32) -> ChildEnd {
    let mut file = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut buf = vec![];
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(timeout_s);
    let mut timed_out = false;
    loop {
        let left = deadline.saturating_duration_since(std::time::Instant::now());
        let mut p = libc::pollfd { fd: fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, left.as_millis() as i32) };
        if n == 0 {
            timed_out = true;
            break;
        }
        if n < 0 {
            continue;
        }
        let mut chunk = [0u8; 65536];
        match file.read(&mut chunk) {
            Ok(0) => break,
            Ok(k) => buf.extend_from_slice(&chunk[..k]),
            Err(_) => break,
        }
    }
    if timed_out {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if let (Ok(d), false) = (std::env::var("PV_ERRDIR"), libc::WIFSIGNALED(st)) {
        let _ = std::fs::remove_file(format!("{d}/{pid}"));
    } else if let Ok(d) = std::env::var("PV_ERRDIR") {
        let _ = std::fs::rename(format!("{d}/{pid}"), format!("{d}/{pid}-signal"));
    }
    if timed_out {
        return ChildEnd::Timeout;
    }
    if let Ok(o) = serde_json::from_slice::<Outcome>(&buf) {
        return ChildEnd::Done(o);
    }
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        return ChildEnd::Died(format!("killed by signal {s}"), Some(s));
    }
    ChildEnd::Exited(libc::WEXITSTATUS(st))
}
