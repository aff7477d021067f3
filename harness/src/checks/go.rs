//! C22: the Go binding, driven in a process of its own (/verif/go), compared with a model after every operation;
//! operations of several goroutines must be explained by some order of them.
use super::conc::{linearize, Event, Seen, State};
use super::*;
use crate::check;
use crate::data::{self, *};
use crate::engine::to_ops as ok;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant, SystemTime};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Go {
    Open,
    Close { h: u8 },
    Put { h: u8, k: u8, size: u32, nil: bool },
    /// the resource provider's Put, from a source that gives so much at once and perhaps fails in the end
    Feed { h: u8, k: u8, size: u32, chunk: u16, fail: bool },
    Del { h: u8, k: u8, prov: bool },
    Stat { h: u8, k: u8, prov: bool },
    ReadAt { h: u8, k: u8, off: Off, len: Len, prov: bool, nil: bool },
    List { h: u8, p: Pfx, prov: bool },
    Get { h: u8, k: u8, chunk: u16 },
    Reader { h: u8, ks: Vec<u8>, list: Option<Pfx>, hold: bool, abort: bool },
    RRead { r: u8, i: u8, off: Off, len: Len },
    REnd { r: u8 },
    WNew { h: u8 },
    /// in two parts; each through a file that's closed then
    WPut { w: u8, k: u8, size: u32, chunk: u16, two: bool, close: bool },
    WRename { w: u8, r: u8, i: u8, k: u8 },
    WCommit { w: u8 },
    MovePrefix { h: u8, p: Pfx, q: Pfx },
    DelPrefix { h: u8, p: Pfx, prov: bool },
    Limits { h: u8, max: Option<u32> },
    Cleanup { h: u8 },
    Par { threads: Vec<Vec<Go>> },
}
/// Where to read, relative to the value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Off {
    At(u32),
    FromEnd(i32),
    Far(i64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Len {
    Exactly(u32),
    /// so much more than there is
    Rest(i32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct GCase {
    keys: Vec<Vec<u8>>,
    /// hole punching is disabled on every handle
    nopunch: bool,
    ops: Vec<Go>,
}

// ---------------------------------------------------------------- the process

#[derive(Clone, Debug, Default, Deserialize)]
#[serde(rename_all = "PascalCase", default)]
struct Stat {
    name: String,
    size: i64,
    time: i64,
}
#[derive(Clone, Debug, Default, Deserialize)]
#[serde(rename_all = "PascalCase", default)]
struct Val {
    err: String,
    stat: Option<Stat>,
    hex: String,
    bad: String,
}
#[derive(Clone, Debug, Default, Deserialize)]
#[serde(rename_all = "PascalCase", default)]
struct Resp {
    err: String,
    n: i64,
    hex: String,
    ok: bool,
    stat: Option<Stat>,
    keys: Option<Vec<String>>,
    items: Option<Vec<Stat>>,
    vals: Option<Vec<Val>>,
    id: usize,
    start: u64,
    end: u64,
    par: Option<Vec<Option<Vec<Resp>>>>,
}
struct Proc {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
    buf: Vec<u8>,
    err: PathBuf,
    cases: u32,
}
thread_local! {
    static PROC: RefCell<Option<Proc>> = const { RefCell::new(None) };
    static HUNG: RefCell<bool> = const { RefCell::new(false) };
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.err);
    }
}
enum Trouble {
    /// the binding's fault
    Fail(Fail),
    /// no answer
    Error(String),
}
impl From<Fail> for Trouble {
    fn from(f: Fail) -> Self {
        Trouble::Fail(f)
    }
}
type G<T> = Result<T, Trouble>;

fn start() -> Result<Proc, String> {
    let exe = std::env::var_os("PV_GO").ok_or("PV_GO is not set")?;
    let err = scratch_base().join(format!("go-stderr-{}", std::process::id()));
    let e = std::fs::File::create(&err).map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(e);
    c.env("GORACE", "halt_on_error=1 exitcode=66").env("GOMAXPROCS", "3").env_remove("POSSUM_EMULATE_FREEBSD").env_remove("RUST_LOG");
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("starting the Go process: {e}"))?;
    let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Ok(Proc { child, to, from, buf: vec![], err, cases: 0 })
}
impl Proc {
    fn call(&mut self, q: &serde_json::Value) -> G<Resp> {
        let mut b = serde_json::to_vec(q).unwrap();
        b.push(b'\n');
        if self.to.write_all(&b).is_err() {
            return Err(self.died(q));
        }
        let limit = Duration::from_secs(if HUNG.with(|h| *h.borrow()) { 6 } else { 40 });
        let began = Instant::now();
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.buf.drain(..=i).collect();
                return serde_json::from_slice(&l).map_err(|e| Trouble::Error(format!("from the Go process: {e}")));
            }
            let left = limit.saturating_sub(began.elapsed());
            if left.is_zero() {
                HUNG.with(|h| *h.borrow_mut() = true);
                return Err(Trouble::Fail(Fail { kind: "hang".into(), msg: format!("{} has not returned after {limit:?}", q["Op"]) }));
            }
            let fd = self.from.as_raw_fd();
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, left.as_millis() as i32 + 1) } <= 0 {
                continue;
            }
            let mut c = [0u8; 65536];
            match unsafe { libc::read(fd, c.as_mut_ptr().cast(), c.len()) } {
                n if n > 0 => self.buf.extend_from_slice(&c[..n as usize]),
                _ => return Err(self.died(q)),
            }
        }
    }
    /// Something in a directory that the process has open.
    fn open_in(&self, dir: &Path) -> Option<String> {
        let fds = std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).ok()?;
        fds.flatten().filter_map(|f| std::fs::read_link(f.path()).ok()).find(|f| f.starts_with(dir)).map(|f| f.display().to_string())
    }
    fn died(&mut self, q: &serde_json::Value) -> Trouble {
        use std::os::unix::process::ExitStatusExt;
        let st = self.child.wait();
        let log = std::fs::read(&self.err).unwrap_or_default();
        let log = String::from_utf8_lossy(&log).lines().filter(|l| !l.trim().is_empty()).take(30).collect::<Vec<_>>().join(" | ");
        let st = match st {
            Ok(s) => s,
            Err(e) => return Trouble::Error(e.to_string()),
        };
        if st.signal() == Some(libc::SIGKILL) {
            return Trouble::Error("the Go process was killed".into());
        }
        let kind = if st.code() == Some(66) { "race" } else { "crash" };
        Trouble::Fail(Fail { kind: kind.into(), msg: format!("the process ended ({st}) during {}: {log}", q["Op"]) })
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone)]
struct MVal {
    b: Rc<Vec<u8>>,
    vid: u64,
    /// not used before this (ms)
    since: i64,
}
struct MHandle {
    id: usize,
    open: bool,
    limit: Option<u64>,
}
struct MReader {
    id: usize,
    vals: Vec<Option<MVal>>,
    open: bool,
}
struct MWriter {
    id: usize,
    h: usize,
    puts: Vec<(Vec<u8>, Rc<Vec<u8>>)>,
    renames: Vec<(u64, Vec<u8>)>,
    open: bool,
}
struct W<'a> {
    p: &'a mut Proc,
    dir: PathBuf,
    keys: &'a [Vec<u8>],
    nopunch: bool,
    m: BTreeMap<Vec<u8>, MVal>,
    hs: Vec<MHandle>,
    rs: Vec<MReader>,
    ws: Vec<MWriter>,
    tag: u64,
    vid: u64,
    o: Outcome,
}

fn now() -> i64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis() as i64
}
fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn same(got: &[u8], want: &[u8], what: &str) -> R<()> {
    check!(got == want, "content", "{what}: {}", diff(got, want));
    Ok(())
}

impl W<'_> {
    fn bump(&mut self, k: &str) {
        self.o.bump(k, 1)
    }
    fn key(&self, k: u8) -> Vec<u8> {
        self.keys[k as usize % self.keys.len()].clone()
    }
    fn pfx(&self, p: &Pfx) -> Vec<u8> {
        let k = self.key(p.k);
        let mut v = k[..(p.len as usize).min(k.len())].to_vec();
        v.extend(p.extra);
        v
    }
    /// Usually an open one.
    fn h(&self, h: u8) -> usize {
        let open: Vec<usize> = (0..self.hs.len()).filter(|i| self.hs[*i].open).collect();
        if h < 225 && !open.is_empty() {
            open[h as usize % open.len()]
        } else {
            h as usize % self.hs.len()
        }
    }
    fn fresh(&mut self, size: u32) -> (Rc<Vec<u8>>, u64) {
        self.tag += 1;
        (data::content(self.tag, size as usize), self.tag)
    }
    fn put(&mut self, k: Vec<u8>, b: Rc<Vec<u8>>, since: i64) {
        self.vid += 1;
        self.m.insert(k, MVal { b, vid: self.vid, since });
    }
    fn stat(&self, s: Option<&Stat>, k: &[u8], v: &MVal) -> R<()> {
        let Some(s) = s else { return fail("stat", format!("no stat of {}", show(k))) };
        check!(s.size == v.b.len() as i64, "wrong-length", "the size of {} is {}, want {}", show(k), s.size, v.b.len());
        check!(hex(&s.name) == k, "name", "the name of {} is {}", show(k), show(&hex(&s.name)));
        let n = now();
        check!(s.time >= v.since - 1 && s.time <= n + 1, "last-used", "{}: last used at {}, written at {}, now {n}", show(k), s.time, v.since);
        Ok(())
    }
    /// What io.ReaderAt demands.
    fn read(&self, r: &Resp, v: &[u8], off: i64, len: usize, what: &str) -> R<()> {
        let from = if off < 0 { v.len() } else { (off as u64).min(v.len() as u64) as usize };
        let want = &v[from..from.saturating_add(len).min(v.len())];
        check!(r.n >= 0 && r.n as usize <= len, "read-at", "{what}: returned {} for a buffer of {len}", r.n);
        let eof = r.err == "eof";
        check!(r.err.is_empty() || eof, "op-error", "{what}: {}", r.err);
        check!(r.n as usize == want.len(), "read-at", "{what}: read {} bytes at {off} of {} into {len}, want {}", r.n, v.len(), want.len());
        same(&hex(&r.hex), want, what)?;
        check!(r.n as usize == len || eof, "read-at", "{what}: {} bytes of {len} were read at {off} of {}, without an error", r.n, v.len());
        check!(!eof || off < 0 || off as u64 + want.len() as u64 >= v.len() as u64, "read-at", "{what}: end of file at {off}+{len} of {}", v.len());
        Ok(())
    }
    fn range(&self, off: Off, len: Len, n: usize) -> (i64, usize) {
        let off = match off {
            Off::At(x) => x as i64,
            Off::FromEnd(d) => (n as i64 + d as i64).max(0),
            Off::Far(x) => x,
        };
        let rest = (n as i64 - off.clamp(0, n as i64)).max(0);
        let len = match len {
            Len::Exactly(n) => n as usize,
            Len::Rest(d) => (rest + d as i64).max(0) as usize,
        };
        (off, len)
    }
    /// An operation on a handle: its result, or None if the handle is closed and it was told so.
    fn on(&mut self, h: usize, q: serde_json::Value) -> G<Option<Resp>> {
        let mut q = q;
        q["H"] = json!(self.hs[h].id);
        let r = self.p.call(&q)?;
        if !self.hs[h].open {
            if r.err != "closed" {
                fail("closed", format!("{} on a closed handle: {:?}", q["Op"], r.err))?
            }
            self.bump("on-closed-handles");
            return Ok(None);
        }
        Ok(Some(r))
    }
    /// What an operation that commits on a handle with a limit may have evicted.
    fn evict(&mut self, h: usize, wrote: u64) -> G<()> {
        let Some(max) = self.hs[h].limit else { return Ok(()) };
        let r = self.p.call(&json!({"Op": "list", "H": self.hs[h].id, "K": []}))?;
        check_ok(&r, "list")?;
        let left: Vec<Vec<u8>> = r.keys.unwrap_or_default().iter().map(|k| hex(k)).collect();
        let before: u64 = self.m.values().map(|v| v.b.len() as u64).sum();
        for k in &left {
            if !self.m.contains_key(k) {
                fail("extra-key", format!("{} is listed", show(k)))?
            }
        }
        let gone = self.m.len() - left.len();
        self.m.retain(|k, _| left.contains(k));
        let after: u64 = self.m.values().map(|v| v.b.len() as u64).sum();
        if before <= max && gone > 0 {
            fail("evicted", format!("{gone} values were evicted although all are {before} bytes and the limit is {max}"))?
        }
        if after > max && (wrote > 0 || gone > 0) {
            fail("limit", format!("{after} bytes are left after a write, the limit is {max}"))?
        }
        if gone > 0 {
            self.bump("evictions");
        }
        Ok(())
    }
    fn any_limit(&self) -> bool {
        self.hs.iter().any(|h| h.limit.is_some())
    }
    fn finish_writer(&mut self, w: usize) -> G<()> {
        let t0 = now();
        let r = self.p.call(&json!({"Op": "wcommit", "W": self.ws[w].id}))?;
        check_ok(&r, "Writer.Commit")?;
        self.ws[w].open = false;
        let mut wrote = 0;
        for (k, b) in std::mem::take(&mut self.ws[w].puts) {
            wrote += b.len() as u64;
            self.put(k, b, t0);
        }
        for (vid, to) in std::mem::take(&mut self.ws[w].renames) {
            if let Some(from) = self.m.iter().find(|(_, v)| v.vid == vid).map(|(k, _)| k.clone()) {
                let v = self.m.remove(&from).unwrap();
                self.m.insert(to, v);
                self.bump("renames");
            }
        }
        self.bump("batches");
        let h = self.ws[w].h;
        if self.hs[h].open {
            self.evict(h, wrote)?;
        } else if self.hs[h].limit.is_some() {
            // Looks through another handle.
            let i = self.hs.len();
            self.open()?;
            self.hs[i].limit = self.hs[h].limit;
            self.evict(i, wrote)?;
            self.hs[i].limit = None;
        }
        Ok(())
    }
    fn open(&mut self) -> G<()> {
        let r = self.p.call(&json!({"Op": "open", "Dir": self.dir}))?;
        check_ok(&r, "Open")?;
        self.hs.push(MHandle { id: r.id, open: true, limit: None });
        if self.nopunch {
            let r = self.p.call(&json!({"Op": "limits", "H": r.id, "Flag": true}))?;
            check_ok(&r, "SetInstanceLimits")?;
        }
        Ok(())
    }
    fn names(&self, r: &Resp, p: &[u8], what: &str) -> R<()> {
        let mut got: Vec<Vec<u8>> = r.keys.iter().flatten().map(|k| hex(k)).collect();
        got.sort();
        let want: Vec<Vec<u8>> = self.m.keys().filter(|k| k.starts_with(p)).map(|k| k[p.len()..].to_vec()).collect();
        check!(got == want, "prefix-list", "{what}({}) = {got:?}, want {want:?}", show(p));
        Ok(())
    }

    fn step(&mut self, op: &Go) -> G<()> {
        self.act(op)?;
        // Whatever uses a handle may enforce its limit; what wrote is judged where it's done.
        let (Go::Del { h, .. }
        | Go::Feed { h, .. }
        | Go::Stat { h, .. }
        | Go::ReadAt { h, .. }
        | Go::List { h, .. }
        | Go::Get { h, .. }
        | Go::Reader { h, .. }
        | Go::MovePrefix { h, .. }
        | Go::DelPrefix { h, .. }
        | Go::Cleanup { h }
        | Go::Limits { h, .. }) = op
        else {
            return Ok(());
        };
        // (A closed handle isn't chosen differently afterwards: these don't close any.)
        let h = self.h(*h);
        if self.hs[h].open {
            self.evict(h, 0)?;
        }
        Ok(())
    }
    fn act(&mut self, op: &Go) -> G<()> {
        let t0 = now();
        match op {
            Go::Open => {
                if self.hs.iter().filter(|h| h.open).count() < 3 {
                    self.open()?;
                }
            }
            Go::Close { h } => {
                let h = self.h(*h);
                let r = self.p.call(&json!({"Op": "close", "H": self.hs[h].id}))?;
                check_ok(&r, "Close")?;
                if self.hs[h].open {
                    self.bump("closed");
                }
                self.hs[h].open = false;
            }
            Go::Put { h, k, size, nil } => {
                let (h, k) = (self.h(*h), self.key(*k));
                let (b, tag) = self.fresh(*size);
                if let Some(r) = self.on(h, json!({"Op": "put", "K": k, "Tag": tag, "Size": size, "Nil": nil}))? {
                    check_ok(&r, "PutBuf")?;
                    self.put(k, b, t0);
                    self.bump("puts");
                    self.evict(h, *size as u64)?;
                }
            }
            Go::Feed { h, k, size, chunk, fail: f } => {
                let (h, k) = (self.h(*h), self.key(*k));
                let (b, tag) = self.fresh(*size);
                if let Some(r) = self.on(h, json!({"Op": "provput", "K": k, "Tag": tag, "Size": size, "Chunk": chunk, "Fail": f}))? {
                    if *f {
                        if r.err != "injected" {
                            fail("put-error", format!("Put from a failing source returned {:?}", r.err))?
                        }
                        self.bump("failed-puts");
                    } else {
                        check_ok(&r, "Put")?;
                        self.put(k, b, t0);
                        self.bump("puts");
                        self.evict(h, *size as u64)?;
                    }
                }
            }
            Go::Del { h, k, prov } => {
                let (h, k) = (self.h(*h), self.key(*k));
                if let Some(r) = self.on(h, json!({"Op": "del", "K": k, "Prov": prov}))? {
                    match self.m.remove(&k) {
                        None if *prov => {
                            if r.err != "notexist" {
                                fail("no-such-key", format!("Delete of a missing key returned {:?}", r.err))?
                            }
                        }
                        None => {
                            check_ok(&r, "SingleDelete")?;
                            if r.ok {
                                fail("deleted", format!("{} was deleted, but there was none", show(&k)))?
                            }
                        }
                        Some(v) => {
                            check_ok(&r, "SingleDelete")?;
                            if !prov {
                                if !r.ok {
                                    fail("lost-key", format!("there was no {} to delete", show(&k)))?
                                }
                                self.stat(r.stat.as_ref(), &k, &v)?;
                            }
                            self.bump("deletes");
                        }
                    }
                }
            }
            Go::Stat { h, k, prov } => {
                let (h, k) = (self.h(*h), self.key(*k));
                let r = self.p.call(&json!({"Op": "stat", "H": self.hs[h].id, "K": k, "Prov": prov}))?;
                let v = self.m.get(&k).filter(|_| self.hs[h].open);
                if *prov && v.is_none() != (r.err == "notexist") {
                    fail("no-such-key", format!("Stat of {} (there: {}) returned {:?}", show(&k), v.is_some(), r.err))?
                }
                if v.is_some() != r.ok {
                    fail("stat", format!("Stat of {} (there: {}): {}", show(&k), v.is_some(), r.ok))?
                }
                if let Some(v) = v {
                    self.stat(r.stat.as_ref(), &k, v)?;
                }
            }
            Go::ReadAt { h, k, off, len, prov, nil } => {
                let (h, k) = (self.h(*h), self.key(*k));
                let v = self.m.get(&k).cloned();
                let (off, len) = self.range(*off, *len, v.as_ref().map(|v| v.b.len()).unwrap_or(0));
                if let Some(r) = self.on(h, json!({"Op": "readat", "K": k, "Off": off, "Len": len, "Prov": prov, "Nil": nil}))? {
                    match v {
                        None => {
                            if r.n != 0 {
                                fail("read-at", format!("reading a missing key returned {} bytes with {:?}", r.n, r.err))?
                            }
                            if r.err != "notexist" {
                                fail("no-such-key", format!("reading a missing key returned {:?}", r.err))?
                            }
                            self.bump("reads-of-missing");
                        }
                        Some(v) => {
                            self.read(&r, &v.b, off, len, "SingleReadAt")?;
                            if r.n > 0 && (r.n as usize) < v.b.len() {
                                self.bump("partial-reads");
                            }
                            self.bump("reads");
                        }
                    }
                }
            }
            Go::List { h, p, prov } => {
                let (h, p) = (self.h(*h), self.pfx(p));
                if let Some(r) = self.on(h, json!({"Op": "list", "K": p, "Prov": prov}))? {
                    check_ok(&r, "ListKeys")?;
                    let p = if *prov { [&p[..], b"/"].concat() } else { p };
                    self.names(&r, &p, "ListKeys")?;
                    if r.keys.is_some_and(|l| !l.is_empty() && l.len() < self.m.len()) {
                        self.bump("partial-lists");
                    }
                }
            }
            Go::Get { h, k, chunk } => {
                let (h, k) = (self.h(*h), self.key(*k));
                if let Some(r) = self.on(h, json!({"Op": "get", "K": k, "Chunk": (*chunk).max(64)}))? {
                    match self.m.get(&k) {
                        None if r.err == "notexist" => {}
                        None => fail("no-such-key", format!("Get of a missing key returned {:?}", r.err))?,
                        Some(v) => {
                            check_ok(&r, "Get")?;
                            same(&hex(&r.hex), &v.b, "Get")?;
                            self.bump("gets");
                        }
                    }
                }
            }
            Go::Reader { h, ks, list, hold, abort } => {
                let h = self.h(*h);
                let ks: Vec<Vec<u8>> = ks.iter().map(|k| self.key(*k)).collect();
                let p = list.as_ref().map(|p| self.pfx(p));
                let q = json!({"Op": "reader", "Ks": ks, "K": p.clone().unwrap_or_default(), "Prov": p.is_some(), "Flag": hold, "Fail": abort});
                if let Some(r) = self.on(h, q)? {
                    check_ok(&r, "Reader")?;
                    if let Some(p) = p {
                        let mut items = r.items.unwrap_or_default();
                        items.sort_by_key(|i| hex(&i.name));
                        let want: Vec<_> = self.m.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_vec(), v.b.len() as i64)).collect();
                        let got: Vec<_> = items.iter().map(|i| (hex(&i.name), i.size)).collect();
                        if got != want {
                            fail("prefix-list", format!("Reader.ListItems({}) = {got:?}, want {want:?}", show(&p)))?
                        }
                        for i in &items {
                            let k = [&p[..], &hex(&i.name)].concat();
                            let v = &self.m[&k];
                            let n = now();
                            if i.time < v.since - 1 || i.time > n + 1 {
                                fail("last-used", format!("{}: listed as last used at {}, written at {}, now {n}", show(&k), i.time, v.since))?
                            }
                        }
                    }
                    let vals = r.vals.unwrap_or_default();
                    if vals.len() != ks.len() {
                        return Err(Trouble::Error("the Go process answered something else".into()));
                    }
                    let mut held = vec![];
                    for (k, x) in ks.iter().zip(&vals) {
                        match self.m.get(k) {
                            None => {
                                if x.err != "notexist" {
                                    fail("no-such-key", format!("Reader.Add of a missing key returned {:?}", x.err))?
                                }
                                held.push(None);
                            }
                            Some(v) => {
                                if !x.err.is_empty() || !x.bad.is_empty() {
                                    fail("op-error", format!("reader value {}: {} {}", show(k), x.err, x.bad))?
                                }
                                self.stat(x.stat.as_ref(), k, v)?;
                                if !abort {
                                    same(&hex(&x.hex), &v.b, "Value.ReadAt")?;
                                }
                                held.push(Some(v.clone()));
                            }
                        }
                    }
                    self.bump("readers");
                    if *hold && !abort {
                        self.rs.push(MReader { id: r.id, vals: held, open: true });
                    }
                }
            }
            Go::RRead { r, i, off, len } => {
                let open: Vec<usize> = (0..self.rs.len()).filter(|x| self.rs[*x].open).collect();
                if open.is_empty() {
                    return Ok(());
                }
                let r = open[*r as usize % open.len()];
                let there: Vec<usize> = (0..self.rs[r].vals.len()).filter(|i| self.rs[r].vals[*i].is_some()).collect();
                if there.is_empty() {
                    return Ok(());
                }
                let i = there[*i as usize % there.len()];
                let v = self.rs[r].vals[i].clone().unwrap();
                let (off, len) = self.range(*off, *len, v.b.len());
                let x = self.p.call(&json!({"Op": "rread", "R": self.rs[r].id, "I": i, "Off": off, "Len": len}))?;
                self.read(&x, &v.b, off, len, "Value.ReadAt")?;
                self.bump("held-reads");
                if !self.m.values().any(|m| m.vid == v.vid) {
                    self.bump("held-reads-of-gone");
                }
            }
            Go::REnd { r } => {
                let open: Vec<usize> = (0..self.rs.len()).filter(|x| self.rs[*x].open).collect();
                if !open.is_empty() {
                    let r = open[*r as usize % open.len()];
                    let x = self.p.call(&json!({"Op": "rend", "R": self.rs[r].id}))?;
                    check_ok(&x, "Reader.End")?;
                    self.rs[r].open = false;
                }
            }
            Go::WNew { h } => {
                let h = self.h(*h);
                if self.ws.iter().filter(|w| w.open).count() < 3 {
                    if let Some(r) = self.on(h, json!({"Op": "wnew"}))? {
                        check_ok(&r, "NewWriter")?;
                        self.ws.push(MWriter { id: r.id, h, puts: vec![], renames: vec![], open: true });
                    }
                }
            }
            Go::WPut { w, k, size, chunk, two, close } => {
                let k = self.key(*k);
                let open: Vec<usize> = (0..self.ws.len()).filter(|x| self.ws[*x].open).collect();
                if !open.is_empty() {
                    let w = open[*w as usize % open.len()];
                    let (b, tag) = self.fresh(*size);
                    let r = self.p.call(&json!({"Op": "wput", "W": self.ws[w].id, "K": k, "Tag": tag, "Size": size, "Chunk": chunk, "Flag": two, "Close": close}))?;
                    check_ok(&r, "writing a value")?;
                    self.ws[w].puts.push((k, b));
                }
            }
            Go::WRename { w, r, i, k } => {
                let k = self.key(*k);
                let ws: Vec<usize> = (0..self.ws.len()).filter(|x| self.ws[*x].open).collect();
                let vs: Vec<(usize, usize)> = (0..self.rs.len())
                    .filter(|r| self.rs[*r].open)
                    .flat_map(|r| (0..self.rs[r].vals.len()).map(move |i| (r, i)))
                    // Renaming an empty value is a known finding of C09.
                    .filter(|(r, i)| self.rs[*r].vals[*i].as_ref().is_some_and(|v| !v.b.is_empty()))
                    .collect();
                if !ws.is_empty() && !vs.is_empty() {
                    let w = ws[*w as usize % ws.len()];
                    let (r, i) = vs[(*r as usize + *i as usize * 7) % vs.len()];
                    let x = self.p.call(&json!({"Op": "wrename", "W": self.ws[w].id, "R": self.rs[r].id, "I": i, "K": k}))?;
                    check_ok(&x, "Rename")?;
                    let vid = self.rs[r].vals[i].as_ref().unwrap().vid;
                    self.ws[w].renames.push((vid, k));
                }
            }
            Go::WCommit { w } => {
                let open: Vec<usize> = (0..self.ws.len()).filter(|x| self.ws[*x].open).collect();
                if !open.is_empty() {
                    self.finish_writer(open[*w as usize % open.len()])?;
                }
            }
            Go::MovePrefix { h, p, q } => {
                let (h, p, q) = (self.h(*h), self.pfx(p), self.pfx(q));
                if let Some(r) = self.on(h, json!({"Op": "movepfx", "K": p, "Q": q}))? {
                    let moved: Vec<Vec<u8>> = self.m.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                    let dst = |k: &[u8]| [&q[..], &k[p.len()..]].concat();
                    let hit = |k: &Vec<u8>| {
                        let d = dst(k);
                        (d != *k && self.m.contains_key(&d)).then_some(d)
                    };
                    if r.err.is_empty() {
                        if let Some(d) = moved.iter().filter_map(hit).find(|d| !d.starts_with(&p)) {
                            fail("move-prefix", format!("MovePrefix({}, {}) replaced {}", show(&p), show(&q), show(&d)))?
                        }
                        let taken: Vec<_> = moved.iter().map(|k| (dst(k), self.m.remove(k).unwrap())).collect();
                        if !taken.is_empty() {
                            self.bump("prefix-moves");
                        }
                        self.m.extend(taken);
                    } else if r.err.starts_with("other") && moved.iter().any(|k| hit(k).is_some()) {
                        self.bump("prefix-moves-refused");
                    } else {
                        fail("op-error", format!("MovePrefix({}, {}): {}", show(&p), show(&q), r.err))?
                    }
                }
            }
            Go::DelPrefix { h, p, prov } => {
                let (h, p) = (self.h(*h), self.pfx(p));
                if let Some(r) = self.on(h, json!({"Op": "delpfx", "K": p, "Prov": prov}))? {
                    check_ok(&r, "DeletePrefix")?;
                    let n = self.m.len();
                    self.m.retain(|k, _| !k.starts_with(&p));
                    if self.m.len() < n {
                        self.bump("prefix-deletes");
                    }
                }
            }
            Go::Limits { h, max } => {
                let h = self.h(*h);
                if self.on(h, json!({"Op": "limits", "Max": max, "Flag": self.nopunch}))?.map(|r| check_ok(&r, "SetInstanceLimits")).transpose()?.is_some() {
                    self.hs[h].limit = max.map(|m| m as u64);
                }
            }
            Go::Cleanup { h } => {
                let h = self.h(*h);
                if let Some(r) = self.on(h, json!({"Op": "cleanup"}))? {
                    check_ok(&r, "CleanupSnapshots")?;
                }
            }
            Go::Par { threads } => {
                if !self.any_limit() {
                    self.par(threads)?
                }
            }
        }
        Ok(())
    }

    fn par(&mut self, threads: &[Vec<Go>]) -> G<()> {
        const MOST: usize = 200_000;
        let t0 = now();
        let mut ids: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut all: Vec<Rc<Vec<u8>>> = vec![];
        let mut id = |b: &Rc<Vec<u8>>| {
            *ids.entry(b.to_vec()).or_insert_with(|| {
                all.push(b.clone());
                all.len() as u32 - 1
            })
        };
        let init: State = self.m.iter().map(|(k, v)| (k.clone(), id(&v.b))).collect();
        let mut reqs = vec![];
        let mut whats: Vec<Vec<(Go, usize, Vec<u8>, Vec<u8>, u32)>> = vec![];
        for t in threads {
            let (mut rq, mut wh) = (vec![], vec![]);
            for op in t {
                let none = vec![];
                let (mut q, h, a, b, c) = match op {
                    Go::Put { h, k, size, nil } => {
                        let (h, k) = (self.h(*h), self.key(*k));
                        let (b, tag) = self.fresh(*size);
                        (json!({"Op": "put", "K": k, "Tag": tag, "Size": size, "Nil": nil}), h, k, none, id(&b))
                    }
                    Go::Feed { h, k, size, chunk, .. } => {
                        let (h, k) = (self.h(*h), self.key(*k));
                        let (b, tag) = self.fresh(*size);
                        (json!({"Op": "provput", "K": k, "Tag": tag, "Size": size, "Chunk": chunk}), h, k, none, id(&b))
                    }
                    Go::Del { h, k, .. } => (json!({"Op": "del", "K": self.key(*k)}), self.h(*h), self.key(*k), none, 0),
                    Go::Stat { h, k, prov } => (json!({"Op": "stat", "K": self.key(*k), "Prov": prov}), self.h(*h), self.key(*k), none, 0),
                    Go::ReadAt { h, k, prov, .. } => (json!({"Op": "readat", "K": self.key(*k), "Prov": prov, "Len": MOST}), self.h(*h), self.key(*k), none, 0),
                    Go::List { h, p, .. } => (json!({"Op": "list", "K": self.pfx(p)}), self.h(*h), self.pfx(p), none, 0),
                    Go::Get { h, k, chunk } => (json!({"Op": "get", "K": self.key(*k), "Chunk": (*chunk).max(64)}), self.h(*h), self.key(*k), none, 0),
                    Go::MovePrefix { h, p, q } => (json!({"Op": "movepfx", "K": self.pfx(p), "Q": self.pfx(q)}), self.h(*h), self.pfx(p), self.pfx(q), 0),
                    Go::DelPrefix { h, p, prov } => (json!({"Op": "delpfx", "K": self.pfx(p), "Prov": prov}), self.h(*h), self.pfx(p), none, 0),
                    Go::Close { h } => (json!({"Op": "close"}), self.h(*h), none.clone(), none, 0),
                    _ => continue,
                };
                q["H"] = json!(self.hs[h].id);
                rq.push(q);
                wh.push((op.clone(), h, a, b, c));
            }
            reqs.push(rq);
            whats.push(wh);
        }
        let r = self.p.call(&json!({"Op": "par", "Par": reqs}))?;
        let res: Vec<Vec<Resp>> = r.par.unwrap_or_default().into_iter().map(|t| t.unwrap_or_default()).collect();
        if res.iter().map(|t| t.len()).ne(whats.iter().map(|t| t.len())) {
            return Err(Trouble::Error("the Go process answered something else".into()));
        }
        // When each handle was closed: from then, and surely from then.
        let mut closing: Vec<(u64, u64)> = self.hs.iter().map(|h| if h.open { (u64::MAX, u64::MAX) } else { (0, 0) }).collect();
        for (w, x) in whats.iter().flatten().zip(res.iter().flatten()) {
            if let Go::Close { .. } = w.0 {
                check_ok(x, "Close")?;
                let c = &mut closing[w.1];
                *c = (c.0.min(x.start), c.1.min(x.end));
            }
        }
        let known = |b: &[u8]| match ids.get(b) {
            Some(i) => Ok(*i),
            None => fail("content", format!("{} bytes that nobody wrote", b.len())),
        };
        let mut ev: Vec<Vec<Event>> = vec![];
        let (mut several, mut busy, mut raced) = (0, 0, 0);
        for (t, (w, x)) in whats.iter().zip(&res).enumerate() {
            let mut l = vec![];
            for ((op, h, a, b, c), x) in w.iter().zip(x) {
                let (a, b, c) = (a.clone(), b.clone(), *c);
                let may_be_closed = x.end > closing[*h].0;
                let is_closed = x.start > closing[*h].1;
                let closed = match op {
                    Go::Stat { .. } => !x.ok && may_be_closed,
                    Go::Close { .. } => true,
                    _ => x.err == "closed",
                };
                if !matches!(op, Go::Close { .. }) {
                    if closed && !may_be_closed || !closed && is_closed {
                        fail("closed", format!("{op:?} returned {:?}; the handle was closed in {:?}, it ran in {}-{}", x.err, closing[*h], x.start, x.end))?
                    }
                    if may_be_closed && !is_closed {
                        raced += 1;
                    }
                }
                let bad = |w: &str| fail::<()>("op-error", format!("{w}: {}", x.err));
                let seen = match op {
                    Go::Stat { .. } if closed && is_closed => Seen::Nothing,
                    Go::Stat { .. } if closed => Seen::Maybe(Box::new(Seen::Len(a, None))),
                    _ if closed => Seen::Nothing,
                    Go::Put { .. } | Go::Feed { .. } => {
                        if !x.err.is_empty() {
                            // Between two handles a write may find the database busy for too long.
                            if self.hs.len() == 1 {
                                bad("put")?
                            }
                            busy += 1;
                            Seen::Nothing
                        } else {
                            Seen::Put(a, c)
                        }
                    }
                    Go::Del { .. } => {
                        if !x.err.is_empty() {
                            bad("SingleDelete")?
                        }
                        Seen::Del(a, x.ok.then(|| x.stat.as_ref().map(|s| s.size as u64).unwrap_or(u64::MAX)))
                    }
                    Go::Stat { .. } => Seen::Len(a, x.ok.then(|| x.stat.as_ref().map(|s| s.size as u64).unwrap_or(u64::MAX))),
                    Go::ReadAt { .. } | Go::Get { .. } => match &x.err[..] {
                        "notexist" => Seen::Read(vec![(a, None)]),
                        "" | "eof" => Seen::Read(vec![(a, Some(known(&hex(&x.hex))?))]),
                        _ => {
                            bad("reading")?;
                            Seen::Nothing
                        }
                    },
                    Go::List { .. } => {
                        if !x.err.is_empty() {
                            bad("ListKeys")?
                        }
                        let mut l: Vec<Vec<u8>> = x.keys.iter().flatten().map(|k| [&a[..], &hex(k)].concat()).collect();
                        l.sort();
                        Seen::Keys(a, l)
                    }
                    Go::MovePrefix { .. } => {
                        if x.err.is_empty() {
                            Seen::MovePrefix(a, b, true)
                        } else if x.err.starts_with("other") {
                            // It is refused; another may have found the database busy.
                            Seen::Nothing
                        } else {
                            bad("MovePrefix")?;
                            Seen::Nothing
                        }
                    }
                    Go::DelPrefix { .. } => {
                        if !x.err.is_empty() {
                            bad("DeletePrefix")?
                        }
                        Seen::DelPrefix(a)
                    }
                    _ => Seen::Nothing,
                };
                if x.end - x.start > 1 {
                    several += 1;
                }
                l.push(Event { thread: t, start: x.start, end: x.end, seen });
            }
            ev.push(l);
        }
        for (h, c) in closing.iter().enumerate() {
            if c.0 != u64::MAX {
                self.hs[h].open = false;
            }
        }
        // What there is now.
        self.open()?;
        let h = self.hs.len() - 1;
        let r = self.on(h, json!({"Op": "list", "K": []}))?.unwrap();
        let mut last = State::new();
        let mut m = BTreeMap::new();
        for k in r.keys.unwrap_or_default() {
            let k = hex(&k);
            let r = self.on(h, json!({"Op": "get", "K": k, "Chunk": 65536}))?.unwrap();
            check_ok(&r, "Get at the end")?;
            let c = known(&hex(&r.hex))?;
            last.insert(k.clone(), c);
            // An identity only if it can't be another value with the same content.
            let b = all[c as usize].clone();
            let old = if b.is_empty() { None } else { self.m.values().find(|v| v.b == b).cloned() };
            self.vid += 1;
            m.insert(k, old.unwrap_or(MVal { b, vid: self.vid, since: t0 }));
        }
        if let Some(v) = self.m.values().map(|v| v.since).min() {
            for x in m.values_mut() {
                x.since = x.since.min(v).min(t0);
            }
        }
        let len = |i: u32| all[i as usize].len() as u64;
        if let Err((at, s)) = linearize(&init, &ev, &len, &last) {
            let mut e: Vec<&Event> = ev.iter().flatten().collect();
            e.sort_by_key(|e| e.start);
            fail("not-linearizable", format!("no order explains: initially {init:?}; {e:?}; finally {last:?}; got as far as {at:?} with {s:?}"))?
        }
        self.m = m;
        self.o.bump("overlapping", several);
        self.o.bump("busy", busy);
        self.o.bump("closed-meanwhile", raced);
        self.bump("parallel");
        Ok(())
    }
}
fn check_ok(r: &Resp, what: &str) -> R<()> {
    check!(r.err.is_empty(), "op-error", "{what}: {}", r.err);
    Ok(())
}

/// What the Rust API finds in the end.
fn look(dir: &Path, m: &BTreeMap<Vec<u8>, MVal>) -> R<()> {
    let h = ok(possum::Handle::new(dir.to_path_buf()), "Handle::new")?;
    let mut l: Vec<_> = ok(h.list_items(b""), "list_items")?.into_iter().map(|i| i.key).collect();
    l.sort();
    check!(l.iter().eq(m.keys()), "contents", "the directory holds {l:?}, want {:?}", m.keys().collect::<Vec<_>>());
    for (k, v) in m {
        let Some(s) = ok(h.read_single(k), "read_single")? else { return fail("lost-key", show(k)) };
        let mut b = vec![];
        ok(std::io::Read::read_to_end(&mut s.new_reader(), &mut b), "reading")?;
        same(&b, &v.b, &format!("{} as Rust reads it", show(k)))?;
    }
    Ok(())
}

fn eval(c: &GCase) -> Eval {
    PROC.with(|p| {
        let mut p = p.borrow_mut();
        if p.as_ref().is_some_and(|p| p.cases >= 60) {
            *p = None;
        }
        if p.is_none() {
            *p = Some(start()?);
        }
        p.as_mut().unwrap().cases += 1;
        let dir = fresh_dir();
        let mut w = W {
            p: p.as_mut().unwrap(),
            dir: dir.join("store"),
            keys: &c.keys,
            nopunch: c.nopunch,
            m: BTreeMap::new(),
            hs: vec![],
            rs: vec![],
            ws: vec![],
            tag: 0,
            vid: 0,
            o: Outcome::default(),
        };
        let r = (|| -> G<()> {
            w.open()?;
            for op in &c.ops {
                w.step(op)?;
            }
            for i in 0..w.ws.len() {
                if w.ws[i].open {
                    w.finish_writer(i)?;
                }
            }
            for i in 0..w.rs.len() {
                for j in 0..w.rs[i].vals.len() {
                    if let (true, Some(v)) = (w.rs[i].open, w.rs[i].vals[j].clone()) {
                        let x = w.p.call(&json!({"Op": "rread", "R": w.rs[i].id, "I": j, "Off": 0, "Len": v.b.len() + 1}))?;
                        w.read(&x, &v.b, 0, v.b.len() + 1, "Value.ReadAt at the end")?;
                    }
                }
            }
            if c.nopunch {
                for f in std::fs::read_dir(&w.dir).map_err(|e| Trouble::Error(e.to_string()))?.flatten() {
                    use std::os::unix::fs::MetadataExt;
                    let Ok(m) = f.metadata() else { continue };
                    if f.file_name().to_string_lossy().starts_with("values-") && m.blocks() * 512 < m.len() {
                        fail("punched-though-disabled", format!("{:?} has {} bytes, but only {} blocks", f.file_name(), m.len(), m.blocks()))?
                    }
                }
            }
            let r = w.p.call(&json!({"Op": "reset"}))?;
            check_ok(&r, "closing everything")?;
            // A value that failed half way can't be given up in C, so it isn't.
            if !w.o.stats.contains_key("failed-puts") {
                let began = Instant::now();
                while let Some(f) = w.p.open_in(&dir) {
                    if began.elapsed() > Duration::from_secs(20) {
                        fail("left-open", format!("{f} is open after everything was closed"))?
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            Ok(())
        })();
        let (m, d) = (std::mem::take(&mut w.m), w.dir.clone());
        let mut o = std::mem::take(&mut w.o);
        let r = match r {
            Ok(()) => in_child(60, || Outcome { fail: look(&d, &m).err(), ..Default::default() }).map(|x| x.fail),
            Err(Trouble::Fail(f)) => {
                *p = None;
                Ok(Some(f))
            }
            Err(Trouble::Error(e)) => {
                *p = None;
                Err(e)
            }
        };
        remove_dir(&dir);
        o.fail = r?;
        Ok(o)
    })
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    let k = any::<u8>;
    let pfx = || (k(), 0u8..4, prop::option::weighted(0.2, prop_oneof![Just(b'a'), Just(b'/'), Just(0xff)])).prop_map(|(k, len, extra)| Pfx { k, len, extra });
    let size = || data::size(SizeProfile::Mixed);
    let chunk = || prop_oneof![2 => Just(0u16), 2 => 1u16..70, 2 => 1000u16..9000];
    let off = || {
        prop_oneof![
            4 => Just(Off::At(0)),
            3 => (0u32..9000).prop_map(Off::At),
            4 => (-40i32..3).prop_map(Off::FromEnd),
            1 => prop_oneof![Just(-1i64), Just(i64::MAX), Just(i64::MIN), Just(1 << 40)].prop_map(Off::Far),
        ]
    };
    let len = || prop_oneof![2 => Just(Len::Exactly(0)), 3 => (0u32..9000).prop_map(Len::Exactly), 5 => (-3i32..30).prop_map(Len::Rest)];
    let b = any::<bool>;
    let read_at = move || (k(), k(), off(), len(), b(), b()).prop_map(|(h, k, off, len, prov, nil)| Go::ReadAt { h, k, off, len, prov, nil });
    let simple = move || {
        prop_oneof![
            10 => (k(), k(), size(), b()).prop_map(|(h, k, size, nil)| Go::Put { h, k, size, nil }),
            3 => (k(), k(), size(), chunk(), prop::bool::weighted(0.08)).prop_map(|(h, k, size, chunk, fail)| Go::Feed { h, k, size, chunk, fail }),
            3 => (k(), k(), b()).prop_map(|(h, k, prov)| Go::Del { h, k, prov }),
            2 => (k(), k(), b()).prop_map(|(h, k, prov)| Go::Stat { h, k, prov }),
            6 => read_at(),
            2 => (k(), pfx(), b()).prop_map(|(h, p, prov)| Go::List { h, p, prov }),
            3 => (k(), k(), chunk()).prop_map(|(h, k, chunk)| Go::Get { h, k, chunk }),
            1 => (k(), pfx(), pfx()).prop_map(|(h, p, q)| Go::MovePrefix { h, p, q }),
            1 => (k(), pfx(), b()).prop_map(|(h, p, prov)| Go::DelPrefix { h, p, prov }),
        ]
    };
    let threads = proptest::collection::vec(
        proptest::collection::vec(prop_oneof![12 => simple(), 1 => k().prop_map(|h| Go::Close { h })], 1..6),
        2..5,
    );
    let op = prop_oneof![
        34 => simple(),
        1 => Just(Go::Open),
        1 => k().prop_map(|h| Go::Close { h }),
        8 => (k(), proptest::collection::vec(k(), 1..4), prop::option::weighted(0.4, pfx()), prop::bool::weighted(0.6), prop::bool::weighted(0.1))
            .prop_map(|(h, ks, list, hold, abort)| Go::Reader { h, ks, list, hold, abort }),
        5 => (k(), k(), off(), len()).prop_map(|(r, i, off, len)| Go::RRead { r, i, off, len }),
        1 => k().prop_map(|r| Go::REnd { r }),
        4 => k().prop_map(|h| Go::WNew { h }),
        7 => (k(), k(), size(), chunk(), b(), b()).prop_map(|(w, k, size, chunk, two, close)| Go::WPut { w, k, size, chunk, two, close }),
        4 => (k(), k(), k(), k()).prop_map(|(w, r, i, k)| Go::WRename { w, r, i, k }),
        4 => k().prop_map(|w| Go::WCommit { w }),
        1 => (k(), prop::option::weighted(0.7, prop_oneof![Just(0u32), 1u32..20_000, Just(u32::MAX)])).prop_map(|(h, max)| Go::Limits { h, max }),
        1 => k().prop_map(|h| Go::Cleanup { h }),
        3 => threads.prop_map(|threads| Go::Par { threads }),
    ];
    let strat = (data::keys(1, 6), k(), prop::bool::weighted(0.2), proptest::collection::vec(op, 1..36))
        .prop_map(|(mut keys, x, nopunch, ops)| {
            let sub = [&keys[0][..], b"/", &[x]].concat();
            keys.push(sub);
            keys.sort();
            keys.dedup();
            GCase { keys, nopunch, ops }
        })
        .boxed();
    vec![Box::new(Check {
        name: "binding",
        strat,
        eval: Box::new(eval),
        nontrivial: |t| ["partial-reads", "reads-of-missing", "held-reads-of-gone", "renames", "overlapping", "on-closed-handles", "partial-lists"].iter().any(|k| t.get(*k).copied().unwrap_or(0) > 0),
        rule: "histories of Go API calls, with goroutines in parallel; non-trivial: a part of a value or a missing key was read, a held value was read after it was gone or renamed, some but not all keys were listed, a closed handle was used, or calls overlapped",
        quick: 5_000,
        thorough: 100_000,
        shrinks: 300,
    })]
}
