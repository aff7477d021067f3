//! C15: the exported C functions, called as a C program would, against the model and the Rust API.
use super::*;
use crate::check;
use crate::data::*;
use crate::engine::to_ops as ok;
use crate::sim::Fault;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::Path;
use std::ptr::{null, null_mut};
use std::rc::Rc;

/// The declarations of possum.h.
#[allow(dead_code, improper_ctypes)]
mod ffi {
    pub const NO_ERROR: i32 = 0;
    pub const NO_SUCH_KEY: i32 = 1;
    #[repr(C)]
    pub struct Opaque {
        _p: [u8; 0],
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Buf {
        pub ptr: *const i8,
        pub size: usize,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Default, Debug, PartialEq)]
    pub struct Time {
        pub secs: i64,
        pub nanos: u32,
    }
    #[repr(C)]
    #[derive(Clone, Copy, Default, Debug, PartialEq)]
    pub struct Stat {
        pub last_used: Time,
        pub size: u64,
    }
    #[repr(C)]
    pub struct Item {
        pub key: Buf,
        pub stat: Stat,
    }
    #[repr(C)]
    pub struct Limits {
        pub max_value_length_sum: u64,
        pub disable_hole_punching: bool,
    }
    pub type Handle = Opaque;
    pub type Writer = Opaque;
    pub type ValueWriter = Opaque;
    pub type Reader = Opaque;
    pub type Value = Opaque;
    extern "C" {
        pub fn possum_new(path: *const i8) -> *mut Handle;
        pub fn possum_drop(h: *mut Handle);
        pub fn possum_set_instance_limits(h: *mut Handle, l: *const Limits) -> i32;
        pub fn possum_cleanup_snapshots(h: *const Handle) -> i32;
        pub fn possum_single_write_buf(h: *mut Handle, key: Buf, value: Buf) -> usize;
        pub fn possum_new_writer(h: *mut Handle) -> *mut Writer;
        pub fn possum_single_stat(h: *const Handle, key: Buf, out: *mut Stat) -> bool;
        pub fn possum_list_items(h: *const Handle, prefix: Buf, out: *mut *mut Item, n: *mut usize) -> i32;
        pub fn possum_single_read_at(h: *const Handle, key: Buf, buf: *mut Buf, offset: u64) -> i32;
        pub fn possum_single_delete(h: *const Handle, key: Buf, stat: *mut Stat) -> i32;
        pub fn possum_reader_new(h: *const Handle, r: *mut *mut Reader) -> i32;
        pub fn possum_handle_move_prefix(h: *mut Handle, from: Buf, to: Buf) -> i32;
        pub fn possum_handle_delete_prefix(h: *mut Handle, p: Buf) -> i32;
        pub fn possum_start_new_value(w: *mut Writer, v: *mut *mut ValueWriter) -> i32;
        pub fn possum_value_writer_fd(v: *mut ValueWriter) -> isize;
        pub fn possum_writer_rename(w: *mut Writer, v: *const Value, k: Buf) -> i32;
        pub fn possum_reader_add(r: *mut Reader, k: Buf, v: *mut *const Value) -> i32;
        pub fn possum_reader_begin(r: *mut Reader) -> i32;
        pub fn possum_reader_end(r: *mut Reader);
        pub fn possum_value_read_at(v: *const Value, b: *mut Buf, off: u64) -> i32;
        pub fn possum_value_stat(v: *const Value, out: *mut Stat);
        pub fn possum_reader_list_items(r: *const Reader, p: Buf, out: *mut *mut Item, n: *mut usize) -> i32;
        pub fn possum_writer_commit(w: *mut Writer) -> i32;
        pub fn possum_writer_stage(w: *mut Writer, k: Buf, v: *mut ValueWriter) -> i32;
    }
}
use ffi::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum COp {
    /// the same store through the Rust API
    Rust(Op),
    New,
    /// opening where no directory can be
    NewBad,
    Drop { c: u8 },
    Put { c: u8, k: u8, size: u32 },
    Stat { c: u8, k: u8 },
    /// the recorded finding that possum_single_stat aborts the process when it fails; never generated
    StatFails { c: u8, k: u8 },
    ReadAt { c: u8, k: u8, off: u32, len: u32, far: u8 },
    Del { c: u8, k: u8, stat: bool },
    List { c: u8, p: Pfx },
    MovePrefix { c: u8, p: Pfx, q: Pfx },
    DelPrefix { c: u8, p: Pfx },
    Limits { c: u8, max: Option<u32>, nopunch: bool },
    Cleanup { c: u8 },
    /// a reader; its values are kept. `rival`: another handle writes meanwhile
    Reader { c: u8, ks: Vec<u8>, list: Option<Pfx>, begin: bool, rival: Option<(u8, u32)> },
    ValueRead { i: u8, j: u8, off: u32, len: u32, far: u8 },
    ValueStat { i: u8, j: u8 },
    REnd { i: u8 },
    WNew { c: u8 },
    WBegin { b: u8 },
    WWrite { b: u8, w: u8, size: u32 },
    WStage { b: u8, w: u8, k: u8 },
    WPut { b: u8, k: u8, size: u32 },
    WRename { b: u8, i: u8, j: u8, k: u8 },
    WCommit { b: u8 },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct CCase {
    mode: Mode,
    exdev: bool,
    seed: u32,
    sched: sim::Sched,
    keys: Vec<Vec<u8>>,
    /// how buffers of no bytes are passed
    null: bool,
    ops: Vec<COp>,
    /// (fraction of the file calls of the C functions, what happens there)
    fault: Option<(u16, Fault)>,
}

struct CH {
    /// null once dropped; batches of the handle still obey its limits
    p: *mut Handle,
    max: Option<u64>,
    nopunch: bool,
}
struct CVal {
    key: Vec<u8>,
    data: Bytes,
    vid: u64,
    v: *const Value,
    stat: Stat,
}
struct CRd {
    p: *mut Reader,
    vals: Vec<CVal>,
}
struct CW {
    p: *mut ValueWriter,
    data: Vec<u8>,
}
struct CB {
    c: usize,
    p: *mut Writer,
    writers: Vec<CW>,
    staged: Vec<(Vec<u8>, Bytes)>,
    renames: Vec<(u64, Vec<u8>)>,
}
struct CWorld {
    w: World,
    null: bool,
    hs: Vec<CH>,
    rds: Vec<CRd>,
    bs: Vec<CB>,
    /// set once a C function reported a failure after a fault
    failed: Option<String>,
    fault: Option<(u64, Fault)>,
    fault_calls: u64,
}
/// Stops a history whose C call failed because of a fault.
const STOP: &str = "stop";

fn stat_ms(s: &Stat) -> i64 {
    s.last_used.secs * 1000 + s.last_used.nanos as i64 / 1_000_000
}
unsafe fn take_items(p: *mut Item, n: usize) -> Vec<(Vec<u8>, Stat)> {
    let mut v = vec![];
    for i in 0..n {
        let it = &*p.add(i);
        v.push((if it.key.size == 0 { vec![] } else { std::slice::from_raw_parts(it.key.ptr as *const u8, it.key.size).to_vec() }, it.stat));
        libc::free(it.key.ptr as *mut _);
    }
    libc::free(p as *mut _);
    v
}

impl CWorld {
    fn buf(&self, b: &[u8]) -> Buf {
        if b.is_empty() && self.null {
            return Buf { ptr: null(), size: 0 };
        }
        Buf { ptr: b.as_ptr() as *const i8, size: b.len() }
    }
    /// Calls into the C API; the fault may strike only here.
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let base = self.fault_calls;
        let plan = match self.fault {
            Some((at, x)) if at >= base => sim::Plan { fault_at: Some((at - base, Some(x))), fault_len: 1, ..Default::default() },
            _ => sim::Plan::default(),
        };
        sim::set_plan(plan);
        let r = f();
        self.fault_calls += sim::fault_calls();
        sim::clear_plan();
        r
    }
    /// What the outcome `err` of a function that must succeed means.
    fn must(&mut self, err: i32, what: &str) -> R<()> {
        if err == NO_ERROR {
            return Ok(());
        }
        if sim::faults_fired() > 0 {
            check!((2..=5).contains(&err), "error-kind", "{what} failed with {err} after the fault {}", sim::fault_log().join(" "));
            self.failed = Some(format!("{what} = {err}"));
            return fail(STOP, "");
        }
        fail("c-error", format!("{what} = {err}"))
    }
    fn slot(&mut self, c: u8) -> R<usize> {
        let open: Vec<usize> = (0..self.hs.len()).filter(|i| !self.hs[*i].p.is_null()).collect();
        if open.is_empty() {
            self.open()?;
            return Ok(self.hs.len() - 1);
        }
        Ok(open[c as usize % open.len()])
    }
    fn open(&mut self) -> R<()> {
        let path = CString::new(self.w.dir.to_str().unwrap()).unwrap();
        let p = self.call(|| unsafe { possum_new(path.as_ptr()) });
        if p.is_null() {
            if sim::faults_fired() > 0 {
                self.failed = Some("possum_new = NULL".into());
                return fail(STOP, "");
            }
            return fail("c-error", "possum_new returned NULL");
        }
        self.hs.push(CH { p, max: None, nopunch: false });
        Ok(())
    }
    fn p(&self, c: usize) -> *mut Handle {
        self.hs[c].p
    }
    fn sync(&mut self, c: Option<usize>, wrote: Option<bool>) -> R<()> {
        let (max, np) = match c.map(|c| &self.hs[c]) {
            Some(h) => (h.max, h.nopunch),
            None => (None, false),
        };
        self.w.sync_limited(max, np, wrote)
    }
    /// Reads through `f` into a guarded buffer and compares with `data`.
    fn read_at(&mut self, f: &dyn Fn(*mut Buf, u64) -> i32, data: Option<&[u8]>, off: u32, len: u32, far: u8, what: &str) -> R<()> {
        let n = data.map(|d| d.len() as u64).unwrap_or(10);
        let off = match far % 8 {
            0 => u64::MAX - off as u64 % 3,
            1 => i64::MAX as u64 - off as u64 % 3,
            2 => n + off as u64 % 9,
            3 => n.saturating_sub(off as u64 % 9),
            4 => 0,
            _ => off as u64 % (n + 3),
        };
        let len = if far >= 128 { n as usize + len as usize % 5 } else { len as usize };
        const G: usize = 32;
        let mut mem = vec![0xC3u8; len + 2 * G];
        let mut b = if len == 0 && self.null { Buf { ptr: null(), size: 0 } } else { Buf { ptr: unsafe { mem.as_mut_ptr().add(G) } as *const i8, size: len } };
        let ptr = b.ptr;
        let bp: *mut Buf = &mut b;
        let e = self.call(|| f(bp, off));
        let Some(data) = data else {
            if e != NO_SUCH_KEY {
                self.must(if e == NO_ERROR { 99 } else { e }, &format!("{what} of a missing key"))?;
            }
            return Ok(());
        };
        self.must(e, &format!("{what} at {off} of {n}"))?;
        check!(b.ptr == ptr, "c-buffer", "{what}: the buffer's pointer changed");
        check!(b.size <= len, "c-buffer", "{what}: size {} for a buffer of {len}", b.size);
        check!(mem[..G].iter().chain(&mem[G + len..]).all(|x| *x == 0xC3), "c-buffer", "{what}: wrote outside of the buffer");
        let rest = if off >= n { &[][..] } else { &data[off as usize..] };
        let want = &rest[..rest.len().min(len)];
        check!(b.size <= want.len() && (b.size > 0 || want.is_empty()), "short-read", "{what}: {} bytes at {off} with a buffer of {len}, value of {n}", b.size);
        let got = &mem[G..G + b.size];
        check!(got == &want[..b.size], "content", "{what} at {off}: {}", diff(got, want));
        self.w.bump(if want.is_empty() { "c-reads-nothing" } else { "c-reads" });
        Ok(())
    }
    /// A listing by a C function against the model.
    fn check_items(&mut self, items: Vec<(Vec<u8>, Stat)>, p: &[u8], what: &str) -> R<()> {
        let mut want: BTreeMap<Vec<u8>, (u64, i64, i64)> =
            self.w.model.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, m)| (k[p.len()..].to_vec(), (m.data.len() as u64, m.lo, m.hi))).collect();
        for (k, s) in items {
            let Some((n, lo, hi)) = want.remove(&k) else { return fail("ghost-key", format!("{what}({}) has {}", show(p), show(&k))) };
            check!(s.size == n, "wrong-length", "{what}({}): {} has size {} want {n}", show(p), show(&k), s.size);
            check!(stat_ms(&s) >= lo && stat_ms(&s) <= hi && s.last_used.nanos < 1_000_000_000, "last-used", "{what}({}): {} last used {:?} not in [{lo}, {hi}]", show(p), show(&k), s.last_used);
        }
        if let Some(k) = want.keys().next() {
            return fail("lost-key", format!("{what}({}) misses {}", show(p), show(k)));
        }
        self.w.bump("c-lists");
        Ok(())
    }
    fn list(&mut self, c: usize, p: &[u8]) -> R<()> {
        let (h, b) = (self.p(c), self.buf(p));
        let (mut out, mut n) = (null_mut(), usize::MAX);
        let (o, m): (*mut *mut Item, *mut usize) = (&mut out, &mut n);
        let e = self.call(|| unsafe { possum_list_items(h, b, o, m) });
        self.must(e, "possum_list_items")?;
        let items = unsafe { take_items(out, n) };
        // Exactly what the Rust API lists.
        let rust = self.w.listing()?;
        for (k, s) in &items {
            let full = [p, k].concat();
            let Some(x) = rust.get(&full) else { return fail("ghost-key", format!("possum_list_items({}) has {}", show(p), show(k))) };
            check!(x.lu == stat_ms(s) && x.len == s.size, "list-stat", "{}: C lists {s:?}, Rust {x:?}", show(&full));
        }
        self.check_items(items, p, "possum_list_items")
    }
    fn read_value(&mut self, i: usize, j: usize, off: u32, len: u32, far: u8, whole: bool) -> R<()> {
        let e = &self.rds[i].vals[j];
        let (v, data, what) = (e.v, e.data.clone(), format!("possum_value_read_at of {}", show(&e.key)));
        let f = move |b: *mut Buf, off: u64| unsafe { possum_value_read_at(v, b, off) };
        if whole {
            self.read_at(&f, Some(&data), 0, 0, 132, &what)
        } else {
            self.read_at(&f, Some(&data), off, len, far, &what)
        }
    }
    fn value_stat(&mut self, i: usize, j: usize) -> R<()> {
        let e = &self.rds[i].vals[j];
        let mut s = Stat { size: 77, ..Default::default() };
        unsafe { possum_value_stat(e.v, &mut s) };
        check!(s.size == e.data.len() as u64, "wrong-length", "possum_value_stat of {}: size {} want {}", show(&e.key), s.size, e.data.len());
        check!(s == e.stat, "value-stat", "possum_value_stat of {} changed from {:?} to {s:?}", show(&e.key), e.stat);
        self.w.bump("c-value-stats");
        Ok(())
    }
    fn end_reader(&mut self, i: usize) -> R<()> {
        for j in 0..self.rds[i].vals.len() {
            self.value_stat(i, j)?;
            self.read_value(i, j, 0, 0, 0, true)?;
        }
        let r = self.rds.remove(i);
        self.call(|| unsafe { possum_reader_end(r.p) });
        Ok(())
    }
    fn batch(&self, b: u8) -> Option<usize> {
        (!self.bs.is_empty()).then(|| b as usize % self.bs.len())
    }
    fn begin_value(&mut self, b: usize) -> R<CW> {
        let p = self.bs[b].p;
        let mut v = null_mut();
        let vp: *mut *mut ValueWriter = &mut v;
        let e = self.call(|| unsafe { possum_start_new_value(p, vp) });
        self.must(e, "possum_start_new_value")?;
        Ok(CW { p: v, data: vec![] })
    }
    fn write_fd(&mut self, cw: &mut CW, d: &[u8]) -> R<()> {
        let p = cw.p;
        let fd = self.call(|| unsafe { possum_value_writer_fd(p) });
        check!(fd >= 0, "c-error", "possum_value_writer_fd = {fd}");
        let _e = sim::exempt();
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd as i32) });
        ok(f.write_all(d), "write to possum_value_writer_fd")?;
        cw.data.extend_from_slice(d);
        Ok(())
    }
    fn stage(&mut self, b: usize, cw: CW, k: Vec<u8>) -> R<()> {
        let (p, kb) = (self.bs[b].p, self.buf(&k));
        let e = self.call(|| unsafe { possum_writer_stage(p, kb, cw.p) });
        self.must(e, "possum_writer_stage")?;
        self.bs[b].staged.push((k, Rc::new(cw.data)));
        self.w.bump("c-staged");
        Ok(())
    }
    /// The contents after an operation takes effect, for operations that change them.
    fn predict(&self, op: &COp) -> BTreeMap<Vec<u8>, Bytes> {
        let h = 0;
        match op.clone() {
            COp::Put { k, size, .. } => self.w.predict(&Op::Put { h, k, size, chunk: 0 }),
            COp::Del { k, .. } => self.w.predict(&Op::Del { h, k }),
            COp::MovePrefix { p, q, .. } => self.w.predict(&Op::MovePrefix { h, p, q }),
            COp::DelPrefix { p, .. } => self.w.predict(&Op::DelPrefix { h, p }),
            COp::WCommit { b } => match self.batch(b) {
                Some(b) => self.w.after_commit(&self.bs[b].staged, &self.bs[b].renames),
                None => self.w.predict(&Op::Settle),
            },
            _ => self.w.predict(&Op::Settle),
        }
    }

    fn step(&mut self, op: &COp) -> R<()> {
        let t0 = sim::now_ms();
        match op {
            COp::Rust(op) => {
                if self.fault.is_some() {
                    let _e = sim::exempt();
                    return self.w.step(op);
                }
                self.w.step(op)
            }
            COp::New => {
                if self.hs.iter().filter(|h| !h.p.is_null()).count() < 3 {
                    self.open()?;
                }
                self.sync(None, None)
            }
            COp::NewBad => {
                let f = self.w.src.join("plain");
                std::fs::write(&f, b"x").unwrap();
                let path = CString::new(f.join("store").to_str().unwrap()).unwrap();
                let p = unsafe { possum_new(path.as_ptr()) };
                check!(p.is_null(), "c-success", "possum_new below a plain file succeeded");
                self.w.bump("c-new-fails");
                Ok(())
            }
            COp::Drop { c } => {
                let c = self.slot(*c)?;
                // Readers and writers may outlive the handle they came from.
                let p = std::mem::replace(&mut self.hs[c].p, null_mut());
                self.call(|| unsafe { possum_drop(p) });
                if self.bs.iter().any(|b| b.c == c) || !self.rds.is_empty() {
                    self.w.bump("c-drop-in-use");
                }
                self.sync(None, None)
            }
            COp::Put { c, k, size } => {
                let c = self.slot(*c)?;
                let k = self.w.key(*k);
                let (d, _) = self.w.fresh(*size);
                let (h, kb, vb) = (self.p(c), self.buf(&k), self.buf(&d));
                let n = self.call(|| unsafe { possum_single_write_buf(h, kb, vb) });
                self.must(if n == usize::MAX { 4 } else { 0 }, "possum_single_write_buf")?;
                check!(n == d.len(), "wrong-length", "possum_single_write_buf = {n}, wrote {}", d.len());
                self.w.put_model(k, d, t0);
                self.w.bump("c-puts");
                self.sync(Some(c), Some(true))
            }
            COp::Stat { c, k } | COp::StatFails { c, k } => {
                // There is no way to report an error (a recorded finding); no fault here.
                let fails = matches!(op, COp::StatFails { .. });
                let c = self.slot(*c)?;
                if !fails && sim::faults_fired() > 0 {
                    return Ok(());
                }
                let k = self.w.key(*k);
                let (h, kb) = (self.p(c), self.buf(&k));
                let mut s = Stat { size: 77, ..Default::default() };
                let sp: *mut Stat = &mut s;
                let found = if fails {
                    sim::set_plan(sim::Plan { fault_at: Some((0, Some(Fault::Errno(libc::EIO)))), fault_len: 1000, ..Default::default() });
                    let r = unsafe { possum_single_stat(h, kb, sp) };
                    sim::clear_plan();
                    r
                } else {
                    let _e = sim::exempt();
                    unsafe { possum_single_stat(h, kb, sp) }
                };
                match self.w.model.get(&k) {
                    None => check!(!found, "ghost-key", "possum_single_stat finds {}", show(&k)),
                    Some(m) => {
                        check!(found, "lost-key", "possum_single_stat misses {}", show(&k));
                        check!(s.size == m.data.len() as u64, "wrong-length", "possum_single_stat of {}: {} want {}", show(&k), s.size, m.data.len());
                        let (lu, t1) = (stat_ms(&s), sim::now_ms());
                        check!(lu >= t0 - 1 && lu <= t1, "last-used", "possum_single_stat of {}: last used {lu} not in [{}, {t1}]", show(&k), t0 - 1);
                        self.w.bump("c-stats");
                        self.w.touch(&k, t0);
                    }
                }
                self.sync(Some(c), Some(false))
            }
            COp::ReadAt { c, k, off, len, far } => {
                let c = self.slot(*c)?;
                let k = self.w.key(*k);
                let (h, kb) = (self.p(c), self.buf(&k));
                let data = self.w.model.get(&k).map(|m| m.data.clone());
                let f = move |b: *mut Buf, off: u64| unsafe { possum_single_read_at(h, kb, b, off) };
                self.read_at(&f, data.as_ref().map(|d| &d[..]), *off, *len, *far, &format!("possum_single_read_at of {}", show(&k)))?;
                self.w.touch(&k, t0);
                self.sync(Some(c), Some(false))
            }
            COp::Del { c, k, stat } => {
                let c = self.slot(*c)?;
                let k = self.w.key(*k);
                let (h, kb) = (self.p(c), self.buf(&k));
                let mut s = Stat { size: 77, ..Default::default() };
                let sp = if *stat { &mut s as *mut Stat } else { null_mut() };
                let e = self.call(|| unsafe { possum_single_delete(h, kb, sp) });
                if !self.w.model.contains_key(&k) {
                    if e != NO_SUCH_KEY {
                        self.must(if e == NO_ERROR { 99 } else { e }, "possum_single_delete of a missing key")?;
                    }
                    self.w.bump("c-del-missing");
                    return self.sync(Some(c), Some(false));
                }
                self.must(e, "possum_single_delete")?;
                let m = self.w.model.remove(&k).unwrap();
                if *stat {
                    check!(s.size == m.data.len() as u64, "delete-stat", "possum_single_delete of {}: size {} want {}", show(&k), s.size, m.data.len());
                    check!(stat_ms(&s) >= m.lo && stat_ms(&s) <= m.hi, "last-used", "possum_single_delete of {}: last used {:?} not in [{}, {}]", show(&k), s.last_used, m.lo, m.hi);
                }
                self.w.bump("c-dels");
                self.sync(Some(c), Some(true))
            }
            COp::List { c, p } => {
                let c = self.slot(*c)?;
                let p = self.w.pfx(p);
                self.list(c, &p)
            }
            COp::MovePrefix { c, p, q } => {
                let c = self.slot(*c)?;
                let (p, q) = (self.w.pfx(p), self.w.pfx(q));
                let (h, pb, qb) = (self.p(c), self.buf(&p), self.buf(&q));
                let e = self.call(|| unsafe { possum_handle_move_prefix(h, pb, qb) });
                let moved: Vec<Vec<u8>> = self.w.model.keys().filter(|k| k.starts_with(&p)).cloned().collect();
                let dst = |k: &[u8]| [&q[..], &k[p.len()..]].concat();
                let hit: Vec<Vec<u8>> = moved.iter().map(|k| (k, dst(k))).filter(|(k, d)| d != *k && self.w.model.contains_key(d)).map(|x| x.1).collect();
                if e != NO_ERROR && !hit.is_empty() {
                    self.w.bump("c-move-refused");
                    return self.sync(Some(c), None);
                }
                self.must(e, "possum_handle_move_prefix")?;
                check!(hit.iter().all(|d| d.starts_with(&p)), "move-prefix", "possum_handle_move_prefix {} -> {} overwrote a key", show(&p), show(&q));
                let taken: Vec<_> = moved.iter().map(|k| (dst(k), self.w.model.remove(k).unwrap())).collect();
                let wrote = !taken.is_empty();
                self.w.model.extend(taken);
                if wrote {
                    self.w.bump("c-moves");
                }
                self.sync(Some(c), Some(wrote))
            }
            COp::DelPrefix { c, p } => {
                let c = self.slot(*c)?;
                let p = self.w.pfx(p);
                let (h, pb) = (self.p(c), self.buf(&p));
                let e = self.call(|| unsafe { possum_handle_delete_prefix(h, pb) });
                self.must(e, "possum_handle_delete_prefix")?;
                let n = self.w.model.len();
                self.w.model.retain(|k, _| !k.starts_with(&p));
                let wrote = self.w.model.len() != n;
                if wrote {
                    self.w.bump("c-delpfx");
                }
                self.sync(Some(c), Some(wrote))
            }
            COp::Limits { c, max, nopunch } => {
                let c = self.slot(*c)?;
                let max = max.map(|m| m as u64);
                let l = Limits { max_value_length_sum: max.unwrap_or(u64::MAX), disable_hole_punching: *nopunch };
                let h = self.p(c);
                let e = self.call(|| unsafe { possum_set_instance_limits(h, &l) });
                self.must(e, "possum_set_instance_limits")?;
                let s = &mut self.hs[c];
                s.max = max;
                s.nopunch = *nopunch;
                self.w.bump("c-limits");
                self.sync(Some(c), Some(false))
            }
            COp::Cleanup { c } => {
                let c = self.slot(*c)?;
                let h = self.p(c);
                let e = self.call(|| unsafe { possum_cleanup_snapshots(h) });
                self.must(e, "possum_cleanup_snapshots")
            }
            COp::Reader { c, ks, list, begin, rival } => {
                let c = self.slot(*c)?;
                if self.rds.len() >= 4 {
                    self.end_reader(0)?;
                }
                let h = self.p(c);
                let mut r: *mut Reader = null_mut();
                let rp: *mut *mut Reader = &mut r;
                // The rival's key is not read, so the order of the two does not show in what is read.
                let rival_key = rival.map(|x| self.w.key(x.0));
                let e = self.call(|| unsafe { possum_reader_new(h, rp) });
                self.must(e, "possum_reader_new")?;
                let th = match (rival, self.fault) {
                    (Some((_, size)), None) if self.hs[c].max.is_none() => {
                        let rh = self.w.slot(0)?;
                        let rh = self.w.h(rh);
                        let (d, _) = self.w.fresh(*size);
                        let (k, v) = (rival_key.clone().unwrap(), d.to_vec());
                        let t = std::thread::spawn(move || rh.read().unwrap().single_write_from(k, &v[..]).map(|_| ()).map_err(|e| format!("{e:?}")));
                        Some((t, d))
                    }
                    _ => None,
                };
                let (rk, has_rival) = (rival_key.unwrap_or_default(), th.is_some());
                let res = self.reader(r, c, ks, list.as_ref(), *begin, has_rival.then_some(&rk[..]), t0);
                let end = !*begin || res.is_err();
                match res {
                    Ok(vals) if !end => self.rds.push(CRd { p: r, vals }),
                    Ok(_) => unsafe { possum_reader_end(r) },
                    // A failed reader is ended, too.
                    Err(f) if f.kind == STOP => {
                        unsafe { possum_reader_end(r) };
                        return Err(f);
                    }
                    Err(f) => return Err(f),
                }
                if let Some((t, d)) = th {
                    let r = t.join().map_err(|_| Fail { kind: "panic".into(), msg: "in the rival".into() })?;
                    ok(r, "single_write_from beside a C reader")?;
                    self.w.put_model(rk, d, t0);
                    self.w.bump("c-reader-with-rival");
                }
                let wrote = if !*begin || has_rival { None } else { Some(false) };
                self.sync(Some(c), wrote)
            }
            COp::ValueRead { i, j, off, len, far } => {
                if self.rds.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.rds.len();
                if self.rds[i].vals.is_empty() {
                    return Ok(());
                }
                let j = *j as usize % self.rds[i].vals.len();
                let e = &self.rds[i].vals[j];
                if self.w.model.get(&e.key).map(|m| m.vid) != Some(e.vid) {
                    self.w.bump("c-value-read-after-change");
                }
                self.read_value(i, j, *off, *len, *far, false)
            }
            COp::ValueStat { i, j } => {
                if self.rds.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.rds.len();
                if self.rds[i].vals.is_empty() {
                    return Ok(());
                }
                let j = *j as usize % self.rds[i].vals.len();
                self.value_stat(i, j)
            }
            COp::REnd { i } => {
                if self.rds.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.rds.len();
                self.end_reader(i)
            }
            COp::WNew { c } => {
                let c = self.slot(*c)?;
                if self.bs.len() < 3 {
                    let h = self.p(c);
                    let p = self.call(|| unsafe { possum_new_writer(h) });
                    check!(!p.is_null(), "c-error", "possum_new_writer = NULL");
                    self.bs.push(CB { c, p, writers: vec![], staged: vec![], renames: vec![] });
                }
                Ok(())
            }
            COp::WBegin { b } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                if self.bs[b].writers.len() < 3 {
                    let cw = self.begin_value(b)?;
                    self.bs[b].writers.push(cw);
                }
                Ok(())
            }
            COp::WWrite { b, w, size } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                if self.bs[b].writers.is_empty() {
                    return Ok(());
                }
                let (d, _) = self.w.fresh(*size);
                let w = *w as usize % self.bs[b].writers.len();
                let mut cw = self.bs[b].writers.remove(w);
                let r = self.write_fd(&mut cw, &d);
                self.bs[b].writers.insert(w, cw);
                r
            }
            COp::WStage { b, w, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                if self.bs[b].writers.is_empty() {
                    return Ok(());
                }
                let w = *w as usize % self.bs[b].writers.len();
                let cw = self.bs[b].writers.remove(w);
                let k = self.w.key(*k);
                self.stage(b, cw, k)
            }
            COp::WPut { b, k, size } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let (d, _) = self.w.fresh(*size);
                let k = self.w.key(*k);
                let mut cw = self.begin_value(b)?;
                self.write_fd(&mut cw, &d)?;
                self.stage(b, cw, k)
            }
            COp::WRename { b, i, j, k } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                if self.rds.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.rds.len();
                if self.rds[i].vals.is_empty() {
                    return Ok(());
                }
                let j = *j as usize % self.rds[i].vals.len();
                let e = &self.rds[i].vals[j];
                // As with rename_value, an empty value cannot be renamed (a recorded finding).
                if e.data.is_empty() {
                    return Ok(());
                }
                let (v, vid) = (e.v, e.vid);
                let k = self.w.key(*k);
                let (p, kb) = (self.bs[b].p, self.buf(&k));
                let e = self.call(|| unsafe { possum_writer_rename(p, v, kb) });
                self.must(e, "possum_writer_rename")?;
                self.bs[b].renames.push((vid, k));
                self.w.bump("c-renames");
                Ok(())
            }
            COp::WCommit { b } => {
                let Some(b) = self.batch(*b) else { return Ok(()) };
                let CB { c, p, writers, staged, renames } = self.bs.remove(b);
                let e = self.call(|| unsafe { possum_writer_commit(p) });
                self.must(e, "possum_writer_commit")?;
                let wrote = !staged.is_empty() || !renames.is_empty();
                if staged.len() > 1 {
                    self.w.bump("c-multi-commits");
                }
                self.w.bump("c-commits");
                self.w.commit_model(staged, renames, t0);
                self.sync(Some(c), Some(wrote))?;
                // There is no function that ends a value writer without staging it.
                drop(writers);
                Ok(())
            }
        }
    }
    fn reader(&mut self, r: *mut Reader, _c: usize, ks: &[u8], list: Option<&Pfx>, begin: bool, rival: Option<&[u8]>, t0: i64) -> R<Vec<CVal>> {
        let mut vals: Vec<CVal> = vec![];
        if let Some(p) = list {
            let p = self.w.pfx(p);
            let b = self.buf(&p);
            let (mut out, mut n) = (null_mut(), usize::MAX);
            let (o, m): (*mut *mut Item, *mut usize) = (&mut out, &mut n);
            let e = self.call(|| unsafe { possum_reader_list_items(r, b, o, m) });
            self.must(e, "possum_reader_list_items")?;
            let items = unsafe { take_items(out, n) };
            if rival.is_none() {
                self.check_items(items, &p, "possum_reader_list_items")?;
            }
        }
        if rival.is_some() {
            sim::sleep_ns(5_000_000);
        }
        for k in ks {
            let k = self.w.key(*k);
            if rival == Some(&k[..]) {
                continue;
            }
            let kb = self.buf(&k);
            let mut v: *const Value = null();
            let vp: *mut *const Value = &mut v;
            let e = self.call(|| unsafe { possum_reader_add(r, kb, vp) });
            let Some(m) = self.w.model.get(&k) else {
                if e != NO_SUCH_KEY {
                    self.must(if e == NO_ERROR { 99 } else { e }, "possum_reader_add of a missing key")?;
                }
                continue;
            };
            let m = m.clone();
            self.must(e, &format!("possum_reader_add of {}", show(&k)))?;
            check!(!v.is_null(), "c-error", "possum_reader_add gave no value");
            let mut s = Stat { size: 77, ..Default::default() };
            unsafe { possum_value_stat(v, &mut s) };
            let (lu, t1) = (stat_ms(&s), sim::now_ms());
            check!(s.size == m.data.len() as u64, "wrong-length", "possum_value_stat of {}: {} want {}", show(&k), s.size, m.data.len());
            check!(lu >= t0 - 1 && lu <= t1, "last-used", "possum_value_stat of {}: last used {lu} not in [{}, {t1}]", show(&k), t0 - 1);
            vals.push(CVal { key: k, data: m.data, vid: m.vid, v, stat: s });
        }
        if begin {
            let e = self.call(|| unsafe { possum_reader_begin(r) });
            self.must(e, "possum_reader_begin")?;
            for v in &vals {
                self.w.touch(&v.key, t0);
            }
            if !vals.is_empty() {
                self.w.bump("c-readers");
            }
        }
        Ok(vals)
    }
    fn finish(&mut self) -> R<()> {
        while !self.rds.is_empty() {
            self.end_reader(0)?;
        }
        for i in 0..self.hs.len() {
            if !self.hs[i].p.is_null() {
                self.list(i, b"")?;
                let ks: Vec<Vec<u8>> = self.w.keys.clone();
                if self.hs[i].max.is_some() {
                    continue;
                }
                let h = self.p(i);
                for k in ks {
                    let data = self.w.model.get(&k).map(|m| m.data.clone());
                    let kb = self.buf(&k);
                    let t0 = sim::now_ms();
                    let f = move |b: *mut Buf, off: u64| unsafe { possum_single_read_at(h, kb, b, off) };
                    self.read_at(&f, data.as_ref().map(|d| &d[..]), 0, 0, 132, &format!("possum_single_read_at of {} at the end", show(&k)))?;
                    self.w.touch(&k, t0);
                }
            }
        }
        for h in self.hs.drain(..).filter(|h| !h.p.is_null()) {
            unsafe { possum_drop(h.p) };
        }
        self.w.sync(None, None)?;
        self.w.finish()
    }
}

fn run(c: &CCase, dir: &Path, fault: Option<(u64, Fault)>, o: &mut Outcome) -> R<()> {
    let oracle = Oracle { contents: true, recency: true, limits: true, ..Default::default() };
    let mut w = World::new(&c.keys, c.mode, c.exdev, oracle, dir.join("store"), dir.join("src"));
    w.quiet = true;
    let mut cw = CWorld { w, null: c.null, hs: vec![], rds: vec![], bs: vec![], failed: None, fault, fault_calls: 0 };
    let mut at = 0;
    let r = (|| {
        let mut i = 0;
        loop {
            // Open batches are committed in the end.
            let op = c.ops.get(i).or((!cw.bs.is_empty()).then_some(&COp::WCommit { b: 0 }));
            // No function ends a value writer without staging it, and one left behind by a failed commit
            // would keep its file locked.
            let op = match op {
                Some(COp::WCommit { b }) if cw.fault.is_some() && cw.batch(*b).is_some_and(|b| !cw.bs[b].writers.is_empty()) => Some(COp::WStage { b: *b, w: 0, k: 0 }),
                x => x.cloned(),
            };
            let op = op.as_ref();
            at = i;
            i += 1;
            sim::progress();
            let before: BTreeMap<Vec<u8>, Bytes> = cw.w.model.iter().map(|(k, v)| (k.clone(), v.data.clone())).collect();
            let after = op.map(|op| cw.predict(op)).unwrap_or(before.clone());
            let limited = cw.hs.iter().any(|h| h.max.is_some());
            let r = match op {
                Some(op) => cw.step(op),
                None => cw.finish(),
            };
            match r {
                Ok(()) => {}
                Err(f) if f.kind == STOP => {
                    let log = format!("{} after {}", cw.failed.clone().unwrap_or_default(), sim::fault_log().join(" "));
                    cw.w.bump("c-failed");
                    // As before the operation, or as after it.
                    let _e = sim::exempt();
                    let h = cw.w.open_handle()?;
                    let got = faults::contents(&h)?;
                    if limited {
                        // Evictions may have happened, too.
                        check!(got.iter().all(|(k, v)| before.get(k) == Some(v) || after.get(k) == Some(v)), "content", "{log}: the store holds {}", faults::show_map(&got));
                    } else {
                        check!(got == before || got == after, "content", "{log}: {}; before: {}; after: {}", faults::show_map(&got), faults::show_map(&before), faults::show_map(&after));
                    }
                    if before != after {
                        cw.w.bump("c-failed-change");
                    }
                    return Ok(());
                }
                Err(f) => return Err(f),
            }
            if op.is_none() {
                return Ok(());
            }
        }
    })();
    o.stats = std::mem::take(&mut cw.w.stats);
    o.bump("fault-calls", cw.fault_calls);
    std::mem::forget(cw);
    r.map_err(|f| Fail { kind: f.kind, msg: format!("{} [operation {at}; {}]", f.msg, sim::fault_log().join(" ")) })
}

fn eval(c: &CCase) -> Eval {
    let go = |f: Option<(u64, Fault)>| simulated(c.mode, c.exdev, &c.sched, c.seed as u64, |dir, o| run(c, dir, f, o));
    let dry = go(None)?;
    match c.fault {
        Some((at, f)) if dry.fail.is_none() => {
            let n = dry.stats.get("fault-calls").copied().unwrap_or(0);
            go(Some(((at as u64 * n) >> 16, f)))
        }
        _ => Ok(dry),
    }
}

fn cop() -> BoxedStrategy<COp> {
    let u = || any::<u8>();
    let c = || 0u8..3;
    let sz = || size(SizeProfile::Mixed);
    let len = || prop_oneof![1 => Just(0u32), 3 => 1u32..20, 2 => 1u32..6000];
    let rust = op(&Profile {
        w: weights(&[("put", 6), ("get", 2), ("del", 2), ("rename", 2), ("movepfx", 1), ("delpfx", 1), ("import", 2), ("snap", 1), ("snapread", 1), ("cleanup", 1), ("tick", 3), ("settle", 1), ("reopen", 1)]),
        sizes: SizeProfile::Mixed,
        ops: (0, 1),
        keys: (1, 2),
        modes: vec![],
        preempt: 0,
        oracle: Oracle::default(),
        nopunch: false,
    });
    let rival = || prop::option::weighted(0.3, (u(), sz()));
    prop_oneof![
        20 => rust.prop_map(COp::Rust),
        2 => Just(COp::New),
        1 => Just(COp::NewBad),
        2 => c().prop_map(|c| COp::Drop { c }),
        12 => (c(), u(), sz()).prop_map(|(c, k, size)| COp::Put { c, k, size }),
        4 => (c(), u()).prop_map(|(c, k)| COp::Stat { c, k }),
        8 => (c(), u(), any::<u32>(), len(), u()).prop_map(|(c, k, off, len, far)| COp::ReadAt { c, k, off, len, far }),
        5 => (c(), u(), any::<bool>()).prop_map(|(c, k, stat)| COp::Del { c, k, stat }),
        4 => (c(), pfx()).prop_map(|(c, p)| COp::List { c, p }),
        3 => (c(), pfx(), pfx()).prop_map(|(c, p, q)| COp::MovePrefix { c, p, q }),
        2 => (c(), pfx()).prop_map(|(c, p)| COp::DelPrefix { c, p }),
        2 => (c(), prop::option::weighted(0.7, prop_oneof![2 => Just(0u32), 2 => 1u32..300, 4 => 0u32..60_000]), any::<bool>()).prop_map(|(c, max, nopunch)| COp::Limits { c, max, nopunch }),
        1 => c().prop_map(|c| COp::Cleanup { c }),
        8 => (c(), proptest::collection::vec(u(), 0..6), prop::option::weighted(0.5, pfx()), prop::bool::weighted(0.85), rival())
            .prop_map(|(c, ks, list, begin, rival)| COp::Reader { c, ks, list, begin, rival }),
        8 => (u(), u(), any::<u32>(), len(), u()).prop_map(|(i, j, off, len, far)| COp::ValueRead { i, j, off, len, far }),
        2 => (u(), u()).prop_map(|(i, j)| COp::ValueStat { i, j }),
        2 => u().prop_map(|i| COp::REnd { i }),
        5 => c().prop_map(|c| COp::WNew { c }),
        4 => u().prop_map(|b| COp::WBegin { b }),
        5 => (u(), u(), sz()).prop_map(|(b, w, size)| COp::WWrite { b, w, size }),
        4 => (u(), u(), u()).prop_map(|(b, w, k)| COp::WStage { b, w, k }),
        6 => (u(), u(), sz()).prop_map(|(b, k, size)| COp::WPut { b, k, size }),
        4 => (u(), u(), u(), u()).prop_map(|(b, i, j, k)| COp::WRename { b, i, j, k }),
        5 => u().prop_map(|b| COp::WCommit { b }),
    ]
    .boxed()
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    let mode = || prop_oneof![2 => Just(Mode::Seg), 1 => Just(Mode::Flock), 2 => Just(Mode::Clone)];
    let fault = || {
        (any::<u16>(), prop_oneof![
            3 => prop_oneof![Just(libc::ENOSPC), Just(libc::EIO)].prop_map(Fault::Errno),
            1 => Just(Fault::Short),
            1 => Just(Fault::Partial(libc::ENOSPC)),
        ])
    };
    let mk = |name, pct: f64, quick, thorough, nontrivial: fn(&Stats) -> bool, rule| -> Box<dyn DynCheck> {
        let strat = (mode(), any::<bool>(), any::<u32>(), sched(40), keys(1, 7), any::<bool>(), proptest::collection::vec(cop(), 3..40), if pct > 0.0 { fault().prop_map(Some).boxed() } else { Just(None).boxed() })
            .prop_map(|(mode, exdev, seed, sched, keys, null, ops, fault)| CCase { mode, exdev, seed, sched, keys, null, ops, fault })
            .boxed();
        Box::new(Check { name, strat, eval: Box::new(eval), nontrivial, rule, quick, thorough, shrinks: 400 })
    };
    vec![
        mk("calls", 0.0, 12_000, 300_000, |t| t.contains_key("c-puts") && t.contains_key("c-reads"), "sequences of C calls mixed with Rust calls on the same store; non-trivial: bytes written through C, and bytes read through C"),
        mk("faults", 1.0, 6000, 150_000, |t| t.contains_key("c-failed"), "the same with one file call failing inside a C function; non-trivial: the function reported an error"),
    ]
}
