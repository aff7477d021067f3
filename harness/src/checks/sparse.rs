//! C18: hole punching, hole seeking, region iteration and file cloning against a model of a file.
use super::*;
use crate::check;
use crate::data::*;
use possum::sys::seekhole::{file_regions, seek_hole_whence, Iter, Region, RegionType};
use possum::sys::{clonefile, fclonefile_noflags, path_disk_allocation, punchfile, CloneFileError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::io::{Seek, SeekFrom};
use std::os::unix::fs::FileExt;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Op {
    Write { off: u32, len: u32 },
    Punch { off: u32, len: u32 },
    SetLen { len: u32 },
    Regions { cursor: u32 },
    /// stops part-way, changes the file behind the iterator, and goes on
    Resume { n: u8, append: u32 },
    Check { off: u32, len: u32 },
    SeekTo { off: u32, data: bool },
    /// from the beginning of the file
    PunchTo { len: u32 },
    CheckTo { len: u32 },
    SeekStart { data: bool },
    Clone { by_path: bool, cursor: u32 },
    /// onto a file that exists
    CloneOver,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct SCase {
    works: bool,
    /// the history takes place beyond a hole of this size
    #[serde(default)]
    base: u64,
    exdev: bool,
    ops: Vec<Op>,
}

const B: u32 = BS;
fn pos() -> BoxedStrategy<u32> {
    prop_oneof![4 => (0u32..12, -1i32..2).prop_map(|(k, d)| (k as i32 * B as i32 + d).max(0) as u32), 3 => (0u32..12).prop_map(|k| k * B), 2 => 0u32..12 * B].boxed()
}
fn len() -> BoxedStrategy<u32> {
    prop_oneof![3 => (1u32..6).prop_map(|k| k * B), 3 => 1u32..3 * B, 2 => (1u32..4, -1i32..2).prop_map(|(k, d)| (k as i32 * B as i32 + d) as u32), 1 => 1u32..9].boxed()
}
fn strat() -> BoxedStrategy<SCase> {
    let op = prop_oneof![
        7 => (pos(), len()).prop_map(|(off, len)| Op::Write { off, len }),
        6 => (pos(), len()).prop_map(|(off, len)| Op::Punch { off, len }),
        2 => pos().prop_map(|len| Op::SetLen { len }),
        4 => pos().prop_map(|cursor| Op::Regions { cursor }),
        1 => (0u8..5, len()).prop_map(|(n, append)| Op::Resume { n, append }),
        5 => (pos(), prop_oneof![1 => Just(0u32), 8 => len()]).prop_map(|(off, len)| Op::Check { off, len }),
        3 => (pos(), any::<bool>()).prop_map(|(off, data)| Op::SeekTo { off, data }),
        3 => (any::<bool>(), pos()).prop_map(|(by_path, cursor)| Op::Clone { by_path, cursor }),
        1 => Just(Op::CloneOver),
        1 => len().prop_map(|len| Op::PunchTo { len }),
        1 => pos().prop_map(|len| Op::CheckTo { len }),
        1 => any::<bool>().prop_map(|data| Op::SeekStart { data }),
    ];
    let base = prop_oneof![
        6 => Just(0u64),
        // Where the history straddles the limits of narrower integers, and beyond them.
        2 => (31u32..42, 0u64..14).prop_map(|(b, k)| (1u64 << b) - k * B as u64),
        1 => (1u64..1 << 30).prop_map(|k| k * B as u64),
    ];
    (prop::bool::weighted(0.8), base, prop::bool::weighted(0.15), proptest::collection::vec(op, 1..30)).prop_map(|(works, base, exdev, ops)| SCase { works, base, exdev, ops }).boxed()
}

struct M {
    f: File,
    path: std::path::PathBuf,
    base: u64,
    /// from the base on
    data: Vec<u8>,
    /// allocated blocks
    alloc: std::collections::BTreeSet<u32>,
    tag: u64,
}
impl M {
    fn resize(&mut self, n: u32) {
        self.data.resize(n as usize, 0);
        self.alloc.retain(|b| b * B < n);
    }
    fn write(&mut self, off: u32, len: u32) {
        self.tag += 1;
        let d = content(self.tag, len as usize);
        self.f.write_all_at(&d, self.base + off as u64).unwrap();
        let end = (off + len) as usize;
        if self.data.len() < end {
            self.data.resize(end, 0);
        }
        self.data[off as usize..end].copy_from_slice(&d);
        self.alloc.extend(off / B..(off + len).div_ceil(B));
    }
    fn end(&self) -> u64 {
        self.base + self.data.len() as u64
    }
    /// The bytes from the base on, of a file whose length has been checked.
    fn read(&self, path: &std::path::Path, what: &str) -> R<Vec<u8>> {
        let f = File::open(path).unwrap();
        let n = f.metadata().unwrap().len();
        check!(n >= self.base, "length", "{what}: {} is {n} bytes long", path.display());
        let mut v = vec![0; (n - self.base) as usize];
        f.read_exact_at(&mut v, self.base).unwrap();
        Ok(v)
    }
    fn regions(&self) -> Vec<Region> {
        let n = self.data.len() as u64;
        let mut v: Vec<Region> = vec![];
        if self.base > 0 {
            v.push(Region { region_type: RegionType::Hole, start: 0, end: self.base });
        }
        for b in 0..(n.div_ceil(B as u64)) as u32 {
            let t = if self.alloc.contains(&b) { RegionType::Data } else { RegionType::Hole };
            let (start, end) = (self.base + (b * B) as u64, self.base + (((b + 1) * B) as u64).min(n));
            match v.last_mut() {
                Some(r) if r.region_type == t => r.end = end,
                _ => v.push(Region { region_type: t, start, end }),
            }
        }
        v
    }
    fn same(&self, what: &str) -> R<()> {
        let got = self.read(&self.path, what)?;
        check!(got == self.data, "content", "{what}: {}", diff(&got, &self.data));
        // What the kernel says, by a descriptor of our own.
        let f = File::open(&self.path).unwrap();
        let lead = crate::engine::first_data(&f, 0);
        check!(self.base == 0 || lead.is_none_or(|d| d >= self.base), "allocation", "{what}: data at {lead:?}");
        let mut p = 0u64;
        while p < self.data.len() as u64 {
            let d = crate::engine::first_data(&f, self.base + p);
            let b = (p / B as u64) as u32;
            let is = d == Some(self.base + p);
            check!(is == self.alloc.contains(&b), "allocation", "{what}: block {b} allocated: {is}, want {}", !is);
            p += B as u64;
        }
        let a = path_disk_allocation(&self.path).unwrap();
        check!(a == self.alloc.len() as u64 * B as u64, "disk-allocation", "{what}: path_disk_allocation {a}, want {} blocks", self.alloc.len());
        Ok(())
    }
}
use crate::engine::to_ops as io;

fn run(c: &SCase, dir: &std::path::Path, o: &mut Outcome) -> R<()> {
    // Cloning recognises values files by their name.
    let path = dir.join("values-src");
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
    f.set_len(c.base).unwrap();
    if c.base > u32::MAX as u64 {
        o.bump("beyond-4-GiB", 1);
    }
    let mut m = M { f, path, base: c.base, data: vec![], alloc: Default::default(), tag: 0 };
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("step {step} {op:?}");
        match op {
            Op::Write { off, len } => m.write(*off, *len),
            Op::SetLen { len } => {
                m.f.set_len(m.base + *len as u64).unwrap();
                // Shrinking within a block keeps the block.
                m.resize(*len);
            }
            Op::Punch { .. } | Op::PunchTo { .. } => {
                let (off, len, from_start) = match op {
                    Op::Punch { off, len } => (off, len, false),
                    Op::PunchTo { len } => (&0, len, true),
                    _ => unreachable!(),
                };
                let before = m.f.metadata().unwrap().len();
                if from_start {
                    io(punchfile(&m.f, 0, m.base + *len as u64), "punchfile")?;
                } else {
                    io(punchfile(&m.f, m.base + *off as u64, *len as u64), "punchfile")?;
                }
                check!(m.f.metadata().unwrap().len() == before, "length", "{what}: length changed");
                let (s, e) = (off.div_ceil(B), (off + len) / B);
                let n = m.data.len();
                for b in s..e {
                    if m.alloc.remove(&b) {
                        o.bump("punched-blocks", 1);
                    }
                    let (x, y) = ((b * B) as usize, ((b + 1) * B) as usize);
                    if x < n {
                        m.data[x..y.min(n)].fill(0);
                    }
                }
                // A last block that ends the file counts as whole to the kernel only if it is.
                let got = m.read(&m.path, &what)?;
                check!(got.len() == n, "length", "{what}: length changed");
                // Parts of blocks may or may not be zeroed.
                for i in (*off as usize).min(n)..((off + len) as usize).min(n) {
                    if got[i] == 0 {
                        m.data[i] = 0;
                    }
                }
                o.bump("punches", 1);
            }
            Op::Regions { cursor } => {
                m.f.seek(SeekFrom::Start(m.base + *cursor as u64)).unwrap();
                let got = io(file_regions(&mut m.f), "file_regions")?;
                let want = m.regions();
                check!(got == want, "regions", "{what}: {got:?}, want {want:?}");
                for r in &got {
                    check!(r.length() == r.end - r.start, "region-length", "{r:?}");
                }
                o.bump("regions", 1);
                if got.len() > 2 {
                    o.bump("regions-many", 1);
                }
            }
            Op::Resume { n, append } => {
                // What was yielded before stays as it is; the rest covers the appended data.
                let mut f2 = m.f.try_clone().unwrap();
                let mut it = Iter::new(&mut f2);
                let mut got = vec![];
                for _ in 0..*n {
                    match it.next() {
                        Some(r) => got.push(io(r, "Iter::next")?),
                        None => break,
                    }
                }
                let at = m.data.len().div_ceil(B as usize) as u32 * B;
                m.write(at, *append);
                for r in it {
                    got.push(io(r, "Iter::next")?);
                }
                let mut p = 0;
                for r in &got {
                    check!(r.start == p && r.end > r.start, "regions", "{what}: {got:?} is not consecutive");
                    p = r.end;
                    check!(r.start >= m.base || r.region_type == RegionType::Hole, "regions", "{what}: {r:?}");
                    for b in (r.start.saturating_sub(m.base) / B as u64)..r.end.saturating_sub(m.base).div_ceil(B as u64) {
                        if r.end <= m.base || (r.start < m.base && m.alloc.contains(&(b as u32))) {
                            // the last case is reported by the content of the next region
                            check!(r.end <= m.base, "regions", "{what}: {r:?} disagrees with block {b}");
                            continue;
                        }
                        check!(m.alloc.contains(&(b as u32)) == (r.region_type == RegionType::Data), "regions", "{what}: {r:?} disagrees with block {b}");
                    }
                }
                check!(p == m.end(), "regions", "{what}: ends at {p}, file at {}", m.end());
                o.bump("resumed", 1);
            }
            Op::Check { .. } | Op::CheckTo { .. } => {
                let (a, b) = match op {
                    Op::Check { off, len } => (m.base + *off as u64, m.base + (*off + *len) as u64),
                    Op::CheckTo { len } => (0, m.base + *len as u64),
                    _ => unreachable!(),
                };
                // Data of the file within the range.
                let has = m.regions().iter().any(|r| r.region_type == RegionType::Data && r.start < b && r.end > a && b > a);
                let r = possum::check_hole(&mut m.f, a, b - a);
                check!(r.is_ok() != has, "check-hole", "{what}: {} though the range {} data", if r.is_ok() { "succeeds" } else { "fails" }, if has { "holds" } else { "does not hold" });
                o.bump(if has { "checked-data" } else { "checked-holes" }, 1);
            }
            Op::SeekTo { .. } | Op::SeekStart { .. } => {
                let (off, data) = match op {
                    Op::SeekTo { off, data } => (m.base + *off as u64, data),
                    Op::SeekStart { data } => (0, data),
                    _ => unreachable!(),
                };
                let t = if *data { RegionType::Data } else { RegionType::Hole };
                let n = m.end();
                let got = io(seek_hole_whence(&mut m.f, off, t), "seek_hole_whence")?;
                let want = if off >= n {
                    None
                } else {
                    let rs = m.regions();
                    let next = rs.iter().filter(|r| r.region_type == t && r.end > off).map(|r| r.start.max(off)).next();
                    // The end of the file is a hole.
                    if *data { next } else { next.or(Some(n)) }
                };
                check!(got == want, "seek", "{what}: {got:?}, want {want:?}");
            }
            Op::Clone { by_path, cursor } => {
                let dst = dir.join(format!("values-{step}"));
                let cur = m.f.seek(SeekFrom::Start(m.base + *cursor as u64)).unwrap();
                let r = if *by_path { clonefile(&m.path, &dst) } else { fclonefile_noflags(&m.f, &dst) };
                check!(m.f.stream_position().unwrap() == cur, "clone-moved", "{what}: cloning moved the position of the source");
                match r {
                    Err(e) => {
                        check!(!c.works, "clone-failed", "{what}: {e:?}");
                        check!(CloneFileError::is_unsupported(&e), "clone-error", "{what}: {e:?} is not reported as unsupported");
                        check!(!dst.exists(), "clone-stray", "{what}: a failed clone leaves a file behind");
                        o.bump("clones-unsupported", 1);
                    }
                    Ok(()) => {
                        check!(c.works, "clone-unsupported", "{what}: succeeds though the filesystem cannot clone");
                        let got = m.read(&dst, &what)?;
                        check!(got == m.data, "clone-content", "{what}: {}", diff(&got, &m.data));
                        // Each stays as it is when the other changes.
                        let g = std::fs::OpenOptions::new().write(true).open(&dst).unwrap();
                        g.write_all_at(&[0x5a; 100], m.base).unwrap();
                        g.set_len(m.base + 50).unwrap();
                        let src = m.read(&m.path, &what)?;
                        check!(src == m.data, "clone-shared", "{what}: changing the clone changed the source");
                        std::fs::remove_file(&dst).unwrap();
                        o.bump("clones", 1);
                        if m.regions().len() > 1 {
                            o.bump("clones-sparse", 1);
                        }
                    }
                }
            }
            Op::CloneOver => {
                let dst = dir.join(format!("values-{step}"));
                let old = content(step as u64 + 77, 3000);
                std::fs::write(&dst, &old[..]).unwrap();
                let r = fclonefile_noflags(&m.f, &dst);
                let got = std::fs::read(&dst).unwrap();
                check!(r.is_err(), "clone-over", "{what}: cloning onto an existing file succeeds");
                check!(got == *old, "clone-over", "{what}: cloning onto an existing file changed it: {}", diff(&got, &old));
                std::fs::remove_file(&dst).unwrap();
                o.bump("clones-over", 1);
            }
        }
        m.same(&what)?;
    }
    Ok(())
}

pub fn get() -> Vec<Box<dyn DynCheck>> {
    vec![Box::new(Check {
        name: "sparse",
        strat: strat(),
        eval: Box::new(|c: &SCase| {
            let mode = if c.works { Mode::Clone } else { Mode::Seg };
            simulated(mode, c.exdev && !c.works, &sim::Sched::default(), 1, |dir, o| run(c, dir, o))
        }),
        nontrivial: |t| {
            let g = |k: &str| t.get(k).copied().unwrap_or(0);
            g("punched-blocks") + g("clones-sparse") > 0 && g("regions-many") + g("checked-holes") + g("clones-sparse") > 0
        },
        rule: "histories of writes, truncations, punches, region iterations, hole checks and clones of one file against a model of its bytes and blocks; non-trivial: a block was punched or a sparse file cloned, and regions or holes looked at",
        quick: 40000,
        thorough: 2_000_000,
        shrinks: 500,
    })]
}
