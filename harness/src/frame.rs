//! Runs checks: generates cases, evaluates them, shrinks failures, replays, reports.
use crate::child::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub type Stats = BTreeMap<String, u64>;
/// Err: the check itself could not decide (never a violation).
pub type Eval = Result<Outcome, String>;

pub struct Check<C> {
    pub name: &'static str,
    pub strat: BoxedStrategy<C>,
    pub eval: Box<dyn Fn(&C) -> Eval>,
    /// Is a passed case non-trivial, by its counters?
    pub nontrivial: fn(&Stats) -> bool,
    pub rule: &'static str,
    /// total cases over all workers
    pub quick: u32,
    pub thorough: u32,
    pub shrinks: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub check: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct: Vec<u64>,
    pub stats: Stats,
    pub hits: Stats,
    pub samples: Vec<serde_json::Value>,
    pub violation: Option<Replay>,
    pub known_hits: Stats,
    pub error: Option<String>,
    /// blocks of the code under test that were reached
    #[serde(default)]
    pub blocks: Vec<u32>,
    #[serde(default)]
    pub all_blocks: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub check: String,
    pub kind: String,
    pub msg: String,
    pub case: serde_json::Value,
}

pub trait DynCheck {
    fn name(&self) -> &'static str;
    fn work(&self, id: &str, seed: u64, idx: u32, n: u32, thorough: bool, scale: f64) -> Report;
    fn replay(&self, case: &serde_json::Value) -> Eval;
}

fn hash<C: Hash>(c: &C) -> u64 {
    // A fixed-key hasher, the same in every process.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn rng_seed(seed: u64, id: &str, name: &str, idx: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        c.copy_from_slice(&hash(&(seed, id, name, idx, i as u64)).to_le_bytes());
    }
    out
}

impl<C> DynCheck for Check<C>
where
    C: Clone + std::fmt::Debug + Hash + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn replay(&self, case: &serde_json::Value) -> Eval {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("replay file: {e}"))?;
        (self.eval)(&c)
    }
    fn work(&self, id: &str, seed: u64, idx: u32, n: u32, thorough: bool, scale: f64) -> Report {
        let mut rep = Report { check: self.name.into(), rule: self.rule.into(), ..Default::default() };
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(seed, id, self.name, idx)),
        );
        let total = ((if thorough { self.thorough } else { self.quick }) as f64 * scale).ceil() as u32;
        let mine = total / n + (idx < total % n) as u32;
        let mut seen = HashSet::new();
        let mut unrepeated = 0;
        for _ in 0..mine {
            let mut tree = match self.strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    rep.error = Some(format!("generator: {e}"));
                    return rep;
                }
            };
            let c = tree.current();
            let h = hash(&c);
            rep.evaluations += 1;
            let o = match (self.eval)(&c) {
                Ok(o) => o,
                Err(e) => {
                    let p = scratch_base().join("inconclusive.json");
                    let _ = std::fs::write(&p, serde_json::to_vec(&Replay { property: id.into(), check: self.name.into(), kind: "error".into(), msg: e.clone(), case: serde_json::to_value(&c).unwrap() }).unwrap());
                    if std::env::var_os("PV_KEEP").is_some() {
                        let _ = std::fs::copy(&p, format!("/tmp/pv-inconclusive-{id}-{idx}.json"));
                    }
                    rep.error = Some(format!("{}: {e}", self.name));
                    return rep;
                }
            };
            for (k, v) in &o.stats {
                *rep.stats.entry(k.clone()).or_default() += v;
                if *v > 0 {
                    *rep.hits.entry(k.clone()).or_default() += 1;
                }
            }
            let Some(f) = o.fail else {
                if (self.nontrivial)(&o.stats) && seen.insert(h) {
                    rep.distinct.push(h);
                    if rep.samples.len() < 2 {
                        rep.samples.push(serde_json::to_value(&c).unwrap());
                    }
                }
                continue;
            };
            // Shrink, keeping the kind of failure.
            let (mut best, mut bf) = (c, f);
            let mut left = self.shrinks;
            let mut more = tree.simplify();
            while more && left > 0 {
                left -= 1;
                let c = tree.current();
                more = match (self.eval)(&c) {
                    Ok(Outcome { fail: Some(f), .. }) if f.kind == bf.kind => {
                        best = c;
                        bf = f;
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
            }
            // The shrunk case must fail again from a fresh process. Something that depends on what is
            // not simulated may take several attempts.
            let again = (0..12).find_map(|_| match (self.eval)(&best) {
                Ok(Outcome { fail: Some(f), .. }) => Some(f),
                _ => None,
            });
            let Some(f) = again else {
                if std::env::var_os("PV_KEEP").is_some() {
                    let _ = std::fs::write(format!("/tmp/pv-flaky-{id}-{idx}.json"), serde_json::to_vec(&Replay { property: id.into(), check: self.name.into(), kind: bf.kind, msg: bf.msg, case: serde_json::to_value(&best).unwrap() }).unwrap());
                }
                *rep.stats.entry("failures-that-never-repeated".into()).or_default() += 1;
                unrepeated += 1;
                if unrepeated > 3 {
                    rep.error = Some(format!("{}: failures do not repeat", self.name));
                    return rep;
                }
                continue;
            };
            bf = f;
            rep.violation = Some(Replay { property: id.into(), check: self.name.into(), kind: bf.kind, msg: bf.msg, case: serde_json::to_value(&best).unwrap() });
            return rep;
        }
        rep
    }
}

/// Evaluates `f` in a forked child.
pub fn in_child(timeout_s: u64, f: impl FnOnce() -> Outcome) -> Eval {
    classify(fork_run(timeout_s, f))
}
pub fn classify(e: ChildEnd) -> Eval {
    match e {
        ChildEnd::Done(o) => Ok(o),
        ChildEnd::Died(msg, Some(s)) if matches!(s, libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE) => {
            Ok(Outcome { fail: Some(Fail { kind: "signal".into(), msg }), ..Default::default() })
        }
        ChildEnd::Died(msg, _) => Err(msg),
        ChildEnd::Exited(c) => Err(format!("case process exited with {c}")),
        ChildEnd::Timeout => Err("case timed out".into()),
    }
}
