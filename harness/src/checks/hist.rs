//! Checks that are histories of the Rust API against the model, with different emphasis.
use super::*;
use crate::data::SizeProfile;

fn base(o: Oracle) -> Profile {
    Profile {
        w: weights(&[
            ("put", 14), ("get", 6), ("del", 5), ("rename", 3), ("movepfx", 1), ("delpfx", 1), ("list", 2), ("import", 4),
            ("snap", 4), ("snappfx", 1), ("snapread", 3), ("snapdrop", 2), ("bnew", 3), ("bbegin", 3), ("bput", 4), ("bmany", 1), ("blend", 1), ("bwrite", 4), ("bcopypeek", 1), ("bretry", 1), ("bstage", 3),
            ("bimport", 1), ("brename", 2), ("bcommit", 3), ("bdrop", 1), ("open", 2), ("reopen", 2), ("close", 1), ("tick", 2),
            ("settle", 2), ("pause", 3), ("verify", 2), ("cleanup", 1),
        ]),
        sizes: SizeProfile::Mixed,
        ops: (1, 40),
        keys: (1, 9),
        modes: vec![(2, Mode::Seg), (2, Mode::Flock), (2, Mode::Clone)],
        preempt: 50,
        oracle: o,
        nopunch: false,
    }
}

fn mk(name: &'static str, p: Profile, rule: &'static str, nontrivial: fn(&Stats) -> bool, quick: u32, thorough: u32) -> Box<dyn DynCheck> {
    let (o, np) = (p.oracle, p.nopunch);
    Box::new(Check { name, strat: case(&p), eval: Box::new(move |c: &Case| run_history(c, o, np)), nontrivial, rule, quick, thorough, shrinks: 600 })
}
fn s(st: &Stats, k: &str) -> u64 {
    st.get(k).copied().unwrap_or(0)
}


/// The base profile with some weights changed.
fn with(o: Oracle, sizes: SizeProfile, ops: (usize, usize), keys: (usize, usize), preempt: u32, w: &[(&'static str, u32)]) -> Profile {
    let mut p = base(o);
    p.sizes = sizes;
    p.ops = ops;
    p.keys = keys;
    p.preempt = preempt;
    for (k, n) in w {
        p.w.insert(k, *n);
    }
    p
}

pub fn get(id: &str) -> Vec<Box<dyn DynCheck>> {
    let c = Oracle { contents: true, ..Default::default() };
    use SizeProfile::*;
    match id {
        "C01" => vec![mk(
            "history",
            with(Oracle { deep: true, ..c }, Mixed, (1, 40), (1, 9), 50, &[("verify", 5), ("limits", 0), ("bulk", 1)]),
            "operation histories over 1-3 handles in three read modes; non-trivial: at least 3 writes, an overwrite or delete, and values read back",
            |t| s(t, "puts") >= 3 && s(t, "overwrites") + s(t, "deletes") > 0 && s(t, "values-verified") > 0,
            12000,
            400_000,
        )],
        "C02" => vec![mk(
            "history",
            with(
                Oracle { deep: true, ..c },
                Mixed,
                (4, 40),
                (1, 6),
                30,
                &[
                    ("bnew", 8), ("bbegin", 8), ("bput", 12), ("bwrite", 10), ("bstage", 9), ("bimport", 3), ("brename", 7), ("bcommit", 9), ("bdrop", 4),
                    ("bcopyfail", 4), ("bcopypeek", 2), ("bretry", 6), ("blend", 5), ("open", 4), ("wdrop", 4), ("put", 6), ("verify", 5), ("import", 1), ("rename", 1), ("close", 1), ("reopen", 1),
                ],
            ),
            "histories of interleaved batches; non-trivial: a committed batch of several writes or renames, or an aborted batch, writer or copy that had data",
            |t| s(t, "multi-commits") + s(t, "aborted-with-data") + s(t, "writer-dropped-with-data") + s(t, "failed-copies") > 0 && s(t, "commits") > 0,
            12000,
            400_000,
        )],
        "C03" => vec![mk(
            "history",
            with(
                c,
                Mixed,
                (4, 45),
                (1, 6),
                60,
                &[
                    ("snap", 12), ("snappfx", 3), ("bulk", 1), ("snapread", 14), ("snapdrop", 2), ("get", 2), ("del", 10), ("delpfx", 3), ("rename", 3), ("movepfx", 2), ("limits", 2),
                    ("settle", 5), ("cleanup", 4), ("close", 3), ("reopen", 2), ("import", 4),
                ],
            ),
            "histories with held snapshots; non-trivial: a snapshot read after one of its keys was overwritten, deleted, moved or evicted",
            |t| s(t, "snapread-after-change") > 0,
            12000,
            400_000,
        )],
        "C04" => vec![mk(
            "history",
            with(
                c,
                Blocks,
                (6, 45),
                (2, 10),
                85,
                &[
                    ("put", 16), ("del", 16), ("delpfx", 2), ("blend", 4), ("bput", 10), ("bwrite", 6), ("bstage", 6), ("bcommit", 6), ("bnew", 5), ("bbegin", 6), ("brename", 2),
                    ("settle", 7), ("reopen", 4), ("close", 2), ("verify", 5), ("snap", 1), ("snapread", 1), ("limits", 1), ("wdrop", 2), ("bdrop", 2),
                ],
            ),
            "histories of block-sized and unaligned values with reclamation under generated schedules; non-trivial: an extent deleted beside a live value of the same file, and values read back",
            |t| s(t, "deleted-beside-live") > 0 && s(t, "values-verified") > 0,
            14000,
            500_000,
        )],
        "C05" => {
            let o = Oracle { reclaim: true, ..Default::default() };
            let w = [("put", 16u32), ("del", 14), ("delpfx", 3), ("blend", 3), ("bput", 8), ("bcommit", 5), ("brename", 3), ("snap", 4), ("snapdrop", 2), ("limits", 2), ("settle", 3), ("reopen", 3), ("close", 2), ("verify", 0)];
            let mut never = with(o, Blocks, (4, 40), (2, 8), 40, &w);
            never.nopunch = true;
            never.w.insert("limits", 0);
            let evicting = with(
                o,
                Blocks,
                (8, 40),
                (3, 10),
                40,
                &[("bulk", 1), ("put", 24), ("limits", 9), ("tick", 5), ("get", 5), ("bput", 8), ("bcommit", 5), ("del", 3), ("import", 1), ("snap", 1), ("snapdrop", 1), ("settle", 2), ("reopen", 2), ("close", 1), ("verify", 0)],
            );
            vec![
                mk(
                    "evicting",
                    evicting,
                    "the same with limits; non-trivial: an operation that evicted, and a deleted extent with whole blocks that must be free in the end",
                    |t| s(t, "reclaimed-regions") > 0 && s(t, "evicting-ops") > 0,
                    5000,
                    150_000,
                ),
                mk(
                    "history",
                    with(o, Blocks, (4, 40), (2, 8), 60, &w),
                    "histories ended by dropping all users and waiting; non-trivial: a deleted extent with whole blocks that must be free in the end",
                    |t| s(t, "reclaimed-regions") > 0,
                    10000,
                    300_000,
                ),
                mk(
                    "disabled",
                    never,
                    "the same with hole punching disabled on every handle; non-trivial: a deleted extent whose bytes must stay",
                    |t| s(t, "kept-regions") > 0,
                    3000,
                    100_000,
                ),
            ]
        }
        "C06" => vec![mk(
            "history",
            with(
                Oracle { limits: true, recency: true, ..Default::default() },
                Mixed,
                (6, 50),
                (2, 10),
                20,
                &[("bulk", 1), ("put", 20), ("limits", 7), ("tick", 8), ("get", 8), ("bput", 6), ("bcommit", 4), ("verify", 1), ("snap", 2), ("readabort", 2), ("reopen", 1), ("close", 1), ("cleanup", 0), ("settle", 1)],
            ),
            "histories with size limits on some handles and a virtual clock; non-trivial: an operation that evicted",
            |t| s(t, "evicting-ops") > 0,
            14000,
            500_000,
        )],
        "C07" => vec![mk(
            "history",
            with(
                Oracle { accounting: true, ..Default::default() },
                Mixed,
                (4, 45),
                (2, 12),
                40,
                &[("bulk", 1), ("limits", 2), ("bput", 8), ("bcommit", 6), ("brename", 4), ("rename", 6), ("movepfx", 3), ("delpfx", 3), ("bcopyfail", 2), ("wdrop", 2)],
            ),
            "histories with the accounting queries compared with the listing after every operation; non-trivial: values files with values checked and something deleted or overwritten",
            |t| s(t, "files-checked") > 2 && s(t, "deleted-extents") > 0,
            12000,
            400_000,
        )],
        "C08" => vec![mk(
            "history",
            with(
                Oracle { contents: true, recency: true, ..Default::default() },
                Small,
                (4, 40),
                (3, 16),
                10,
                &[("bulk", 2), ("list", 12), ("delpfx", 8), ("movepfx", 12), ("put", 24), ("tick", 4), ("verify", 3), ("bput", 1), ("import", 1), ("snap", 1), ("limits", 0)],
            ),
            "histories of prefix operations over keys that share prefixes; non-trivial: a prefix that selects some but not all keys listed, deleted or moved",
            |t| s(t, "list-partial") + s(t, "movepfx-partial") + s(t, "delpfx-partial") > 0,
            14000,
            500_000,
        )],
        "C09" => vec![mk(
            "history",
            with(
                Oracle { contents: true, recency: true, ..Default::default() },
                Mixed,
                (4, 40),
                (2, 7),
                20,
                &[("rename", 14), ("brename", 16), ("bnew", 6), ("bcommit", 9), ("snap", 12), ("tick", 4), ("verify", 4), ("del", 5), ("bput", 5), ("limits", 0)],
            ),
            "histories of renames; non-trivial: a rename that moved a value, hit an existing key, or found its value gone",
            |t| s(t, "renames") + s(t, "rename-over") + s(t, "rename-collision") + s(t, "stale-rename") + s(t, "self-rename") > 1,
            14000,
            500_000,
        )],
        "C11" => vec![mk(
            "history",
            with(
                c,
                Mixed,
                (3, 35),
                (1, 7),
                30,
                &[("import", 24), ("bimport", 12), ("bnew", 7), ("bcommit", 8), ("put", 12), ("verify", 5), ("bput", 5), ("bwrite", 5), ("bbegin", 4), ("bstage", 4), ("limits", 0)],
            ),
            "histories of imports of files with holes and arbitrary positions, with cloning working, unsupported and failing across devices; non-trivial: two imports and values read back",
            |t| s(t, "imports") + s(t, "batch-imports") >= 2 && s(t, "values-verified") > 0,
            12000,
            400_000,
        )],
        "C20" => {
            let mut p = with(
                Oracle { contents: true, dirs: true, ..Default::default() },
                Mixed,
                (4, 40),
                (1, 6),
                50,
                &[("snap", 14), ("snappfx", 2), ("snapread", 10), ("snapdrop", 8), ("cleanup", 10), ("get", 4), ("del", 6), ("close", 3), ("reopen", 3), ("limits", 0), ("leak", 5)],
            );
            p.modes = vec![(5, Mode::Clone), (1, Mode::Seg), (1, Mode::Flock)];
            vec![mk(
                "history",
                p,
                "histories of snapshots, leaked and crashed snapshot directories and cleanups; non-trivial: a cleanup while a snapshot is held, or one that removes a leaked snapshot",
                |t| s(t, "cleanup-with-live") + s(t, "cleanup-removed") > 0,
                12000,
                400_000,
            )]
        }
        "C21" => vec![mk(
            "history",
            with(
                Oracle { recency: true, ..Default::default() },
                Small,
                (4, 45),
                (2, 7),
                20,
                &[("tick", 16), ("get", 10), ("snap", 8), ("snappfx", 3), ("bulk", 1), ("readabort", 6), ("rename", 5), ("brename", 4), ("list", 3), ("bput", 6), ("bcommit", 6), ("limits", 0)],
            ),
            "histories with a virtual clock; non-trivial: at least two reads or writes of existing values and the clock moved between",
            |t| s(t, "ticks") > 1 && s(t, "get-hit") + s(t, "snapshots") + s(t, "overwrites") > 1,
            14000,
            500_000,
        )],
        _ => vec![],
    }
}
