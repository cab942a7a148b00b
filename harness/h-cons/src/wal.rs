//! P50: what a validator wrote to its logs is what it reads after a crash.
use core_consensus::{ConsensusWal, SignedTxsWAL};
use protocol::traits::{Context, MessageCodec};
use protocol::types::*;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::time::Duration;
use vlib::{guard, hex, json, Ctx, Rng};

type Files = BTreeMap<PathBuf, Vec<u8>>;
pub fn files(dir: &Path) -> Files {
    let mut out = Files::new();
    let mut todo = vec![dir.to_owned()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else {
                out.insert(e.path(), std::fs::read(e.path()).unwrap());
            }
        }
    }
    out
}
/// the files a write left new or different
fn touched(before: &Files, after: &Files) -> Vec<PathBuf> {
    after.iter().filter(|(p, v)| before.get(*p) != Some(v)).map(|(p, _)| p.clone()).collect()
}
/// run with room for that many bytes in any file
fn short_of_space<T>(room: usize, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        let new = libc::rlimit { rlim_cur: room as libc::rlim_t, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let out = f();
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &old), 0);
        out
    }
}
/// a root that looks like another one at both ends
fn like(r: &mut Rng, h: &H256) -> H256 {
    let mut x = h.0;
    let n = r.range(1, 28) as usize;
    for _ in 0..n {
        let i = r.range(2, 29) as usize;
        x[i] = r.u64() as u8;
    }
    H256(x)
}
fn txs(r: &mut Rng, max: usize) -> Vec<SignedTransaction> {
    (0..r.below(max + 1)).map(|_| gen::signed(r)).collect()
}

pub fn p50(c: &mut Ctx) {
    c.stage("txs-wal");
    for n in 0..c.scale(300, 20000) {
        if !c.within(0.45) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| txs_history(c, n, &mut trail)) {
            c.violate("txs-wal/panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
    c.stage("overlord-wal");
    for n in 0..c.scale(300, 20000) {
        if !c.within(0.9) || c.violated() {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| overlord_history(c, n, &mut trail)) {
            c.violate("overlord-wal/panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}

#[derive(Clone)]
enum Saved {
    Whole(Vec<SignedTransaction>),
    Torn(Vec<SignedTransaction>),
}
fn txs_history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let dir = c.scratch.join(format!("t{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    let mut r = c.rng.fork();
    let mut wal = SignedTxsWAL::new(&dir);
    let mut model: BTreeMap<u64, HashMap<H256, Saved>> = BTreeMap::new();
    let base = r.edge_u64().min(u64::MAX - 40);
    let mut roots: Vec<H256> = vec![gen::h256(&mut r)];
    let bad = |c: &mut Ctx, key: &str, what: String, trail: &Vec<String>| {
        c.violate(key, what, json!({"history": n, "trail": trail.iter().rev().take(30).rev().collect::<Vec<_>>()}))
    };
    for _ in 0..r.range(5, 40) {
        match r.below(12) {
            0..=4 => {
                let number = base + r.below(8) as u64;
                let root = match r.below(4) {
                    0 => gen::h256(&mut r),
                    1 | 2 => {
                        let h = *r.pick(&roots);
                        like(&mut r, &h)
                    }
                    _ => *r.pick(&roots),
                };
                // one root stands for one list
                let list = match model.get(&number).and_then(|m| m.get(&root)) {
                    Some(Saved::Whole(l)) | Some(Saved::Torn(l)) => {
                        c.event("saved again");
                        l.clone()
                    }
                    None => txs(&mut r, 6),
                };
                roots.push(root);
                trail.push(format!("save {number} {root:x} {} txs", list.len()));
                // the disk fills up, or the machine stops, part way through the write
                let size = BatchSignedTxs::new(list.clone()).encode_msg().unwrap().len();
                let room = if r.chance(1, 3) { Some(r.below(size)) } else { None };
                let out = match room {
                    Some(n) => short_of_space(n, || wal.save(number, root, list.clone())),
                    None => wal.save(number, root, list.clone()),
                };
                let m = model.entry(number).or_default();
                match (room, out) {
                    (None, Err(e)) => return bad(c, "txs-wal/save-fails", e.to_string(), trail),
                    (None, Ok(())) => {
                        c.event("transaction lists saved");
                        m.insert(root, Saved::Whole(list));
                    }
                    (Some(k), Ok(())) => return bad(c, "txs-wal/save-lies", format!("{k} of {size} bytes written, and no error"), trail),
                    (Some(k), Err(_)) => {
                        trail.push(format!("stopped after {k} of {size} bytes"));
                        c.event("writes cut short");
                        m.entry(root).or_insert(Saved::Torn(list));
                        wal = SignedTxsWAL::new(&dir);
                    }
                }
            }
            5..=7 => {
                let number = base + r.below(8) as u64;
                let known: Vec<H256> = model.get(&number).map(|m| m.keys().cloned().collect()).unwrap_or_default();
                let root = if known.is_empty() || r.chance(1, 4) {
                    let h = *r.pick(&roots);
                    like(&mut r, &h)
                } else {
                    *r.pick(&known)
                };
                let got = wal.load(number, root);
                c.event("lists read back");
                c.event("oracle.judgements");
                let name = format!("load {number} {root:x}");
                match (model.get(&number).and_then(|m| m.get(&root)), got) {
                    (Some(Saved::Whole(l)), Ok(g)) if *l == g => c.event("lists read back whole"),
                    (Some(Saved::Whole(l)), Ok(g)) => return bad(c, "txs-wal/other-list", format!("{name}: {} transactions saved, {} others read", l.len(), g.len()), trail),
                    (Some(Saved::Whole(_)), Err(e)) => return bad(c, "txs-wal/lost", format!("{name}: {e}"), trail),
                    (Some(Saved::Torn(_)), Err(_)) => c.event("torn lists refused"),
                    (Some(Saved::Torn(l)), Ok(g)) => {
                        if *l != g {
                            return bad(c, "txs-wal/torn-list-read", format!("{name}: a torn list of {} reads as {}", l.len(), g.len()), trail);
                        }
                    }
                    (None, Err(_)) => c.event("unknown lists refused"),
                    (None, Ok(g)) => return bad(c, "txs-wal/never-saved", format!("{name}: {} transactions of a list that was never saved", g.len()), trail),
                }
            }
            8 => {
                let number = base + r.below(8) as u64;
                let mut left: Vec<Hash> = wal.load_by_number(number).iter().map(|t| t.transaction.hash).collect();
                let all = left.len();
                let mut want = 0;
                let mut missing = 0;
                for s in model.get(&number).into_iter().flat_map(|m| m.values()) {
                    if let Saved::Whole(l) = s {
                        for t in l {
                            want += 1;
                            match left.iter().position(|h| *h == t.transaction.hash) {
                                Some(i) => drop(left.swap_remove(i)),
                                None => missing += 1,
                            }
                        }
                    }
                }
                // a list that could not be saved may be there whole, never in part
                for s in model.get(&number).into_iter().flat_map(|m| m.values()) {
                    if let Saved::Torn(l) = s {
                        if l.iter().all(|t| left.contains(&t.transaction.hash)) {
                            left.retain(|h| l.iter().all(|t| t.transaction.hash != *h));
                        }
                    }
                }
                c.event("heights recovered");
                c.event("oracle.judgements");
                if missing > 0 || !left.is_empty() {
                    return bad(c, "txs-wal/recovery", format!("height {number}: {want} transactions saved, {all} recovered, {missing} missing, {} strangers", left.len()), trail);
                }
            }
            9 => {
                let number = (base + r.below(8) as u64).saturating_sub(r.below(3) as u64);
                trail.push(format!("remove {number}"));
                if let Err(e) = wal.remove(number) {
                    return bad(c, "txs-wal/remove-fails", e.to_string(), trail);
                }
                model.retain(|k, _| *k > number);
                c.event("heights removed");
                c.event("oracle.judgements");
            }
            10 => {
                trail.push("reopen".into());
                wal = SignedTxsWAL::new(&dir);
                c.event("restarts");
            }
            _ => {
                let mut got = match wal.available_number() {
                    Ok(g) => g,
                    Err(e) => return bad(c, "txs-wal/heights-fail", e.to_string(), trail),
                };
                got.sort();
                got.retain(|n| model.get(n).map_or(true, |m| m.values().any(|s| matches!(s, Saved::Whole(_)))));
                let want: Vec<u64> = model.iter().filter(|(_, m)| m.values().any(|s| matches!(s, Saved::Whole(_)))).map(|(n, _)| *n).collect();
                if got != want {
                    return bad(c, "txs-wal/heights", format!("kept {want:?}, listed {got:?}"), trail);
                }
            }
        }
    }
    if r.chance(1, 3) {
        wal.remove_all().unwrap();
        if !files(&dir).is_empty() {
            return bad(c, "txs-wal/remove-all", "files are left".into(), trail);
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
}

/// read the log as a starting node does; a node that never gets past it has not read it
fn load(dir: &Path) -> Option<Result<Vec<u8>, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    let dir = dir.to_owned();
    std::thread::spawn(move || {
        let out = guard(|| ConsensusWal::new(&dir).load_overlord_wal(Context::new()).map(|b| b.to_vec()).map_err(|e| e.to_string()));
        let _ = tx.send(out.unwrap_or_else(|p| Err(format!("panic: {}", p.msg))));
    });
    rx.recv_timeout(Duration::from_secs(60)).ok()
}
fn overlord_history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let dir = c.scratch.join(format!("o{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    let mut r = c.rng.fork();
    let mut wal = ConsensusWal::new(&dir);
    // what a reader may find, most recent first: the last whole record, or after a crash what was there before
    let mut allowed: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(2, 14) {
        match r.below(8) {
            0..=3 => {
                let info = match r.below(5) {
                    0 => vec![],
                    1 => r.bytes(31),
                    _ => r.edge_bytes(400),
                };
                trail.push(format!("save {} bytes", info.len()));
                let before = files(&dir);
                if let Err(e) = wal.update_overlord_wal(Context::new(), info.clone().into()) {
                    return c.violate("overlord-wal/save-fails", e.to_string(), json!({"history": n, "trail": trail}));
                }
                c.event("records saved");
                let after = files(&dir);
                let new = touched(&before, &after);
                if r.chance(1, 2) && new.len() == 1 {
                    // it stopped while the record was being written: what was there before is still there
                    let full = &after[&new[0]];
                    let keep = if r.bool() { r.below(full.len()) } else { r.below(33.min(full.len())) };
                    for (p, v) in &before {
                        std::fs::write(p, v).unwrap();
                    }
                    std::fs::write(&new[0], &full[..keep]).unwrap();
                    trail.push(format!("torn at {keep} of {}", full.len()));
                    c.event("records torn by a crash");
                    c.seen("torn-at", keep);
                    wal = ConsensusWal::new(&dir);
                    // the prefix is never a record of its own
                } else if r.chance(1, 6) && new.len() == 1 && !before.is_empty() {
                    let mut full = after[&new[0]].clone();
                    let i = r.below(full.len());
                    full[i] ^= 1 << r.below(8);
                    for (p, v) in &before {
                        std::fs::write(p, v).unwrap();
                    }
                    std::fs::write(&new[0], &full).unwrap();
                    trail.push(format!("bit of byte {i} flipped"));
                    c.event("records corrupted");
                } else {
                    allowed = vec![info];
                }
            }
            4 => {
                // the clock was ahead when the records were written, and has been set right since
                for (p, v) in files(&dir) {
                    let name = p.file_name().unwrap().to_str().unwrap().parse::<u128>();
                    if let Ok(t) = name {
                        std::fs::remove_file(&p).unwrap();
                        std::fs::write(p.with_file_name((t + 3_600_000).to_string()), v).unwrap();
                        c.event("clock set back");
                    }
                }
                trail.push("clock set back".into());
            }
            5 => {
                wal = ConsensusWal::new(&dir);
                c.event("restarts");
            }
            _ => {
                c.event("records read");
                c.event("oracle.judgements");
                match load(&dir) {
                    None => return c.violate("overlord-wal/never-returns", "reading the log did not end", json!({"history": n, "trail": trail, "files": files(&dir).values().map(|v| v.len()).collect::<Vec<_>>()})),
                    Some(Ok(got)) => {
                        if !allowed.contains(&got) {
                            return c.violate(
                                "overlord-wal/not-the-last",
                                format!("read {} bytes, saved {:?}", got.len(), allowed.first().map(|a| a.len())),
                                json!({"history": n, "trail": trail, "got": hex(&got)}),
                            );
                        }
                        c.event("records read whole");
                    }
                    Some(Err(e)) => {
                        if !allowed.is_empty() {
                            return c.violate("overlord-wal/lost", e, json!({"history": n, "trail": trail}));
                        }
                        c.event("nothing to read");
                    }
                }
            }
        }
    }
    if r.chance(1, 4) {
        wal.clear().unwrap();
        if !matches!(load(&dir), Some(Err(_))) {
            c.violate("overlord-wal/clear", "a cleared log is read", json!({"history": n}));
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
}
