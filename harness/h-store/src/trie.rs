//! P27: a state root stands for one state, for good.
use ckb_rocksdb::shim;
use common_config_parser::types::ConfigRocksDB;
use core_db::RocksAdapter;
use core_executor::{MPTTrie, RocksTrieDB};
use protocol::trie::{Trie, DB};
use protocol::types::H256;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vlib::oracle::{keccak256, mpt_root};
use vlib::{guard, hex, json, Ctx, Rng};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Trie_ = MPTTrie<RocksTrieDB>;
#[derive(Clone)]
struct Done {
    root: H256,
    map: Map,
    /// how many writes the database had seen when the commit returned
    writes: usize,
}

fn root_of(m: &Map) -> [u8; 32] {
    mpt_root(&m.iter().map(|(k, v)| (keccak256(k).to_vec(), v.clone())).collect())
}
fn open(path: &Path, r: &mut Rng, n: usize) -> Vec<Arc<RocksTrieDB>> {
    let a = RocksAdapter::new(path, ConfigRocksDB::default()).unwrap();
    let size = |r: &mut Rng| *r.pick(&[1usize, 2, 3, 7, 50, 2000]);
    (0..n)
        .map(|_| {
            let (db, s) = (a.inner_db(), size(r));
            Arc::new(RocksTrieDB::new_evm(db, s))
        })
        .collect()
}
fn at(root: H256, db: &Arc<RocksTrieDB>) -> Option<Trie_> {
    if root.is_zero() {
        Some(MPTTrie::new(Arc::clone(db)))
    } else {
        MPTTrie::from_root(root, Arc::clone(db)).ok()
    }
}
fn key(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => r.edge_bytes(40),
        1 => vec![0; 20],
        _ => keccak256(&[r.below(24) as u8])[..*r.pick(&[20usize, 32, 32])].to_vec(),
    }
}
fn value(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(6) {
        0 => r.bytes(1),
        1 => { let n = 31 + r.below(3); r.bytes(n) }
        2 => r.bytes(500),
        _ => r.edge_bytes(60),
    };
    if v.is_empty() {
        v.push(r.u64() as u8);
    }
    v
}
/// reads a whole state through one handle
fn read(db: &Arc<RocksTrieDB>, d: &Done, r: &mut Rng) -> Result<u64, String> {
    let t = at(d.root, db).ok_or_else(|| format!("the root {:?} of {} entries is unknown", d.root, d.map.len()))?;
    let mut n = 0;
    for (k, v) in &d.map {
        let got = t.get(k).map_err(|e| format!("reading {}: {e}", hex(k)))?;
        if got.as_ref() != Some(v) {
            return Err(format!("{} reads {:?} instead of {}", hex(k), got.map(hex), hex(v)));
        }
        n += 1;
    }
    for _ in 0..3 {
        let k = key(r);
        let got = t.get(&k).map_err(|e| format!("reading {}: {e}", hex(&k)))?;
        let has = t.contains(&k).map_err(|e| format!("reading {}: {e}", hex(&k)))?;
        if got.as_ref() != d.map.get(&k) || has != d.map.contains_key(&k) {
            return Err(format!("{} reads {:?} (present: {has}) instead of {:?}", hex(&k), got.map(hex), d.map.get(&k).map(hex)));
        }
        n += 1;
    }
    Ok(n)
}
/// changes the trie and the model alike
fn change(c: &mut Ctx, r: &mut Rng, t: &mut Trie_, m: &mut Map, n: usize) -> Result<(), String> {
    for _ in 0..n {
        let known: Vec<Vec<u8>> = m.keys().cloned().collect();
        match r.below(10) {
            0..=5 => {
                let (k, v) = (key(r), value(r));
                t.insert(k.clone(), v.clone()).map_err(|e| e.to_string())?;
                m.insert(k, v);
            }
            6 | 7 => {
                let k = if known.is_empty() || r.chance(1, 5) { key(r) } else { r.pick(&known).clone() };
                let was = t.remove(&k).map_err(|e| e.to_string())?;
                if was != m.remove(&k).is_some() {
                    return Err(format!("removing {} said {was}", hex(&k)));
                }
            }
            8 if r.chance(1, 6) => {
                for k in known {
                    t.remove(&k).map_err(|e| e.to_string())?;
                    m.remove(&k);
                }
            }
            _ => {
                let k = if known.is_empty() || r.bool() { key(r) } else { r.pick(&known).clone() };
                let got = t.get(&k).map_err(|e| e.to_string())?;
                if got.as_ref() != m.get(&k) {
                    return Err(format!("{} reads {:?} before the commit, not {:?}", hex(&k), got.map(hex), m.get(&k).map(hex)));
                }
            }
        }
    }
    c.add("changes", n as u64);
    Ok(())
}

pub fn p27(c: &mut Ctx) {
    c.stage("histories");
    for n in 0..c.scale(60, 4000) {
        if !c.within(0.5) {
            break;
        }
        let dir = c.scratch.join(format!("t{n}"));
        match guard(|| history(c, &dir)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.violate("state", e, json!({"history": n})),
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n})),
        }
        shim::destroy(&dir);
        std::fs::remove_dir_all(&dir).ok();
    }
    c.stage("together");
    for n in 0..c.scale(12, 1000) {
        if !c.within(0.8) {
            break;
        }
        together(c, n);
    }
    c.stage("nodes");
    for n in 0..c.scale(30, 3000) {
        if !c.within(0.95) {
            break;
        }
        let dir = c.scratch.join(format!("n{n}"));
        match guard(|| nodes(c, &dir)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.violate("nodes", e, json!({"history": n})),
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n})),
        }
        shim::destroy(&dir);
        std::fs::remove_dir_all(&dir).ok();
    }
}

fn history(c: &mut Ctx, dir: &PathBuf) -> Result<(), String> {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let mut dbs = open(dir, r, 3);
    let mut done = vec![Done { root: H256::zero(), map: Map::new(), writes: 0 }];
    for _ in 0..5 + r.below(25) {
        // mostly on top of the latest state, sometimes on top of an older one
        let base = if r.chance(1, 5) { r.pick(&done).clone() } else { done.last().unwrap().clone() };
        let db = r.pick(&dbs).clone();
        let mut t = at(base.root, &db).ok_or_else(|| format!("the root {:?} of {} entries is unknown", base.root, base.map.len()))?;
        let mut m = base.map.clone();
        let n = *r.pick(&[0usize, 1, 3, 10, 40]);
        change(c, r, &mut t, &mut m, n)?;
        let failing = r.chance(1, 8);
        let before = shim::journal_len(dir);
        if failing {
            shim::fail_writes_after(dir, Some(before));
            let lost = t.commit();
            shim::fail_writes_after(dir, None);
            c.event("failed writes");
            if lost.is_ok() && !m.is_empty() && n > 0 && m != base.map && shim::journal_len(dir) == before {
                // nothing may have needed to be written, if this very state was stored before
                if !done.iter().any(|d| d.map == m) {
                    return Err("a commit that could not be written is reported as done".into());
                }
            }
            // the caller does it again on top of the same state
            t = at(base.root, &db).ok_or("the base is gone after a failed commit")?;
            for k in base.map.keys() {
                if !m.contains_key(k) {
                    t.remove(k).map_err(|e| e.to_string())?;
                }
            }
            for (k, v) in &m {
                t.insert(k.clone(), v.clone()).map_err(|e| e.to_string())?;
            }
        }
        let mut root = t.commit().map_err(|e| format!("commit: {e}"))?;
        c.event("commits");
        if root.0 != root_of(&m) {
            return Err(format!("the root of {} entries is {root:?}, not {}", m.len(), hex(root_of(&m))));
        }
        // going on with the same trie after a commit
        if r.chance(1, 4) {
            done.push(Done { root, map: m.clone(), writes: shim::journal_len(dir) });
            let n = 1 + r.below(5);
            change(c, r, &mut t, &mut m, n)?;
            root = t.commit().map_err(|e| format!("commit: {e}"))?;
            c.event("commits in a row");
            if root.0 != root_of(&m) {
                return Err(format!("the second root of {} entries is {root:?}, not {}", m.len(), hex(root_of(&m))));
            }
        }
        c.seen("root", root);
        done.push(Done { root, map: m, writes: shim::journal_len(dir) });
        for _ in 0..2 {
            let d = r.pick(&done).clone();
            let db = r.pick(&dbs).clone();
            let n = read(&db, &d, r)?;
            c.add("reads", n);
            c.event("oracle.judgements");
        }
        if r.chance(1, 8) {
            c.event("restarts");
            dbs = open(dir, r, 3);
        }
    }
    // a crash after any write loses nothing that had been committed
    let total = shim::journal_len(dir);
    for i in 0..4 {
        let n = if i == 0 { total } else { r.below(total + 1) };
        let image = dir.with_extension(format!("crash{i}"));
        shim::crash_image(dir, n, &image);
        let db = open(&image, r, 1).remove(0);
        c.event("crashes");
        for d in done.iter().filter(|d| d.writes <= n) {
            let n = read(&db, d, r).map_err(|e| format!("after a crash: {e}"))?;
            c.add("reads after a crash", n);
            c.event("oracle.judgements");
        }
        shim::destroy(&image);
        std::fs::remove_dir_all(&image).ok();
    }
    Ok(())
}

/// writers and readers share one small cache
fn together(c: &mut Ctx, n: u64) {
    let dir = c.scratch.join(format!("p{n}"));
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let db = open(&dir, r, 1).remove(0);
    let done: Mutex<Vec<Done>> = Mutex::new(vec![]);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let reads = std::sync::atomic::AtomicU64::new(0);
    let seeds: Vec<Rng> = (0..6).map(|_| r.fork()).collect();
    std::thread::scope(|s| {
        for (i, mut r) in seeds.into_iter().enumerate() {
            let (db, done, bad, reads) = (&db, &done, &bad, &reads);
            s.spawn(move || {
                let out = guard(|| -> Result<(), String> {
                    let mut m = Map::new();
                    let mut root = H256::zero();
                    for _ in 0..25 {
                        if i < 3 {
                            let mut t = at(root, db).ok_or("a committed root is unknown")?;
                            for _ in 0..1 + r.below(8) {
                                let (k, v) = (key(&mut r), value(&mut r));
                                t.insert(k.clone(), v.clone()).map_err(|e| e.to_string())?;
                                m.insert(k, v);
                            }
                            root = t.commit().map_err(|e| e.to_string())?;
                            if root.0 != root_of(&m) {
                                return Err(format!("the root of {} entries is {root:?}", m.len()));
                            }
                            done.lock().unwrap().push(Done { root, map: m.clone(), writes: 0 });
                        } else {
                            let d = {
                                let l = done.lock().unwrap();
                                if l.is_empty() { None } else { Some(l[r.below(l.len())].clone()) }
                            };
                            if let Some(d) = d {
                                let n = read(db, &d, &mut r)?;
                                reads.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                            } else {
                                std::thread::yield_now();
                            }
                        }
                    }
                    Ok(())
                });
                match out {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => bad.lock().unwrap().push(e),
                    Err(p) => bad.lock().unwrap().push(format!("panic: {} at {}", p.msg, vlib::short_loc(&p.loc))),
                }
            });
        }
    });
    c.event("concurrent histories");
    c.add("concurrent reads", reads.into_inner());
    let bad = bad.into_inner().unwrap();
    c.ensure(bad.is_empty(), "together", || (format!("{} of six threads sharing a cache failed: {}", bad.len(), bad[0]), json!({"all": bad})));
    shim::destroy(&dir);
    std::fs::remove_dir_all(&dir).ok();
}

/// the node store by itself
fn nodes(c: &mut Ctx, dir: &PathBuf) -> Result<(), String> {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let mut dbs = open(dir, r, 2);
    let mut m: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let e = |e: std::io::Error| e.to_string();
    for _ in 0..80 {
        let db = r.pick(&dbs).clone();
        // a node is stored under its hash, so a key never changes its value
        let pair = |r: &mut Rng| {
            let v = value(r);
            (keccak256(&v).to_vec(), v)
        };
        match r.below(8) {
            0 | 1 => {
                let (k, v) = pair(r);
                db.insert(k.clone(), v.clone()).map_err(e)?;
                m.insert(k, v);
            }
            2 | 3 => {
                let (ks, vs): (Vec<_>, Vec<_>) = (0..r.below(9)).map(|_| pair(r)).unzip();
                db.insert_batch(ks.clone(), vs.clone()).map_err(e)?;
                m.extend(ks.into_iter().zip(vs));
            }
            4 => {
                let (ks, mut vs): (Vec<_>, Vec<_>) = (0..1 + r.below(5)).map(|_| pair(r)).unzip();
                vs.pop();
                if db.insert_batch(ks, vs).is_ok() {
                    return Err("a batch with one value missing is accepted".into());
                }
            }
            5 => db.flush().map_err(e)?,
            6 if r.chance(1, 4) => {
                dbs = open(dir, r, 2);
            }
            _ => {}
        }
        for _ in 0..4 {
            let db = r.pick(&dbs).clone();
            let known: Vec<&Vec<u8>> = m.keys().collect();
            let k = if known.is_empty() || r.chance(1, 4) { r.bytes(32) } else { (*r.pick(&known)).clone() };
            let (got, has) = if r.bool() {
                let g = db.get(&k).map_err(e)?;
                (g, db.contains(&k).map_err(e)?)
            } else {
                let h = db.contains(&k).map_err(e)?;
                (db.get(&k).map_err(e)?, h)
            };
            c.event("node reads");
            c.event("oracle.judgements");
            c.seen("node", &k);
            if got.as_ref() != m.get(&k) || has != m.contains_key(&k) {
                return Err(format!("node {} reads {:?} (present: {has}), not {:?}", hex(&k), got.map(hex), m.get(&k).map(hex)));
            }
        }
    }
    Ok(())
}
