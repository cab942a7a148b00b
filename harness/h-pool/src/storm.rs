//! P42: the transaction pool under many callers at once.
//! Oracle: what was accepted is committed exactly once, in nonce order, and nothing else is.
use crate::pool::{hash, make, nonce, sender, Mock, Peer};
use core_mempool::MemPoolImpl;
use protocol::traits::{Context, MemPool, Storage};
use protocol::trie as cita_trie;
use protocol::types::*;
use protocol::tokio;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vlib::{guard, json, Ctx, Rng};
use world::{rt, wait};

pub fn p42(c: &mut Ctx) {
    c.stage("amid");
    if let Err(p) = guard(|| meanwhile(c)) {
        c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({}));
    }
    c.stage("storms");
    for n in 0..c.scale(24, 2000) {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        match guard(|| storm(c, &mut r, n)) {
            Ok(()) => {}
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"storm": n})),
        }
    }
}
#[derive(Default)]
struct Log {
    /// accepted, with the time of acceptance
    accepted: HashSet<Hash>,
    problems: Vec<(&'static str, String)>,
    committed: HashMap<Hash, u64>,
}
fn storm(c: &mut Ctx, r: &mut Rng, n: u64) {
    let senders = 1 + r.below(6);
    let each = 5 + r.below(50) as u64;
    let inserters = 1 + r.below(6);
    let cap = 10_000;
    let mock = Mock::default();
    let bumped = r.chance(1, 3);
    mock.0.lock().unwrap().slow = *r.pick(&[0, 500, 3000]);
    mock.0.lock().unwrap().peer = Some(Peer::Honest);
    let pool = {
        let _e = rt().enter();
        Arc::new(wait(MemPoolImpl::new(cap, 100_000, mock.clone(), vec![])))
    };
    let log = Arc::new(Mutex::new(Log::default()));
    // every transaction is sent once or more, by whoever
    let mut work: Vec<Vec<SignedTransaction>> = vec![vec![]; inserters];
    let mut all = HashMap::new();
    let mut by_nonce: HashMap<(H160, u64), Vec<Hash>> = HashMap::new();
    for s in 0..senders {
        for k in 0..each {
            for _ in 0..if bumped && r.chance(1, 4) { 2 } else { 1 } {
                let price = 1 + r.below(50) as u64;
                let t = make(r, sender(s), k, price);
                all.insert(hash(&t), t.clone());
                by_nonce.entry((t.sender, k)).or_default().push(hash(&t));
                for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
                    let i = r.below(inserters);
                    work[i].push(t.clone());
                }
            }
        }
    }
    let span = *r.pick(&[1usize, 4, 16, 1000]);
    for w in work.iter_mut() {
        // roughly in nonce order
        let mut keyed: Vec<(u64, SignedTransaction)> = w.drain(..).map(|t| (nonce(&t) + r.below(span) as u64, t)).collect();
        keyed.sort_by_key(|x| x.0);
        w.extend(keyed.into_iter().map(|x| x.1));
    }
    let all = Arc::new(all);
    let done = Arc::new(AtomicBool::new(false));
    let reads = Arc::new(AtomicU64::new(0));
    let mut tasks = vec![];
    for w in work {
        let (pool, log, mock) = (Arc::clone(&pool), Arc::clone(&log), mock.clone());
        let proposals = r.chance(1, 3);
        let mut r = r.fork();
        tasks.push(rt().spawn(async move {
            let mut i = 0;
            while i < w.len() {
                if proposals && r.chance(1, 4) {
                    // as part of another node's proposal
                    let part: Vec<SignedTransaction> = {
                        let mut seen = HashSet::new();
                        w[i..(i + 3).min(w.len())].iter().filter(|t| seen.insert(hash(t))).cloned().collect()
                    };
                    mock.0.lock().unwrap().network.extend(part.iter().map(|t| (hash(t), t.clone())));
                    let hs: Vec<Hash> = part.iter().map(hash).collect();
                    let got = pool.ensure_order_txs(Context::new(), None, &hs).await;
                    i += 3;
                    if got.is_ok() {
                        log.lock().unwrap().accepted.extend(hs);
                    } else {
                        // one of them was too late: the others come by themselves
                        for t in part {
                            if pool.insert(Context::new(), t.clone()).await.is_ok() {
                                log.lock().unwrap().accepted.insert(hash(&t));
                            }
                        }
                    }
                    continue;
                }
                let t = w[i].clone();
                i += 1;
                let got = pool.insert(Context::new(), t.clone()).await;
                let mut l = log.lock().unwrap();
                match got {
                    Ok(()) => drop(l.accepted.insert(hash(&t))),
                    Err(e) => {
                        // only what is too late may be refused
                        let a = mock.0.lock().unwrap();
                        if a.nonces.get(&t.sender).copied().unwrap_or(0) <= nonce(&t) {
                            l.problems.push(("refused", format!("nonce {} is refused: {e}", nonce(&t))));
                        }
                    }
                }
            }
        }));
    }
    for _ in 0..2 {
        // lookups at any time
        let (pool, done, all, reads) = (Arc::clone(&pool), Arc::clone(&done), Arc::clone(&all), Arc::clone(&reads));
        let log = Arc::clone(&log);
        tasks.push(rt().spawn(async move {
            let hs: Vec<Hash> = all.keys().copied().collect();
            let mut i = 0usize;
            while !done.load(Ordering::SeqCst) {
                i = i.wrapping_add(7);
                let h = hs[i % hs.len()];
                if let Some(t) = pool.get_tx_from_mem(Context::new(), &h) {
                    if t != all[&h] {
                        log.lock().unwrap().problems.push(("lookup", "another transaction is given".into()));
                    }
                }
                let s = all[&h].sender;
                let _ = pool.get_tx_count_by_address(Context::new(), s).await;
                reads.fetch_add(1, Ordering::Relaxed);
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
        }));
    }
    let feeders = inserters;
    let committer = {
        let (pool, log, mock, all, done) = (Arc::clone(&pool), Arc::clone(&log), mock.clone(), Arc::clone(&all), Arc::clone(&done));
        let mut r = r.fork();
        let by_nonce = by_nonce.clone();
        rt().spawn(async move {
            let mut height = 0u64;
            let mut idle = 0;
            let mut next: HashMap<H160, u64> = HashMap::new();
            let mut blocks: Vec<usize> = vec![];
            while idle < 60 {
                let limit = *r.pick(&[1u64, 3, 20, 1000]);
                let got = pool.package(Context::new(), U256::from(30_000_000u64), limit).await.unwrap();
                let mut seen = HashSet::new();
                let mut at = next.clone();
                let mut bad = None;
                for h in &got.hashes {
                    let Some(t) = all.get(h) else {
                        bad = Some(("strange", "a transaction nobody sent is packaged".to_string()));
                        continue;
                    };
                    if !seen.insert(*h) {
                        bad = Some(("twice", "a transaction is packaged twice in one list".into()));
                    }
                    let want = at.entry(t.sender).or_insert(0);
                    if nonce(t) != *want {
                        let k = if log.lock().unwrap().committed.contains_key(h) { "committed-again" } else { "order" };
                        bad = Some((k, format!("nonce {} is packaged where {want} is next (height {height})", nonce(t))));
                    }
                    *want = nonce(t) + 1;
                }
                if let Some(b) = bad {
                    log.lock().unwrap().problems.push(b);
                    break;
                }
                if got.hashes.is_empty() {
                    if done.load(Ordering::SeqCst) {
                        idle += 1;
                    }
                    if r.chance(1, 3) {
                        pool.flush(Context::new(), &[], height).await.unwrap();
                        height += 1;
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    continue;
                }
                idle = 0;
                let full = pool.get_full_txs(Context::new(), None, &got.hashes).await;
                match full {
                    Ok(x) if x.iter().map(hash).eq(got.hashes.iter().copied()) => {}
                    other => {
                        log.lock().unwrap().problems.push(("full", format!("what was packaged is not there: {:?}", other.map(|x| x.len()).map_err(|e| e.to_string()))));
                        break;
                    }
                }
                // the block is stored, then the pool is told
                {
                    let mut a = mock.0.lock().unwrap();
                    for h in &got.hashes {
                        let t = &all[h];
                        a.committed.insert(*h, t.clone());
                        let n = a.nonces.entry(t.sender).or_insert(0);
                        *n = (*n).max(nonce(t) + 1);
                    }
                }
                if r.bool() {
                    tokio::time::sleep(Duration::from_micros(r.below(2000) as u64)).await;
                }
                height += 1;
                pool.flush(Context::new(), &got.hashes, height).await.unwrap();
                next = at;
                blocks.push(got.hashes.len());
                let mut l = log.lock().unwrap();
                for h in &got.hashes {
                    if l.committed.insert(*h, height).is_some() {
                        l.problems.push(("committed-again", "a transaction is committed a second time".into()));
                    }
                }
            }
            let _ = by_nonce;
            blocks
        })
    };
    // everything comes to an end
    let t0 = Instant::now();
    let limit = Duration::from_secs(60);
    let feed: Vec<_> = tasks.drain(..feeders).collect();
    let ended = wait(async {
        let mut ok = true;
        for t in feed {
            match tokio::time::timeout(limit.saturating_sub(t0.elapsed()), t).await {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    log.lock().unwrap().problems.push(("panic", e.to_string()));
                }
                Err(_) => ok = false,
            }
        }
        done.store(true, Ordering::SeqCst);
        ok
    });
    let blocks = wait(async { tokio::time::timeout(limit, committer).await });
    let detail = json!({"storm": n, "senders": senders, "each": each, "inserters": inserters, "span": span, "two at a nonce": bumped});
    c.event("storms");
    let blocks = match (ended, blocks) {
        (true, Ok(Ok(b))) => b,
        (_, Ok(Err(e))) => {
            c.violate("panic", e.to_string(), detail);
            return;
        }
        _ => {
            c.violate("stuck", "callers wait for one another without end", detail);
            return;
        }
    };
    c.add("blocks", blocks.len() as u64);
    c.add("lookups", reads.load(Ordering::Relaxed));
    let l = log.lock().unwrap();
    c.add("accepted", l.accepted.len() as u64);
    c.add("committed", l.committed.len() as u64);
    c.seen("interleaving", blocks.clone());
    if let Some((k, what)) = l.problems.first() {
        c.ensure(false, k, || (what.clone(), detail.clone()));
        return;
    }
    // of those accepted at a nonce one is committed, unless a nonce before it is missing
    for s in 0..senders {
        let mut k = 0;
        loop {
            let Some(hs) = by_nonce.get(&(sender(s), k)) else { break };
            if !hs.iter().any(|h| l.accepted.contains(h)) {
                break;
            }
            let times = hs.iter().filter(|h| l.committed.contains_key(h)).count();
            c.ensure(times == 1, if times == 0 { "lost" } else { "nonce-twice" }, || (format!("of the accepted transactions of nonce {k} of sender {s}, {times} are committed"), detail.clone()));
            if times == 0 {
                return;
            }
            k += 1;
        }
    }
    let complete = l.committed.len();
    let (was_accepted, was_committed) = (l.accepted.clone(), l.committed.clone());
    drop(l);
    // the pool is empty in the end
    wait(pool.flush(Context::new(), &[], 1_000_000)).unwrap();
    for h in all.keys() {
        let here = wait(pool.contains(Context::new(), h));
        c.ensure(!here, "leftover", || (format!("a transaction (nonce {}, accepted: {}, committed: {:?}) stays in the pool for good", nonce(&all[h]), was_accepted.contains(h), was_committed.get(h)), detail.clone()));
        if here {
            return;
        }
    }
    c.ensure(pool.len() == 0, "length", || (format!("an empty pool counts {} transactions, {complete} committed", pool.len()), detail.clone()));
}

// --- a block is committed in the midst of a transaction's checks

type Meanwhile = Box<dyn FnOnce() + Send>;
#[derive(Clone)]
struct Watched(Arc<core_executor::RocksTrieDB>, Arc<Mutex<(usize, Option<Meanwhile>)>>);
impl cita_trie::DB for Watched {
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, std::io::Error> {
        let got = self.0.get(key);
        let f = {
            let mut h = self.1.lock().unwrap();
            match h.0 {
                0 => h.1.take(),
                _ => {
                    h.0 -= 1;
                    None
                }
            }
        };
        if let Some(f) = f {
            std::thread::scope(|s| drop(s.spawn(f).join()));
        }
        got
    }
    fn contains(&self, key: &[u8]) -> Result<bool, std::io::Error> {
        self.0.contains(key)
    }
    fn insert(&self, key: Vec<u8>, value: Vec<u8>) -> Result<(), std::io::Error> {
        self.0.insert(key, value)
    }
    fn remove(&self, key: &[u8]) -> Result<(), std::io::Error> {
        self.0.remove(key)
    }
    fn flush(&self) -> Result<(), std::io::Error> {
        self.0.flush()
    }
}
type Adapter = core_mempool::DefaultMemPoolAdapter<
    common_crypto::Secp256k1Recoverable,
    crate::net::Net,
    world::Store,
    Watched,
    core_interoperation::InteroperationImpl,
>;
fn transfer(nonce: u64, to: u8) -> SignedTransaction {
    let k = gen::key(0);
    let un = UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: nonce.into(), gas_limit: 30_000u64.into(), gas_price: 1u64.into(),
        action: TransactionAction::Call(H160::repeat_byte(to)), value: 1u64.into(), data: Bytes::new(),
    });
    k.sign(un, Some(crate::admit::CHAIN))
}
fn meanwhile(c: &mut Ctx) {
    let dir = c.scratch.join("meanwhile");
    for variant in ["rival", "next", "itself", "proposal"] {
        for at in 0..60 {
            let me = gen::key(0).addr;
            let w = crate::admit::world(&dir, &[me], |_| U256::from(crate::admit::E18), vec![me], vec![me], 1000);
            let (storage, chain_root) = (Arc::clone(&w.storage), w.root());
            let db = Watched(Arc::clone(&w.trie), Arc::new(Mutex::new((0, None))));
            let pool = {
                let _e = rt().enter();
                let a: Adapter = core_mempool::DefaultMemPoolAdapter::new(crate::net::Net::default(), Arc::clone(&storage), Arc::new(db.clone()), crate::admit::CHAIN, 2000, 100, 1000);
                Arc::new(wait(MemPoolImpl::new(100, 100, a, vec![])))
            };
            std::mem::forget(Arc::clone(&pool));
            let _ = chain_root;
            let t0 = transfer(0, 1);
            if variant != "itself" {
                wait(pool.insert(Context::new(), t0.clone())).unwrap();
                wait(pool.flush(Context::new(), &[], 0)).unwrap();
            }
            let fired = Arc::new(AtomicBool::new(false));
            let height = w.head().number + 1;
            *db.1.lock().unwrap() = (at, Some({
                let (fired, pool, t0) = (Arc::clone(&fired), Arc::clone(&pool), t0.clone());
                let mut w = w;
                Box::new(move || {
                    fired.store(true, Ordering::SeqCst);
                    w.activate();
                    w.exec(&crate::admit::spec(&w, vec![t0.clone()]));
                    let (st, h, root) = (Arc::clone(&w.storage), hash(&t0), w.root());
                    wait(async move {
                        st.insert_transactions(Context::new(), height, vec![t0]).await.unwrap();
                        pool.set_args(Context::new(), root, 30_000_000, 2000);
                        pool.flush(Context::new(), &[h], height).await.unwrap();
                    });
                })
            }));
            let t = match variant {
                "rival" => transfer(0, 2),
                "next" => transfer(1, 2),
                "proposal" => transfer(1, 3),
                _ => t0.clone(),
            };
            let got = wait(pool.insert(Context::new(), t.clone()));
            let done = fired.load(Ordering::SeqCst);
            if !done {
                db.1.lock().unwrap().1 = None;
                ckb_rocksdb::shim::destroy(&dir);
                break;
            }
            c.event("commits amid checks");
            c.seen("amid", (variant, at));
            let detail = json!({"what comes": variant, "trie read": at, "got": format!("{:?}", got.as_ref().map_err(|e| e.to_string()))});
            let old = nonce(&t) == 0;
            c.ensure(got.is_ok() != old, if old { "amid/stale-accepted" } else { "amid/refused" }, || ("what is committed in the midst of the checks of a transaction is not seen by them".into(), detail.clone()));
            // another one of the nonce just used
            let late = wait(pool.insert(Context::new(), transfer(0, 4)));
            c.ensure(late.is_err(), "amid/stale-nonce", || ("a nonce used long ago is taken".into(), detail.clone()));
            let list = wait(pool.package(Context::new(), U256::from(30_000_000u64), 10)).unwrap().hashes;
            let want = if old { vec![] } else { vec![hash(&t)] };
            c.ensure(list == want, "amid/package", || (format!("{} transactions are packaged instead of {}", list.len(), want.len()), detail.clone()));
            ckb_rocksdb::shim::destroy(&dir);
        }
    }
    std::fs::remove_dir_all(&dir).ok();
}
