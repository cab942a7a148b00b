//! P28: blocks, transactions, receipts, codes and proofs are read back as they were stored.
use ckb_rocksdb::shim;
use common_config_parser::types::ConfigRocksDB;
use core_db::RocksAdapter;
use core_storage::ImplStorage;
use protocol::traits::{
    Context, ReadOnlyStorage, Storage, StorageAdapter, StorageBatchModify, StorageCategory, StorageSchema,
};
use protocol::types::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vlib::oracle::keccak256;
use vlib::{guard, hex, json, Ctx, Rng};

type St = ImplStorage<RocksAdapter>;

#[derive(Clone, Default)]
struct Model {
    blocks: BTreeMap<u64, Block>,
    txs: BTreeMap<H256, (u64, SignedTransaction)>,
    receipts: BTreeMap<H256, (u64, Receipt)>,
    codes: BTreeMap<H256, Bytes>,
    code_at: BTreeMap<H256, H256>,
    latest: Option<Block>,
    proof: Option<Proof>,
    fork: Option<HardforkInfoInner>,
}

fn open(path: &Path, r: &mut Rng) -> Arc<St> {
    let a = Arc::new(RocksAdapter::new(path, ConfigRocksDB::default()).unwrap());
    Arc::new(ImplStorage::new(a, *r.pick(&[1usize, 2, 5, 100])))
}
use gen::signed as tx;
/// heights that share prefixes, or nearly
fn height(r: &mut Rng, m: &Model) -> u64 {
    match r.below(6) {
        0 => r.edge_u64(),
        1 => *r.pick(&[0, 1, 255, 256, 257, 65_535, 65_536, u64::MAX, u64::MAX - 1]),
        2 if !m.blocks.is_empty() => m.blocks.keys().next_back().unwrap().wrapping_add(1),
        _ => r.below(40) as u64,
    }
}

pub fn p28(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    c.stage("histories");
    for n in 0..c.scale(60, 5000) {
        if !c.within(0.6) {
            break;
        }
        let dir = c.scratch.join(format!("s{n}"));
        match guard(|| rt.block_on(history(c, &dir, n))) {
            Ok(Ok(())) => {}
            Ok(Err((k, e))) => c.violate(k, e, json!({"history": n})),
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n})),
        }
        shim::destroy(&dir);
        std::fs::remove_dir_all(&dir).ok();
    }
    c.stage("together");
    for n in 0..c.scale(10, 800) {
        if !c.within(0.8) {
            break;
        }
        together(c, n);
    }
    c.stage("tables");
    for n in 0..c.scale(40, 3000) {
        if !c.within(0.95) {
            break;
        }
        let dir = c.scratch.join(format!("a{n}"));
        match guard(|| tables(c, &dir)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.violate("tables", e, json!({"history": n})),
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n})),
        }
        shim::destroy(&dir);
        std::fs::remove_dir_all(&dir).ok();
    }
}

type Bad = (&'static str, String);
fn ok<T>(k: &'static str, x: ProtocolResult<T>) -> Result<T, Bad> {
    x.map_err(|e| (k, format!("{e}")))
}
use protocol::ProtocolResult;

async fn history(c: &mut Ctx, dir: &PathBuf, n: u64) -> Result<(), Bad> {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let mut s = open(dir, r);
    let mut m = Model::default();
    // (writes seen when the call returned, the state then)
    let mut done: Vec<(usize, Model)> = vec![(0, m.clone())];
    let x = || Context::new();
    let huge = n == 7;
    for step in 0..25 {
        let before = shim::journal_len(dir);
        match r.below(12) {
            0..=3 => {
                let mut b = gen::block(r);
                b.header.number = height(r, &m);
                // one block per height, as consensus has it
                if m.blocks.contains_key(&b.header.number) || b.header.number == u64::MAX {
                    continue;
                }
                b.tx_hashes = vec![];
                let h = b.header.number;
                if r.chance(1, 6) {
                    // interrupted, and done again
                    shim::fail_writes_after(dir, Some(before + r.below(4)));
                    let lost = s.insert_block(x(), b.clone()).await;
                    shim::fail_writes_after(dir, None);
                    c.event("failed writes");
                    if lost.is_err() {
                        let l = s.get_latest_block(x()).await.ok();
                        if l != m.latest {
                            return Err(("latest", format!("after a failed write the latest block is {:?}", l.map(|b| b.header.number))));
                        }
                    }
                }
                if r.chance(2, 3) {
                    ok("insert_block", s.insert_block(x(), b.clone()).await)?;
                    m.latest = Some(b.clone());
                } else {
                    ok("set_block", s.set_block(x(), b.clone()).await)?;
                    if r.bool() {
                        ok("set_latest_block", s.set_latest_block(x(), b.clone()).await)?;
                        m.latest = Some(b.clone());
                    }
                }
                c.event("blocks");
                m.blocks.insert(h, b);
            }
            4..=6 => {
                let h = height(r, &m);
                let count = if huge && step < 8 { 990 + r.below(40) } else { r.below(8) };
                let v: Vec<SignedTransaction> = (0..count).map(|_| tx(r)).collect();
                ok("insert_transactions", s.insert_transactions(x(), h, v.clone()).await)?;
                c.add("transactions", count as u64);
                m.txs.extend(v.iter().map(|t| (t.transaction.hash, (h, t.clone()))));
                if r.chance(2, 3) {
                    let rs: Vec<Receipt> = v.iter().map(|t| Receipt { tx_hash: t.transaction.hash, block_number: h, ..gen::receipt(r) }).collect();
                    ok("insert_receipts", s.insert_receipts(x(), h, rs.clone()).await)?;
                    m.receipts.extend(rs.into_iter().map(|t| (t.tx_hash, (h, t))));
                }
            }
            7 => {
                let code = Bytes::from(if r.chance(1, 4) { r.bytes(24_576) } else { r.edge_bytes(100) });
                let (at, hash) = (H256(r.arr()), H256(keccak256(&code)));
                ok("insert_code", s.insert_code(x(), at, hash, code.clone()).await)?;
                m.codes.insert(hash, code);
                m.code_at.insert(at, hash);
            }
            8 => {
                let p = gen::proof(r);
                ok("update_latest_proof", s.update_latest_proof(x(), p.clone()).await)?;
                m.proof = Some(p);
            }
            9 => {
                if m.fork.is_none() || r.bool() {
                    let f = gen::hardfork_inner(r);
                    ok("set_hardfork_proposal", s.set_hardfork_proposal(x(), f.clone()).await)?;
                    m.fork = Some(f);
                } else {
                    ok("remove_hardfork_proposal", s.remove_hardfork_proposal(x()).await)?;
                    m.fork = None;
                }
            }
            10 => {
                c.event("restarts");
                s = open(dir, r);
            }
            _ => {}
        }
        done.push((shim::journal_len(dir), m.clone()));
        if huge && step % 6 != 5 {
            continue;
        }
        check(c, r, &s, &m, &m, "").await?;
    }
    let total = shim::journal_len(dir);
    for i in 0..4 {
        let n = r.below(total + 1);
        let image = dir.with_extension(format!("crash{i}"));
        shim::crash_image(dir, n, &image);
        let s = open(&image, r);
        // what had been stored by then is there, and nothing that never was
        let at_least = done.iter().filter(|d| d.0 <= n).last().unwrap().1.clone();
        let at_most = done.iter().find(|d| d.0 >= n).map_or(m.clone(), |d| d.1.clone());
        c.event("crashes");
        let out = check(c, r, &s, &at_least, &at_most, " after a crash").await;
        // the latest block can be found by everything that leads to it
        let latest = s.get_latest_block(Context::new()).await.ok();
        let mut whole = true;
        if let Some(b) = &latest {
            let num = b.header.number;
            whole &= s.get_block(Context::new(), num).await.ok().flatten().as_ref() == Some(b);
            whole &= s.get_block_header(Context::new(), num).await.ok().flatten().as_ref() == Some(&b.header);
            whole &= s.get_block_number_by_hash(Context::new(), &b.hash()).await.ok().flatten() == Some(num);
        }
        shim::destroy(&image);
        std::fs::remove_dir_all(&image).ok();
        out?;
        if !whole {
            return Err(("crash/latest", format!("after a crash at write {n} of {total} the latest block {} is not wholly there", latest.unwrap().header.number)));
        }
    }
    Ok(())
}

/// everything in `lo` is read back, and whatever is read back is in `hi`
async fn check(c: &mut Ctx, r: &mut Rng, s: &Arc<St>, lo: &Model, hi: &Model, when: &str) -> Result<(), Bad> {
    let x = || Context::new();
    fn fits<T: PartialEq>(got: &Option<T>, lo: Option<&T>, hi: Option<&T>) -> bool {
        got.as_ref() == lo || got.as_ref() == hi || (got.is_none() && lo.is_none())
    }
    let mut heights: Vec<u64> = hi.blocks.keys().copied().collect();
    heights.push(height(r, hi));
    for h in &heights {
        let (l, u) = (lo.blocks.get(h), hi.blocks.get(h));
        // in either order, as each read may fill a cache
        let first = r.bool();
        let head = if first { ok("get_block_header", s.get_block_header(x(), *h).await)? } else { None };
        let b = ok("get_block", s.get_block(x(), *h).await)?;
        let head = if first { head } else { ok("get_block_header", s.get_block_header(x(), *h).await)? };
        c.event("block reads");
            c.event("oracle.judgements");
        c.seen("block", (h, b.is_some()));
        if !fits(&b, l, u) {
            return Err(("block", format!("block {h} is read back{when} as {:?}", b.map(|b| b.header.number))));
        }
        if !fits(&head, l.map(|b| &b.header), u.map(|b| &b.header)) {
            return Err(("header", format!("the header of block {h} is read back{when} as {head:?}")));
        }
        let hash = u.map_or(H256(r.arr()), |b| b.hash());
        let num = ok("get_block_number_by_hash", s.get_block_number_by_hash(x(), &hash).await)?;
        let by = ok("get_block_by_hash", s.get_block_by_hash(x(), &hash).await)?;
        if !fits(&num, l.map(|_| h), u.map(|_| h)) || !fits(&by, l, u) {
            return Err(("block-by-hash", format!("block {h} is found by its hash{when} as {num:?}")));
        }
    }
    let latest = s.get_latest_block(x()).await.ok();
    let head = s.get_latest_block_header(x()).await.ok();
    if !fits(&latest, lo.latest.as_ref(), hi.latest.as_ref()) || latest.map(|b| b.header) != head {
        return Err(("latest", format!("the latest block is read back{when} as {:?}", head.map(|h| h.number))));
    }
    let proof = s.get_latest_proof(x()).await.ok();
    if !fits(&proof, lo.proof.as_ref(), hi.proof.as_ref()) {
        return Err(("proof", format!("the latest proof is read back{when} as {proof:?}")));
    }
    let fork = ok("hardfork_proposal", s.hardfork_proposal(x()).await)?;
    if !fits(&fork, lo.fork.as_ref(), hi.fork.as_ref()) {
        return Err(("hardfork", format!("the hardfork proposal is read back{when} as {fork:?}")));
    }
    for (at, hash) in &hi.code_at {
        let want = &hi.codes[hash];
        let by_hash = ok("get_code_by_hash", s.get_code_by_hash(x(), hash).await)?;
        let by_at = ok("get_code_by_address", s.get_code_by_address(x(), at).await)?;
        if !fits(&by_hash, lo.codes.get(hash), Some(want)) || !fits(&by_at, lo.code_at.get(at).map(|h| &lo.codes[h]), Some(want)) {
            return Err(("code", format!("the code {hash:?} is read back{when} otherwise than stored")));
        }
    }
    // transactions one by one
    let some: Vec<&H256> = hi.txs.keys().filter(|_| hi.txs.len() < 60 || r.chance(1, 40)).collect();
    for h in some {
        let t = ok("get_transaction_by_hash", s.get_transaction_by_hash(x(), h).await)?;
        let p = ok("get_receipt_by_hash", s.get_receipt_by_hash(x(), h).await)?;
        c.event("transaction reads");
            c.event("oracle.judgements");
        if !fits(&t, lo.txs.get(h).map(|t| &t.1), hi.txs.get(h).map(|t| &t.1)) {
            return Err(("transaction", format!("transaction {h:?} is read back{when} otherwise than stored (found: {})", t.is_some())));
        }
        if !fits(&p, lo.receipts.get(h).map(|t| &t.1), hi.receipts.get(h).map(|t| &t.1)) {
            return Err(("receipt", format!("the receipt of {h:?} is read back{when} otherwise than stored: {p:?} for {:?}", hi.receipts.get(h))));
        }
    }
    let nowhere = H256(r.arr());
    if ok("none", s.get_transaction_by_hash(x(), &nowhere).await)?.is_some()
        || ok("none", s.get_receipt_by_hash(x(), &nowhere).await)?.is_some()
        || ok("none", s.get_code_by_hash(x(), &nowhere).await)?.is_some()
        || ok("none", s.get_code_by_address(x(), &nowhere).await)?.is_some()
    {
        return Err(("nowhere", "something is found under a hash never used".into()));
    }
    // and those of a block together, in the order asked for
    let mut heights: Vec<u64> = hi.txs.values().map(|t| t.0).collect();
    heights.sort();
    heights.dedup();
    heights.push(height(r, hi));
    for h in heights {
        let mut ask: Vec<H256> = hi.txs.iter().filter(|(_, t)| t.0 == h && r.chance(5, 6)).map(|(k, _)| *k).collect();
        // some of other heights, and some of none
        ask.extend(hi.txs.iter().filter(|(_, t)| t.0 != h).map(|(k, _)| *k).take(r.below(3)));
        if r.chance(1, 3) {
            ask.push(H256(r.arr()));
        }
        r.shuffle(&mut ask);
        let ts = ok("get_transactions", s.get_transactions(x(), h, &ask).await)?;
        let ps = ok("get_receipts", s.get_receipts(x(), h, &ask).await)?;
        c.event("block contents");
            c.event("oracle.judgements");
        if ts.len() != ask.len() || ps.len() != ask.len() {
            return Err(("transactions", format!("{} and {} answers for {} hashes{when}", ts.len(), ps.len(), ask.len())));
        }
        for (i, k) in ask.iter().enumerate() {
            let (l, u) = (lo.txs.get(k).filter(|t| t.0 == h), hi.txs.get(k).filter(|t| t.0 == h));
            if !fits(&ts[i], l.map(|t| &t.1), u.map(|t| &t.1)) {
                return Err(("transactions", format!("transaction {k:?} of block {h} is read back{when} otherwise than stored (found: {}, {} asked)", ts[i].is_some(), ask.len())));
            }
            let (l, u) = (lo.receipts.get(k).filter(|t| t.0 == h), hi.receipts.get(k).filter(|t| t.0 == h));
            if !fits(&ps[i], l.map(|t| &t.1), u.map(|t| &t.1)) {
                return Err(("receipts", format!("the receipt of {k:?} of block {h} is read back{when} otherwise than stored (found: {})", ps[i].is_some())));
            }
        }
    }
    c.event("checks");
            c.event("oracle.judgements");
    Ok(())
}

/// one writer, many readers: what was stored before a read began is seen by it
fn together(c: &mut Ctx, n: u64) {
    let dir = c.scratch.join(format!("p{n}"));
    let mut rng = c.rng.fork();
    let s = open(&dir, &mut rng);
    let head = AtomicU64::new(0);
    let blocks: Vec<(Block, Vec<SignedTransaction>)> = (1..40u64)
        .map(|i| {
            let mut b = gen::block(&mut rng);
            b.header.number = i;
            let txs: Vec<SignedTransaction> = (0..rng.below(4)).map(|_| tx(&mut rng)).collect();
            b.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
            (b, txs)
        })
        .collect();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let reads = AtomicU64::new(0);
    let seeds: Vec<Rng> = (0..5).map(|_| rng.fork()).collect();
    let block_on = |f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), String>> + '_>>| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
    };
    let e = |e: protocol::ProtocolError| e.to_string();
    std::thread::scope(|sc| {
        for (i, mut r) in seeds.into_iter().enumerate() {
            let (s, head, blocks, bad, reads, block_on) = (&s, &head, &blocks, &bad, &reads, &block_on);
            sc.spawn(move || {
                let out = guard(|| {
                    block_on(Box::pin(async move {
                        let x = || Context::new();
                        if i == 0 {
                            for (b, txs) in blocks {
                                s.insert_transactions(x(), b.header.number, txs.clone()).await.map_err(e)?;
                                s.insert_block(x(), b.clone()).await.map_err(e)?;
                                head.store(b.header.number, Ordering::SeqCst);
                            }
                            return Ok(());
                        }
                        let mut last = 0;
                        loop {
                            let h = head.load(Ordering::SeqCst);
                            if h > 0 {
                                let l = s.get_latest_block_header(x()).await.map_err(e)?.number;
                                if l < h || l < last {
                                    return Err(format!("the latest block was {l} after {} had been stored and {last} been seen", h));
                                }
                                last = l;
                                let n = 1 + r.below(l as usize);
                                let (b, txs) = &blocks[n - 1];
                                let got = s.get_block(x(), n as u64).await.map_err(e)?;
                                if got.as_ref() != Some(b) {
                                    return Err(format!("block {n} of {l} is read as {:?}", got.map(|b| b.header.number)));
                                }
                                let ts = s.get_transactions(x(), n as u64, &b.tx_hashes).await.map_err(e)?;
                                if ts != txs.iter().cloned().map(Some).collect::<Vec<_>>() {
                                    return Err(format!("the transactions of block {n} of {l} are not all there"));
                                }
                                for t in txs {
                                    let got = s.get_transaction_by_hash(x(), &t.transaction.hash).await.map_err(e)?;
                                    if got.as_ref() != Some(t) {
                                        return Err(format!("a transaction of block {n} of {l} is not found by its hash"));
                                    }
                                }
                                if s.get_block_number_by_hash(x(), &b.hash()).await.map_err(e)? != Some(n as u64) {
                                    return Err(format!("block {n} of {l} is not found by its hash"));
                                }
                                reads.fetch_add(1, Ordering::Relaxed);
                            }
                            if h as usize == blocks.len() {
                                return Ok(());
                            }
                        }
                    }))
                });
                match out {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => bad.lock().unwrap().push(e),
                    Err(p) => bad.lock().unwrap().push(format!("panic: {} at {}", p.msg, vlib::short_loc(&p.loc))),
                }
                // let the readers end if the writer did not get there
                if i == 0 {
                    head.store(blocks.len() as u64, Ordering::SeqCst);
                }
            });
        }
    });
    c.event("concurrent histories");
    c.add("concurrent reads", reads.into_inner());
    let bad = bad.into_inner().unwrap();
    c.ensure(bad.is_empty(), "together", || (bad[0].clone(), json!({"all": bad})));
    shim::destroy(&dir);
    std::fs::remove_dir_all(&dir).ok();
}

struct TableA;
impl StorageSchema for TableA {
    type Key = H256;
    type Value = Bytes;
    fn category() -> StorageCategory {
        StorageCategory::Wal
    }
}
struct TableB;
impl StorageSchema for TableB {
    type Key = H256;
    type Value = Bytes;
    fn category() -> StorageCategory {
        StorageCategory::Version
    }
}
/// the database adapter: two tables that do not see each other
fn tables(c: &mut Ctx, dir: &PathBuf) -> Result<(), String> {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let mut a = RocksAdapter::new(dir, ConfigRocksDB::default()).map_err(|e| e.to_string())?;
    let mut m: [BTreeMap<H256, Bytes>; 2] = Default::default();
    let key = |r: &mut Rng| {
        let mut k = [0u8; 32];
        k[0] = r.below(3) as u8;
        k[1] = *r.pick(&[0, 1, 255]);
        k[31] = r.below(4) as u8;
        H256(k)
    };
    fn step<S: StorageSchema<Key = H256, Value = Bytes> + 'static>(
        a: &RocksAdapter, m: &mut BTreeMap<H256, Bytes>, r: &mut Rng, dir: &Path, key: impl Fn(&mut Rng) -> H256,
    ) -> Result<(), String> {
        let e = |e: protocol::ProtocolError| e.to_string();
        match r.below(6) {
            0 | 1 => {
                let (k, v) = (key(r), gen::bytes(r, 50));
                a.insert::<S>(k, v.clone()).map_err(e)?;
                m.insert(k, v);
            }
            2 => {
                let k = key(r);
                a.remove::<S>(k).map_err(e)?;
                m.remove(&k);
            }
            3 | 4 => {
                let n = r.below(8);
                let ks: Vec<H256> = (0..n).map(|_| key(r)).collect();
                let vs: Vec<Option<Bytes>> = (0..n).map(|_| r.chance(2, 3).then(|| gen::bytes(r, 50))).collect();
                let mods = |vs: &[Option<Bytes>]| vs.iter().map(|v| v.clone().map_or(StorageBatchModify::Remove, StorageBatchModify::Insert)).collect::<Vec<_>>();
                if n > 0 && a.batch_modify::<S>(ks.clone(), mods(&vs[1..])).is_ok() {
                    return Err("a batch with one change missing is accepted".into());
                }
                if r.chance(1, 6) {
                    shim::fail_writes_after(dir, Some(shim::journal_len(dir)));
                    let out = a.batch_modify::<S>(ks.clone(), mods(&vs));
                    shim::fail_writes_after(dir, None);
                    if out.is_ok() {
                        return Err("a batch that could not be written is reported as written".into());
                    }
                }
                a.batch_modify::<S>(ks.clone(), mods(&vs)).map_err(e)?;
                // in the order given
                for (k, v) in ks.into_iter().zip(vs) {
                    match v {
                        Some(v) => m.insert(k, v),
                        None => m.remove(&k),
                    };
                }
            }
            _ => {}
        }
        let ks: Vec<H256> = (0..5).map(|_| key(r)).collect();
        for k in &ks {
            if a.get::<S>(*k).map_err(e)?.as_ref() != m.get(k) || a.contains::<S>(*k).map_err(e)? != m.contains_key(k) {
                return Err(format!("{} is read otherwise than stored", hex(k.0)));
            }
        }
        let all = a.get_batch::<S>(ks.clone()).map_err(e)?;
        if all != ks.iter().map(|k| m.get(k).cloned()).collect::<Vec<_>>() {
            return Err("a batch of keys is read otherwise than stored".into());
        }
        // an iterator starts at the prefix, goes on in order, and passes nothing over
        let n = r.below(3);
        let prefix = key(r).0[..n].to_vec();
        // keys are RLP strings
        let coded = [&[0xa0], &prefix[..]].concat();
        let it = a.prepare_iter::<S, _>(&coded).map_err(e)?;
        let mut got = vec![];
        for x in it.ref_to_iter() {
            let (k, v) = x.map_err(e)?;
            if !k.0.starts_with(&prefix) {
                break;
            }
            got.push((k, v));
        }
        let want: Vec<(H256, Bytes)> = m.iter().filter(|(k, _)| k.0.starts_with(&prefix)).map(|(k, v)| (*k, v.clone())).collect();
        if got != want {
            return Err(format!("iterating over {} gives {} entries of {}", hex(&prefix), got.len(), want.len()));
        }
        Ok(())
    }
    for _ in 0..40 {
        let [ma, mb] = &mut m;
        step::<TableA>(&a, ma, r, dir, key)?;
        step::<TableB>(&a, mb, r, dir, key)?;
        c.event("table steps");
            c.event("oracle.judgements");
        c.seen("table", (ma.clone().into_iter().map(|x| x.0).collect::<Vec<_>>(), mb.len()));
        if r.chance(1, 15) {
            drop(a);
            a = RocksAdapter::open(dir, ConfigRocksDB::default()).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}
