//! P70/P71: what clients read is what the chain holds, at the block they ask about.
use crate::node::*;
use crate::prog::{word, P};
use protocol::types::*;
use serde_json::{json, Value};
use vlib::oracle::{bloom_add, keccak256, R};
use vlib::{guard, Ctx, Rng};

/// asks; an answer that never comes, or is none, is a violation whatever the property
pub fn ask(c: &mut Ctx, n: &Node, method: &str, params: Value) -> Reply {
    c.event("requests");
    let rep = n.rpc(method, params.clone());
    if let Reply::Broke(at, what) = &rep {
        c.event("oracle.judgements");
        c.violate(format!("broke:{method}:{at}"), format!("{method} is not answered: {what} ({at})"), json!({"params": params}));
    }
    rep
}
/// a way to name a block: its JSON (none: left out), and which block that is
pub fn block_id(r: &mut Rng, n: &Node) -> (Option<Value>, Option<usize>, &'static str) {
    let head = n.height() as usize;
    let b = r.below(head + 1);
    match r.below(12) {
        0 | 1 => (Some(q(b as u64)), Some(b), "number"),
        2 => (Some(json!("latest")), Some(head), "latest"),
        3 => (Some(json!("pending")), Some(head), "pending"),
        4 => (Some(json!("earliest")), Some(0), "earliest"),
        5 => (Some(json!({ "blockNumber": q(b as u64) })), Some(b), "{number}"),
        6 | 7 | 8 => (Some(json!({ "blockHash": d(n.chain[b].hash) })), Some(b), "{hash}"),
        9 => (None, Some(head), "none"),
        10 => (Some(q(head as u64 + 1 + *r.pick(&[0, 0, 1, 1000, u64::MAX >> 1]))), None, "no such number"),
        _ => (Some(json!({ "blockHash": d(r.arr::<32>()) })), None, "no such hash"),
    }
}
pub fn with(mut first: Vec<Value>, id: Option<Value>) -> Value {
    first.extend(id);
    Value::Array(first)
}

fn proof_json(p: &Proof) -> Value {
    json!({"number": q(p.number), "round": q(p.round), "proposal_hash": d(p.block_hash), "signature": d(&p.signature), "bitmap": d(&p.bitmap)})
}
fn axon_block(rec: &Rec) -> Value {
    let h = &rec.block.header;
    json!({
        "header": {
            "version": "V0", "prev_hash": d(h.prev_hash), "proposer": d(h.proposer), "state_root": d(h.state_root),
            "transactions_root": d(h.transactions_root), "signed_txs_hash": d(h.signed_txs_hash), "receipts_root": d(h.receipts_root),
            "log_bloom": d(h.log_bloom.0), "timestamp": q(h.timestamp), "number": q(h.number), "gas_used": q(h.gas_used.as_u64()),
            "gas_limit": q(h.gas_limit.as_u64()), "base_fee_per_gas": q(h.base_fee_per_gas.as_u64()), "proof": proof_json(&h.proof),
            "extra_data": h.extra_data.iter().map(|e| json!({ "inner": d(&e.inner) })).collect::<Vec<_>>(),
            "call_system_script_count": q(h.call_system_script_count), "chain_id": q(h.chain_id),
        },
        "tx_hashes": rec.block.tx_hashes.iter().map(d).collect::<Vec<_>>(),
    })
}
fn bloom_of<'a>(logs: impl Iterator<Item = &'a Log>) -> [u8; 256] {
    let mut b = [0; 256];
    for l in logs {
        bloom_add(&mut b, &l.address.0);
        for t in &l.topics {
            bloom_add(&mut b, &t.0);
        }
    }
    b
}
fn log_json(rec: &Rec, tx: usize, i: usize) -> Value {
    let l = &rec.resp[tx].logs[i];
    json!({
        "address": d(l.address), "topics": l.topics.iter().map(d).collect::<Vec<_>>(), "data": d(&l.data),
        "blockNumber": q(rec.block.header.number), "blockHash": d(rec.hash), "transactionHash": d(rec.txs[tx].hash),
        "transactionIndex": q(tx as u64), "logIndex": q((rec.first_log(tx) + i) as u64), "removed": false,
    })
}
pub fn logs_of(rec: &Rec) -> Vec<(usize, usize, Value)> {
    (0..rec.txs.len()).flat_map(|t| (0..rec.resp[t].logs.len()).map(move |i| (t, i))).map(|(t, i)| (t, i, log_json(rec, t, i))).collect()
}
fn tx_json(s: &Sent, at: Option<(&Rec, usize)>) -> Value {
    let t = &s.stx.transaction;
    let u = &t.unsigned;
    let (kind, nonce, price, limit, action, value, data, access): (u64, _, _, _, _, _, _, &[AccessListItem]) = match u {
        UnsignedTransaction::Legacy(x) => (0, x.nonce, x.gas_price, x.gas_limit, &x.action, x.value, &x.data, &[]),
        UnsignedTransaction::Eip2930(x) => (1, x.nonce, x.gas_price, x.gas_limit, &x.action, x.value, &x.data, &x.access_list),
        UnsignedTransaction::Eip1559(x) => {
            (2, x.nonce, x.gas_price.max(x.max_priority_fee_per_gas), x.gas_limit, &x.action, x.value, &x.data, &x.access_list)
        }
    };
    let mut v = json!({
        "hash": d(keccak256(&s.raw)), "raw": d(&s.raw), "nonce": q(nonce.as_u64()), "from": d(s.stx.sender),
        "to": match action { TransactionAction::Call(a) => d(a), _ => Value::Null },
        "value": q(value), "gas": q(limit.as_u64()), "gasPrice": q(price.as_u64()), "input": d(data), "type": q(kind),
        "chainId": q(CHAIN), "r": q(U256::from_big_endian(&s.sig.1)), "s": q(U256::from_big_endian(&s.sig.2)),
        "accessList": access.iter().map(|a| json!({"address": d(a.address), "storageKeys": a.storage_keys.iter().map(d).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "blockNumber": at.map_or(Value::Null, |(b, _)| q(b.block.header.number)),
        "blockHash": at.map_or(Value::Null, |(b, _)| d(b.hash)),
        "transactionIndex": at.map_or(Value::Null, |(_, i)| q(i as u64)),
    });
    if kind == 0 {
        v["v"] = q(s.sig.0 as u64 + 35 + 2 * CHAIN);
    }
    if let UnsignedTransaction::Eip1559(x) = u {
        v["maxPriorityFeePerGas"] = q(x.max_priority_fee_per_gas.as_u64());
    }
    v
}
fn receipt_json(rec: &Rec, i: usize) -> Value {
    let (s, resp) = (&rec.txs[i], &rec.resp[i]);
    let nonce = s.stx.transaction.unsigned.nonce().low_u64();
    let make = s.stx.transaction.unsigned.action() == &TransactionAction::Create;
    json!({
        "transactionHash": d(s.hash), "transactionIndex": q(i as u64), "blockHash": d(rec.hash),
        "blockNumber": q(rec.block.header.number), "from": d(s.stx.sender),
        "to": s.stx.get_to().map_or(Value::Null, |a| d(a)),
        "contractAddress": if make && resp.exit_reason.is_succeed() { d(created(&s.stx.sender, nonce)) } else { Value::Null },
        "gasUsed": q(resp.gas_used), "cumulativeGasUsed": q(rec.resp[..=i].iter().map(|r| r.gas_used).sum::<u64>()),
        "effectiveGasPrice": q(resp.fee_cost / U256::from(resp.gas_used)),
        "status": q(resp.exit_reason.is_succeed() as u64), "logsBloom": d(bloom_of(resp.logs.iter())),
        "logs": (0..resp.logs.len()).map(|l| log_json(rec, i, l)).collect::<Vec<_>>(),
        "type": tx_json(s, None)["type"],
    })
}
fn block_json(rec: &Rec, rich: bool) -> Value {
    let h = &rec.block.header;
    json!({
        "hash": d(rec.hash), "parentHash": d(h.prev_hash), "number": q(h.number), "miner": d(h.proposer), "author": d(h.proposer),
        "stateRoot": d(h.state_root), "transactionsRoot": d(h.transactions_root), "receiptsRoot": d(h.receipts_root),
        "gasUsed": q(rec.resp.iter().map(|r| r.gas_used).sum::<u64>()), "gasLimit": q(h.gas_limit.as_u64()),
        "timestamp": q(h.timestamp), "baseFeePerGas": q(h.base_fee_per_gas.as_u64()),
        "extraData": d(R::L(h.extra_data.iter().map(|e| R::L(vec![R::b(&e.inner)])).collect()).enc()),
        "logsBloom": d(bloom_of(rec.resp.iter().flat_map(|r| r.logs.iter()))),
        "uncles": [],
        "transactions": rec.txs.iter().enumerate().map(|(i, t)| if rich { tx_json(t, Some((rec, i))) } else { d(t.hash) }).collect::<Vec<_>>(),
    })
}
/// every field of `want` as it should be in `got`, each judged under its own name
pub fn same(c: &mut Ctx, what: &str, want: &Value, got: &Value, ask: &Value) -> bool {
    match (want, got) {
        (Value::Object(w), Value::Object(g)) => {
            // another thing altogether is one difference, not as many as it has fields
            if let (Some(x), Some(y)) = (w.get("hash"), g.get("hash")) {
                if x != y {
                    return c.ensure(false, &format!("{what}.hash"), || (format!("another {what} is given"), json!({"asked": ask, "expected": x, "got": y})));
                }
            }
            let mut ok = true;
            for (k, v) in w {
                match g.get(k) {
                    Some(x) => ok &= same(c, &format!("{what}.{k}"), v, x, ask),
                    None => {
                        ok = false;
                        c.violate(format!("{what}.{k}:missing"), format!("{what} has no {k}"), json!({"asked": ask, "got": got}));
                    }
                }
            }
            ok
        }
        (Value::Array(w), Value::Array(g)) if w.len() == g.len() => {
            let mut ok = true;
            for (x, y) in w.iter().zip(g) {
                ok &= same(c, what, x, y, ask);
            }
            ok
        }
        _ => c.ensure(want == got, what, || (format!("{what} differs"), json!({"asked": ask, "expected": want, "got": got}))),
    }
}
fn none_or_error(r: &Reply) -> bool {
    matches!(r, Reply::Err { .. } | Reply::Ok(Value::Null))
}

pub fn p70(c: &mut Ctx) {
    c.stage("reads");
    for n in 0..c.scale(200, 16000) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| history(c, n)) {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n}));
        }
        no_panics(c, "reading the chain", json!({"history": n}));
    }
}

fn history(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let turn = 2 + r.below(6) as u64;
    let dir = c.scratch.join(format!("r{num}"));
    let andromeda = r.bool();
    let hardfork = if andromeda { H256::from_low_u64_be(1u64.to_be()) } else { H256::zero() };
    let mut n = Node::new(&dir, Options { turn, hardfork, cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    for round in 0..3 {
        for _ in 0..1 + r.below(3) {
            n.some_block(r, 7);
        }
        c.add("blocks", 1);
        if r.chance(1, 3) {
            n.restart();
        }
        // in the pool, not yet in a block
        let mut pending = vec![];
        for _ in 0..r.below(3) {
            let k = r.below(3);
            let s = n.sign(5, k, Some(H160::repeat_byte(0x77)), 1.into(), vec![], 30_000, GWEI, r.below(5) as u64);
            let (pool, stx) = (std::sync::Arc::clone(&n.pool), s.stx.clone());
            use protocol::traits::MemPool;
            if wait(async move { pool.insert(protocol::traits::Context::new(), stx).await }).is_ok() {
                pending.push(s);
            }
        }
        for _ in 0..40 {
            one_read(c, r, &n, &pending, turn, andromeda);
        }
        // what is pending becomes part of the next block, or of none
        if round < 2 && r.bool() {
            n.commit(r, pending);
        } else {
            n.nonces.clear();
            n.pool = start_pool(&n.w);
            let (root, pool) = (n.w.root(), std::sync::Arc::clone(&n.pool));
            use protocol::traits::MemPool;
            pool.set_args(protocol::traits::Context::new(), root, 30_000_000, 500_000);
            n.serve();
        }
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}

fn one_read(c: &mut Ctx, r: &mut Rng, n: &Node, pending: &[Sent], turn: u64, andromeda: bool) {
    let head = n.height() as usize;
    let b = r.below(head + 1);
    let rec = &n.chain[b];
    let rich = r.bool();
    match r.below(16) {
        0 | 1 => {
            let (id, at, how) = block_id(r, n);
            let Some(id) = id else { return };
            let ps = json!([id, rich]);
            let rep = ask(c, n, "eth_getBlockByNumber", ps.clone());
            c.seen("block by", (how, at, rich));
            match (at, &rep) {
                (Some(i), Reply::Ok(v)) => {
                    same(c, "block", &block_json(&n.chain[i], rich), v, &json!(["eth_getBlockByNumber", ps]));
                }
                _ => {
                    c.ensure(at.is_none() && none_or_error(&rep), "eth_getBlockByNumber", || {
                        ("an existing block is not given, or a missing one is".into(), json!({"params": ps, "got": format!("{rep:?}").chars().take(300).collect::<String>()}))
                    });
                }
            }
        }
        2 => {
            let known = r.chance(5, 6);
            let h = if known { rec.hash } else { H256(r.arr()) };
            let ps = json!([d(h), rich]);
            let rep = ask(c, n, "eth_getBlockByHash", ps.clone());
            c.seen("block by hash", (b, rich));
            if known {
                let v = rep.ok().cloned().unwrap_or_default();
                same(c, "block", &block_json(rec, rich), &v, &json!(["eth_getBlockByHash", ps]));
            } else {
                c.ensure(none_or_error(&rep), "eth_getBlockByHash", || ("a block nobody made is given".into(), json!({"params": ps})));
            }
            let rep = ask(c, n, "eth_getBlockTransactionCountByHash", json!([d(h)]));
            c.ensure(if known { rep.u256() == Some(rec.txs.len().into()) } else { rep.u256().map_or(true, |x| x.is_zero()) },
                "eth_getBlockTransactionCountByHash", || ("not the number of transactions of that block".into(), json!({"block": b, "of": rec.txs.len(), "got": format!("{rep:?}")})));
        }
        3 => {
            let (Some(id), at, how) = block_id(r, n) else { return };
            let rep = ask(c, n, "eth_getBlockTransactionCountByNumber", json!([id]));
            c.seen("count by", (how, at));
            let want = at.map(|i| n.chain[i].txs.len());
            c.ensure(match want { Some(k) => rep.u256() == Some(k.into()), None => rep.u256().map_or(true, |x| x.is_zero()) },
                "eth_getBlockTransactionCountByNumber", || ("not the number of transactions of that block".into(), json!({"id": id, "of": want, "got": format!("{rep:?}")})));
        }
        4 => {
            let rep = ask(c, n, "eth_blockNumber", json!([]));
            c.ensure(rep.u256() == Some(head.into()), "eth_blockNumber", || ("not the height of the chain".into(), json!({"height": head, "got": format!("{rep:?}")})));
        }
        5 | 6 => {
            if rec.txs.is_empty() {
                return;
            }
            let i = r.below(rec.txs.len());
            let ps = json!([d(rec.txs[i].hash)]);
            let rep = ask(c, n, "eth_getTransactionByHash", ps.clone());
            c.seen("transaction", (rec.txs[i].hash, "by hash"));
            same(c, "transaction", &tx_json(&rec.txs[i], Some((rec, i))), &rep.ok().cloned().unwrap_or_default(), &json!(["eth_getTransactionByHash", ps]));
        }
        7 | 8 => {
            if rec.txs.is_empty() {
                return;
            }
            let i = r.below(rec.txs.len());
            let ps = json!([d(rec.txs[i].hash)]);
            let rep = ask(c, n, "eth_getTransactionReceipt", ps.clone());
            c.seen("receipt", rec.txs[i].hash);
            c.event(if rec.resp[i].exit_reason.is_succeed() { "receipts.succeeded" } else { "receipts.failed" });
            same(c, "receipt", &receipt_json(rec, i), &rep.ok().cloned().unwrap_or_default(), &json!(["eth_getTransactionReceipt", ps]));
        }
        9 => {
            let i = *r.pick(&[0usize, 0, 1, 2, 5, 100]);
            let ps = json!([d(rec.hash), q(i as u64)]);
            let rep = ask(c, n, "eth_getTransactionByBlockHashAndIndex", ps.clone());
            c.seen("by place", (b, i));
            match rec.txs.get(i) {
                Some(t) => {
                    same(c, "transaction", &tx_json(t, Some((rec, i))), &rep.ok().cloned().unwrap_or_default(), &json!(["eth_getTransactionByBlockHashAndIndex", ps]));
                }
                None => {
                    c.ensure(none_or_error(&rep), "eth_getTransactionByBlockHashAndIndex", || ("a transaction that is not there".into(), json!({"params": ps})));
                }
            }
        }
        10 => {
            let (Some(id), at, how) = block_id(r, n) else { return };
            let i = *r.pick(&[0usize, 0, 1, 2, 5, 100]);
            let ps = json!([id, q(i as u64)]);
            let rep = ask(c, n, "eth_getTransactionByBlockNumberAndIndex", ps.clone());
            c.seen("by place", (how, i));
            match at.and_then(|b| n.chain[b].txs.get(i).map(|t| (b, t))) {
                Some((b, t)) => {
                    same(c, "transaction", &tx_json(t, Some((&n.chain[b], i))), &rep.ok().cloned().unwrap_or_default(), &json!(["eth_getTransactionByBlockNumberAndIndex", ps]));
                }
                None => {
                    c.ensure(none_or_error(&rep), "eth_getTransactionByBlockNumberAndIndex", || ("a transaction that is not there".into(), json!({"params": ps, "got": format!("{rep:?}").chars().take(300).collect::<String>()})));
                }
            }
        }
        11 => {
            // known to the pool only, or to nobody
            let (h, s) = match pending.get(r.below(3)) {
                Some(s) => (s.hash, Some(s)),
                None => (H256(r.arr()), None),
            };
            let rep = ask(c, n, "eth_getTransactionReceipt", json!([d(h)]));
            c.ensure(none_or_error(&rep), "receipt:none", || ("a receipt of a transaction that no block holds".into(), json!({"hash": d(h)})));
            let rep = ask(c, n, "eth_getTransactionByHash", json!([d(h)]));
            match s {
                Some(s) => {
                    c.event("pending.read");
                    same(c, "pending", &tx_json(s, None), &rep.ok().cloned().unwrap_or_default(), &json!(["eth_getTransactionByHash", d(h)]));
                }
                None => {
                    c.ensure(none_or_error(&rep), "transaction:none", || ("a transaction nobody sent".into(), json!({"hash": d(h)})));
                }
            }
        }
        12 => {
            let known = r.chance(4, 5);
            let (id, at) = match r.below(3) {
                _ if !known => (json!({ "blockHash": d(r.arr::<32>()) }), None),
                0 => (q(b as u64), Some(b)),
                1 => (json!({ "blockHash": d(rec.hash) }), Some(b)),
                _ => (json!("latest"), Some(head)),
            };
            let rep = ask(c, n, "axon_getBlockById", json!([id]));
            c.seen("axon block", at);
            let rep2 = ask(c, n, "axon_getProofById", json!([id]));
            match at {
                Some(i) => {
                    same(c, "axon_getBlockById", &axon_block(&n.chain[i]), &rep.ok().cloned().unwrap_or_default(), &id);
                    same(c, "axon_getProofById", &proof_json(&n.chain[i].block.header.proof), &rep2.ok().cloned().unwrap_or_default(), &id);
                }
                None => {
                    c.ensure(none_or_error(&rep) && none_or_error(&rep2), "axon_getBlockById", || ("a block nobody made is given".into(), json!({"id": id})));
                }
            }
        }
        13 => {
            let beyond = r.chance(1, 6);
            let k = if beyond { head + 1 + r.below(3) } else { b };
            let rep = ask(c, n, "axon_getProposalByNumber", json!([q(k as u64)]));
            c.seen("axon proposal", k);
            match n.chain.get(k) {
                Some(x) => {
                    let mut want = axon_block(x)["header"].clone();
                    // what only a block has, and what a proposal is not given
                    for f in ["state_root", "receipts_root", "log_bloom", "gas_used", "base_fee_per_gas"] {
                        want.as_object_mut().unwrap().remove(f);
                    }
                    want["prev_state_root"] = d(if k == 0 { H256::zero() } else { n.chain[k - 1].block.header.state_root });
                    want["tx_hashes"] = json!(x.block.tx_hashes.iter().map(d).collect::<Vec<_>>());
                    same(c, "axon_getProposalByNumber", &want, &rep.ok().cloned().unwrap_or_default(), &json!(k));
                }
                None => {
                    c.ensure(none_or_error(&rep), "axon_getProposalByNumber", || ("a proposal of no block".into(), json!({"number": k})));
                }
            }
        }
        14 => {
            let (k, rep) = if r.bool() {
                (head as u64, ask(c, n, "axon_getCurrentMetadata", json!([])))
            } else {
                (b as u64, ask(c, n, "axon_getMetadataByNumber", json!([q(b as u64)])))
            };
            if k > 0 {
                let (epoch, start, end) = if k <= turn { (0, 1, turn) } else { (1, turn + 1, 1_000_000) };
                c.seen("metadata", (k, turn));
                let want = json!({
                    "epoch": q(epoch), "version": {"start": q(start), "end": q(end)},
                    "verifier_list": [{"address": d(n.keys[epoch as usize].addr), "propose_weight": "0x1", "vote_weight": "0x1"}],
                });
                same(c, "metadata", &want, &rep.ok().cloned().unwrap_or_default(), &json!({"number": k, "turn": turn}));
            }
            let rep = ask(c, n, "axon_getHardforkInfo", json!([]));
            let want = if andromeda { json!({"Andromeda": "enabled"}) } else { json!({}) };
            let got = rep.ok().map(|v| v.to_string().to_lowercase());
            c.ensure(got == Some(want.to_string().to_lowercase()), "axon_getHardforkInfo", || ("not what the chain decided".into(), json!({"andromeda": andromeda, "got": got})));
        }
        _ => {
            let data = r.edge_bytes(200);
            for (m, ps, want) in [
                ("eth_chainId", json!([]), q(CHAIN)),
                ("net_version", json!([]), json!(CHAIN.to_string())),
                ("web3_clientVersion", json!([]), json!(VERSION)),
                ("net_peerCount", json!([]), q(crate::net::PEERS)),
                ("web3_sha3", json!([d(&data)]), d(keccak256(&data))),
                ("eth_getUncleCountByBlockNumber", json!(["latest"]), q(0)),
                ("eth_getUncleByBlockHashAndIndex", json!([d(rec.hash), "0x0"]), Value::Null),
                ("eth_syncing", json!([]), json!(false)),
            ] {
                let rep = ask(c, n, m, ps.clone());
                c.ensure(rep.ok() == Some(&want), m, || (format!("{m} is not answered as it is"), json!({"params": ps, "expected": want, "got": format!("{rep:?}")})));
            }
        }
    }
}

/// the reads an eth_call program can make of the state
fn state_words(n: &Node, r: &mut Rng, at: usize, runner: &H160) -> (P, Vec<[u8; 32]>) {
    let stored = n.stored(at, runner);
    let mut words = vec![];
    let mut want = vec![];
    let rec = &n.chain[at];
    for _ in 0..4 {
        let k = slot(r);
        let mut p = P::new();
        p.push(&word(k)).op(&[0x54]);
        words.push(p.0);
        want.push(word(stored.get(&keccak256(&word(k))).copied().unwrap_or_default()));
        let who = *r.pick(&n.keys.iter().map(|k| k.addr).collect::<Vec<_>>());
        let mut p = P::new();
        p.push(&who.0).op(&[0x31]);
        words.push(p.0);
        want.push(word(rec.acc(&who).balance));
    }
    let mut p = P::new();
    p.answers(&words);
    (p, want)
}

pub fn p71(c: &mut Ctx) {
    c.stage("state");
    for num in 0..c.scale(200, 16000) {
        if !c.within(0.9) {
            break;
        }
        let done = guard(|| {
            let mut rng = c.rng.fork();
            let r = &mut rng;
            let dir = c.scratch.join(format!("s{num}"));
            let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
            n.equip(r, 3);
            for _ in 0..4 {
                n.some_block(r, 7);
                if r.chance(1, 4) {
                    n.restart();
                }
                for _ in 0..40 {
                    one_state(c, r, &n);
                }
            }
            drop(n);
            let _ = std::fs::remove_dir_all(&dir);
        });
        if let Err(p) = done {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "reading the state", json!({"history": num}));
    }
}

fn one_state(c: &mut Ctx, r: &mut Rng, n: &Node) {
    let (id, at, how) = block_id(r, n);
    let mut who: Vec<H160> = n.keys.iter().map(|k| k.addr).collect();
    who.extend(&n.runners);
    who.extend(&n.runners);
    who.extend([H160::repeat_byte(0xa1), H160::repeat_byte(0xa2), H160(r.arr())]);
    for t in n.chain.iter().flat_map(|x| &x.txs) {
        if t.stx.get_to().is_none() && r.chance(1, 4) {
            who.push(created(&t.stx.sender, t.stx.transaction.unsigned.nonce().low_u64()));
        }
    }
    let a = *r.pick(&who);
    let note = |what: &str, rep: &Reply, want: String| (format!("{what} is not that of the block asked for"), json!({"account": d(a), "id": id, "block": at, "expected": want, "got": format!("{rep:?}").chars().take(300).collect::<String>()}));
    match r.below(6) {
        0 | 1 => {
            let rep = ask(c, n, "eth_getBalance", with(vec![d(a)], id.clone()));
            c.seen("balance", (how, a, at));
            match at {
                Some(b) => c.ensure(rep.u256() == Some(n.chain[b].acc(&a).balance), "eth_getBalance", || note("the balance", &rep, n.chain[b].acc(&a).balance.to_string())),
                // of a block that is not there: an error, or nothing
                None => c.ensure(rep.u256().map_or(true, |x| x.is_zero()), "eth_getBalance:no-block", || note("the balance", &rep, "error".into())),
            };
        }
        2 => {
            let rep = ask(c, n, "eth_getTransactionCount", with(vec![d(a)], id.clone()));
            c.seen("nonce", (how, a, at));
            match at {
                Some(b) => c.ensure(rep.u256() == Some(n.chain[b].acc(&a).nonce), "eth_getTransactionCount", || note("the nonce", &rep, n.chain[b].acc(&a).nonce.to_string())),
                None => c.ensure(rep.u256().map_or(true, |x| x.is_zero()), "eth_getTransactionCount:no-block", || note("the nonce", &rep, "error".into())),
            };
        }
        3 => {
            let rep = ask(c, n, "eth_getCode", with(vec![d(a)], id.clone()));
            c.seen("code", (how, a, at));
            match at {
                Some(b) => {
                    let code = n.chain[b].acc(&a).code;
                    c.ensure(rep.bytes().map(|b| keccak256(&b)) == Some(code.0), "eth_getCode", || note("the code", &rep, format!("hashing to {code:?}")))
                }
                None => c.ensure(rep.bytes().map_or(true, |x| x.is_empty()), "eth_getCode:no-block", || note("the code", &rep, "error".into())),
            };
        }
        4 => {
            let k = slot(r);
            let rep = ask(c, n, "eth_getStorageAt", with(vec![d(a), q(k)], id.clone()));
            c.seen("slot", (how, a, k, at));
            match at {
                Some(b) => {
                    let v = n.stored(b, &a).get(&keccak256(&word(k))).copied().unwrap_or_default();
                    if !v.is_zero() {
                        c.event("slots.set");
                    }
                    c.ensure(rep.bytes() == Some(word(v).to_vec()), "eth_getStorageAt", || note("the slot", &rep, v.to_string()))
                }
                None => c.ensure(rep.bytes().map_or(true, |x| x.iter().all(|b| *b == 0)), "eth_getStorageAt:no-block", || note("the slot", &rep, "error".into())),
            };
        }
        _ => {
            let Some(id) = id.clone() else { return };
            let slots: Vec<U256> = (0..r.below(4)).map(|_| slot(r)).collect();
            let rep = ask(c, n, "eth_getProof", json!([d(a), slots.iter().map(|s| q(*s)).collect::<Vec<_>>(), id]));
            c.seen("proof", (how, a, at, &slots));
            let Some(b) = at else {
                c.ensure(none_or_error(&rep), "eth_getProof:no-block", || note("the proof", &rep, "error".into()));
                return;
            };
            match check_proof(n, b, &a, &slots, &rep) {
                Ok(()) => {
                    c.event("proofs.verified");
                    c.event("oracle.judgements");
                }
                Err(e) => {
                    c.ensure(false, &format!("eth_getProof:{}", e.0), || note("the proof", &rep, e.1));
                }
            }
        }
    }
    if let (Some(b), true) = (at, r.chance(1, 6)) {
        // the same through a call
        let runner = *r.pick(&n.runners);
        if n.chain[b].acc(&runner).code == NIL_DATA {
            return;
        }
        let (p, want) = state_words(n, r, b, &runner);
        let rep = ask(c, n, "eth_call", with(vec![json!({"from": d(n.keys[0].addr), "to": d(runner), "data": d(p.wrap())})], id.clone()));
        c.seen("called", (how, b));
        c.ensure(rep.bytes() == Some(want.concat()), "eth_call:state", || note("what a call sees", &rep, d(want.concat()).to_string()));
    }
}

/// walks a proof from the root as a client that trusts only the root would
fn walk(root: H256, key: &[u8; 32], proof: &[Vec<u8>]) -> Result<Option<Vec<u8>>, String> {
    let nibs: Vec<u8> = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
    let mut at = 0;
    let mut want = R::B(root.0.to_vec());
    let mut left = proof.iter();
    if root == RLP_NULL {
        return Ok(None);
    }
    loop {
        let node = match &want {
            R::L(_) => want.clone(),
            R::B(h) if h.is_empty() => return Ok(None),
            R::B(h) => {
                let raw = left.next().ok_or("the proof ends early")?;
                if keccak256(raw).as_slice() != h.as_slice() {
                    return Err("a node of the proof does not hash to what refers to it".into());
                }
                R::dec(raw).ok_or("a node that is not RLP")?.0
            }
        };
        let R::L(items) = node else { return Err("a node that is no list".into()) };
        if items.len() == 17 {
            if at == 64 {
                return match &items[16] {
                    R::B(v) => Ok((!v.is_empty()).then(|| v.clone())),
                    _ => Err("a value that is a list".into()),
                };
            }
            want = items[nibs[at] as usize].clone();
            at += 1;
            continue;
        }
        let (Some(R::B(p)), 2) = (items.first(), items.len()) else { return Err("a node of neither kind".into()) };
        let mut path: Vec<u8> = p.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        let leaf = path[0] & 2 != 0;
        path.drain(..if path[0] & 1 != 0 { 1 } else { 2 });
        if !nibs[at..].starts_with(&path) {
            return Ok(None);
        }
        at += path.len();
        if leaf {
            return match &items[1] {
                R::B(v) if at == 64 => Ok(Some(v.clone())),
                _ => Err("a leaf in the wrong place".into()),
            };
        }
        want = items[1].clone();
    }
}
fn check_proof(n: &Node, b: usize, a: &H160, slots: &[U256], rep: &Reply) -> Result<(), (&'static str, String)> {
    let v = rep.ok().ok_or(("refused", "a proof".to_owned()))?;
    let rec = &n.chain[b];
    let exists = rec.accounts.contains_key(&keccak256(&a.0));
    let acc = rec.acc(a);
    let nodes = |v: &Value| -> Option<Vec<Vec<u8>>> { v.as_array()?.iter().map(bytes).collect() };
    let ps = nodes(&v["accountProof"]).ok_or(("form", "accountProof".to_owned()))?;
    let got = walk(rec.block.header.state_root, &keccak256(&a.0), &ps).map_err(|e| ("account", e))?;
    let enc = |acc: &Acc| R::L(vec![gen::r_u256(&acc.nonce), gen::r_u256(&acc.balance), R::b(acc.storage.0), R::b(acc.code.0)]).enc();
    if got != exists.then(|| enc(&acc)) {
        return Err(("account", format!("the proof shows {got:?}")));
    }
    if exists {
        for (f, x) in [("balance", q(acc.balance)), ("nonce", q(acc.nonce)), ("codeHash", d(acc.code)), ("storageHash", d(acc.storage))] {
            if v[f] != x {
                return Err((f, x.to_string()));
            }
        }
    }
    if v["address"] != d(a) {
        return Err(("address", d(a).to_string()));
    }
    let stored = n.stored(b, a);
    let items = v["storageProof"].as_array().ok_or(("form", "storageProof".to_owned()))?;
    if items.len() != slots.len() {
        return Err(("form", format!("{} storage proofs", slots.len())));
    }
    for (k, it) in slots.iter().zip(items) {
        let x = stored.get(&keccak256(&word(*k))).copied();
        if it["key"] != q(*k) || it["value"] != q(x.unwrap_or_default()) {
            return Err(("slot", format!("slot {k}: {x:?}")));
        }
        let ps = nodes(&it["proof"]).ok_or(("form", "proof".to_owned()))?;
        let got = walk(acc.storage, &keccak256(&word(*k)), &ps).map_err(|e| ("storage", e))?;
        if got.map(|raw| match R::dec(&raw) { Some((R::B(b), _)) => U256::from_big_endian(&b), _ => U256::max_value() }) != x {
            return Err(("storage", format!("slot {k}: {x:?}")));
        }
    }
    Ok(())
}
