//! P75: whatever clients send, the node lives on and goes on answering everybody.
use crate::node::*;
use crate::prog::{deploy, word, P};
use jsonrpsee::sim;
use protocol::types::*;
use serde_json::{json, Value};
use std::time::Duration;
use vlib::oracle::keccak256;
use vlib::{guard, Ctx, Rng};

/// what a client may ask for, as documented, with the kinds of its parameters
const METHODS: [(&str, &str); 52] = [
    ("eth_sendRawTransaction", "x"), ("eth_getTransactionByHash", "h"), ("eth_getBlockByNumber", "nb"),
    ("eth_getBlockByHash", "hb"), ("eth_blockNumber", ""), ("eth_getTransactionCount", "an"),
    ("eth_getBlockTransactionCountByNumber", "n"), ("eth_getBalance", "an"), ("eth_call", "rn"),
    ("eth_estimateGas", "rn"), ("eth_getCode", "an"), ("eth_getTransactionReceipt", "h"), ("eth_gasPrice", ""),
    ("eth_getLogs", "f"), ("eth_feeHistory", "qnp"), ("eth_accounts", ""), ("eth_getBlockTransactionCountByHash", "h"),
    ("eth_getTransactionByBlockHashAndIndex", "hq"), ("eth_getTransactionByBlockNumberAndIndex", "nq"),
    ("net_peerCount", ""), ("eth_getStorageAt", "aqn"), ("eth_protocolVersion", ""),
    ("eth_getUncleByBlockHashAndIndex", "hq"), ("eth_getUncleByBlockNumberAndIndex", "nq"),
    ("eth_getUncleCountByBlockHash", "h"), ("eth_getUncleCountByBlockNumber", "n"), ("eth_getProof", "asn"),
    ("eth_newFilter", "f"), ("eth_newBlockFilter", ""), ("eth_getFilterLogs", "i"), ("eth_getFilterChanges", "i"),
    ("eth_uninstallFilter", "i"), ("eth_chainId", ""), ("net_version", ""), ("web3_clientVersion", ""),
    ("net_listening", ""), ("eth_syncing", ""), ("eth_mining", ""), ("eth_coinbase", ""), ("eth_hashrate", ""),
    ("eth_submitWork", "qhx"), ("eth_submitHashrate", "xx"), ("web3_sha3", "x"),
    ("axon_getBlockById", "n"), ("axon_getProofById", "n"), ("axon_getMetadataByNumber", "q"),
    ("axon_getProposalByNumber", "q"), ("axon_getCurrentMetadata", ""), ("axon_getCkbRelatedInfo", ""),
    ("axon_getHardforkInfo", ""), ("ckb_getBlockHeaderByHash", "h"), ("ckb_getLiveCell", "ob"),
];

pub fn p75(c: &mut Ctx) {
    c.stage("hostile clients");
    for num in 0..c.scale(300, 30000) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| siege(c, num)) {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "serving hostile clients", json!({"history": num}));
    }
}

/// any JSON at all
fn junk(r: &mut Rng, deep: usize) -> Value {
    match r.below(if deep > 2 { 9 } else { 11 }) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 => json!(r.edge_u64()),
        3 => json!(*r.pick(&[-1i64, i64::MIN, -100])),
        4 => json!(*r.pick(&[0.5, -0.0, 1e300, 1e-300, 100.0, 100.5, 1e19])),
        5 => {
            let l = r.below(70);
            json!(format!("0x{}", &vlib::hex(r.bytes(l)).trim_start_matches("0x")[r.below(2).min(l)..]))
        }
        6 => json!(*r.pick(&["", "0x", "0", "x", "latest", "Latest", "pending", "finalized", "0xg", "0x-1", "-0x1", "0X1", "0x00", "é", "0xé", "\u{0}", "null"])),
        7 => quantity(r),
        8 => json!("0x".to_owned() + &"f".repeat(*r.pick(&[15, 16, 17, 39, 40, 41, 63, 64, 65, 66, 128, 511, 512, 513]))),
        9 => Value::Array((0..r.below(5)).map(|_| junk(r, deep + 1)).collect()),
        _ => {
            let ks = ["blockHash", "blockNumber", "address", "topics", "fromBlock", "toBlock", "from", "to", "data", "value", "gas", "gasPrice", "nonce", "txHash", "index", ""];
            Value::Object((0..r.below(4)).map(|_| (r.pick(&ks).to_string(), junk(r, deep + 1))).collect())
        }
    }
}
fn quantity(r: &mut Rng) -> Value {
    let mut b: [u8; 32] = r.arr();
    match r.below(5) {
        0 => return q(r.below(12) as u64),
        1 => return q(r.edge_u64()),
        2 => return q((U256::one() << r.below(256)) - U256::from(r.below(2) as u64)),
        3 => return q(U256::max_value()),
        _ => b[..r.below(32)].fill(0),
    }
    q(U256::from_big_endian(&b))
}
fn hash(r: &mut Rng, n: &Node) -> Value {
    let b = r.pick(&n.chain);
    match r.below(5) {
        0 => d(b.hash),
        1 => b.txs.first().map_or(d([0u8; 32]), |t| d(t.hash)),
        2 => d(*r.pick(&[[0u8; 32], [0xff; 32]])),
        3 => d(b.block.header.state_root),
        _ => d(r.arr::<32>()),
    }
}
fn address(r: &mut Rng, n: &Node) -> H160 {
    match r.below(6) {
        0 => n.keys[r.below(6)].addr,
        1 if !n.runners.is_empty() => *r.pick(&n.runners),
        // what is built in
        2 => H160::from_low_u64_be(r.below(12) as u64),
        3 => H160::from_low_u64_be(256 + r.below(12) as u64),
        4 => {
            let mut a = [0xff; 20];
            a[19] = r.below(8) as u8;
            H160(a)
        }
        _ => H160(r.arr()),
    }
}
fn number(r: &mut Rng, n: &Node) -> Value {
    match r.below(9) {
        0 => quantity(r),
        1 => json!({ "blockHash": hash(r, n) }),
        2 => json!({ "blockNumber": quantity(r) }),
        3 => json!({"blockHash": hash(r, n), "blockNumber": quantity(r), "requireCanonical": r.bool()}),
        4 => json!(*r.pick(&["latest", "pending", "earliest", "safe", "finalized", ""])),
        5 => json!({}),
        6 => q(n.height() + r.below(3) as u64),
        _ => q(r.below(n.chain.len()) as u64),
    }
}
fn filter(r: &mut Rng, n: &Node) -> Value {
    let mut f = json!({});
    for k in ["fromBlock", "toBlock"] {
        if r.chance(2, 3) {
            f[k] = number(r, n);
        }
    }
    if r.chance(1, 3) {
        f["blockHash"] = hash(r, n);
    }
    if r.bool() {
        f["address"] = match r.below(4) {
            0 => Value::Array(vec![]),
            1 => json!((0..r.below(40)).map(|_| d(address(r, n))).collect::<Vec<_>>()),
            2 => junk(r, 0),
            _ => d(address(r, n)),
        };
    }
    if r.bool() {
        f["topics"] = (0..r.below(7))
            .map(|_| match r.below(5) {
                0 => Value::Null,
                1 => d(topic(r.below(TOPICS))),
                2 => json!((0..r.below(30)).map(|_| d(topic(r.below(TOPICS)))).collect::<Vec<_>>()),
                3 => json!([null, [null]]),
                _ => junk(r, 1),
            })
            .collect();
    }
    f
}
fn call(r: &mut Rng, n: &Node) -> Value {
    let mut v = json!({});
    if r.chance(3, 4) {
        v["from"] = d(address(r, n));
    }
    let to = address(r, n);
    if r.chance(4, 5) {
        v["to"] = d(to);
    }
    let l = *r.pick(&[0, 1, 4, 31, 32, 33, 64, 96, 128, 192, 213, 300, 1000]);
    let mut data = r.bytes(l);
    match r.below(5) {
        0 => {
            // as if it were encoded as contracts do
            for (i, w) in data.chunks_mut(32).enumerate() {
                let x = *r.pick(&[0, 1, 32, 64, 96, 32 * i as u64 + 32, 255, u32::MAX as u64, u64::MAX]);
                let x = if r.chance(1, 8) { U256::max_value() } else { x.into() };
                let l = w.len();
                w.copy_from_slice(&word(x)[..l]);
            }
        }
        1 => {
            // fails in a way of its own
            let mut p = P::new();
            let mut e = vec![0x08, 0xc3, 0x79, 0xa0];
            e.extend(word(*r.pick(&[0.into(), 32.into(), U256::from(u64::MAX), U256::max_value()])));
            e.extend(word(*r.pick(&[0.into(), 5.into(), 33.into(), U256::from(u64::MAX), U256::max_value()])));
            let more = r.below(70);
            e.extend(r.bytes(more));
            e.truncate(r.below(e.len() + 1));
            p.revert(&e);
            data = if v.get("to").is_some() { p.wrap() } else { p.0 };
        }
        2 => {
            // one of what is built in is called by a contract
            let mut p = P::new();
            let l = l.min(300);
            let (a, b) = (address(r, n), r.bytes(l));
            p.call(&a, &b);
            p.op(&[0x3d, 0x60, 0, 0x60, 0, 0x3e, 0x00]);
            data = deploy(&p.0);
        }
        _ => {}
    }
    v["data"] = d(data);
    for (k, x) in [("gas", quantity(r)), ("gasPrice", quantity(r)), ("value", quantity(r)), ("nonce", quantity(r)), ("maxFeePerGas", quantity(r)), ("maxPriorityFeePerGas", quantity(r)), ("type", quantity(r))] {
        if r.chance(1, 5) {
            v[k] = x;
        }
    }
    if r.chance(1, 6) {
        v["accessList"] = if r.bool() { junk(r, 0) } else { json!([{"address": d(address(r, n)), "storageKeys": [hash(r, n)]}]) };
    }
    v
}
fn param(r: &mut Rng, n: &Node, kind: char, ids: &[Value]) -> Value {
    match kind {
        'h' => hash(r, n),
        'a' => d(address(r, n)),
        'n' => number(r, n),
        'q' => quantity(r),
        'b' => json!(r.bool()),
        'x' => match r.below(4) {
            0 => n.chain.last().and_then(|b| b.txs.first()).map_or(json!("0x"), |t| d(&t.raw)),
            1 => {
                // a transaction, as broken as can be
                let kind = r.below(3);
                let s = n.keys[0].sign_raw(&gen::unsigned(r, kind), Some(CHAIN)).0;
                d(if r.bool() { gen::mutate(r, &s) } else { gen::mutate_rlp(r, &s) })
            }
            _ => {
                let l = r.below(200);
                d(r.bytes(l))
            }
        },
        'r' => call(r, n),
        'f' => filter(r, n),
        'i' if !ids.is_empty() && r.bool() => r.pick(ids).clone(),
        'i' => quantity(r),
        's' => (0..r.below(4)).map(|_| quantity(r)).collect(),
        'p' => {
            let l = *r.pick(&[0, 1, 2, 3, 10, 101]);
            (0..l).map(|i| if r.chance(1, 9) { json!(*r.pick(&[-1.0, 100.1, 1e300, 100.0, 0.0])) } else { json!(i as f64) }).collect()
        }
        'o' => json!({"txHash": hash(r, n), "tx_hash": hash(r, n), "index": match r.below(3) { 0 => quantity(r), 1 => json!(r.edge_u64()), _ => q(r.edge_u64() as u32) }}),
        _ => unreachable!(),
    }
}
/// a request: its text, the method, and how far off it is
fn request(r: &mut Rng, n: &Node, ids: &[Value], names: &[String]) -> (Value, String, usize) {
    let (m, kinds) = r.pick(&METHODS);
    let mut ps: Vec<Value> = kinds.chars().map(|k| param(r, n, k, ids)).collect();
    let mut off = 0;
    while r.chance(2, 5) && off < 3 {
        off += 1;
        let at = r.below(ps.len() + 1);
        match r.below(5) {
            0 => ps.truncate(at),
            1 => ps.insert(at, junk(r, 0)),
            _ if at < ps.len() => ps[at] = junk(r, 0),
            _ => ps.push(junk(r, 0)),
        }
    }
    let name = if r.chance(1, 30) { r.pick(names).clone() } else { m.to_string() };
    let params = match r.below(30) {
        0 => junk(r, 0),
        1 => Value::Object(ps.iter().enumerate().map(|(i, p)| (format!("p{i}"), p.clone())).collect()),
        _ => Value::Array(ps),
    };
    (json!({"jsonrpc": "2.0", "id": r.below(1000), "method": name, "params": params}), name, off)
}
fn garbage(r: &mut Rng, good: &str) -> String {
    match r.below(6) {
        0 => good.chars().take(r.below(good.len())).collect(),
        1 => {
            let l = r.below(60);
            String::from_utf8_lossy(&r.bytes(l)).into_owned()
        }
        2 => "[".repeat(1 + r.below(3000)),
        3 => format!("[{}]", vec![good; 1 + r.below(4)].join(",")),
        4 => r.pick(&["", "[]", "{}", "null", "[1,2]", "{\"method\":\"eth_chainId\"}", "{\"jsonrpc\":\"2.0\",\"method\":\"eth_chainId\"}", "{\"jsonrpc\":\"1.0\",\"id\":1,\"method\":\"eth_chainId\"}", "{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"eth_chainId\"}"]).to_string(),
        _ => {
            let mut b = good.as_bytes().to_vec();
            for _ in 0..1 + r.below(3) {
                let at = r.below(b.len());
                b[at] = r.u64() as u8;
            }
            String::from_utf8_lossy(&b).into_owned()
        }
    }
}

/// it still does what it is there for
fn alive(c: &mut Ctx, n: &mut Node, r: &mut Rng, detail: &Value) {
    c.event("alive.asked");
    let mut asked = |c: &mut Ctx, m: &str, p: Value, want: Value| {
        let rep = n.rpc(m, p.clone());
        c.ensure(rep.ok() == Some(&want), &format!("alive:{m}"), || (format!("{m} is not answered right after hostile requests"), json!({"params": p, "expected": want, "got": format!("{rep:?}"), "before": detail})));
    };
    asked(c, "eth_blockNumber", json!([]), q(n.height()));
    asked(c, "eth_chainId", json!([]), q(CHAIN));
    let a = n.keys[r.below(6)].addr;
    asked(c, "eth_getBalance", json!([d(a), "latest"]), q(n.head().acc(&a).balance));
    let data = r.bytes(9);
    asked(c, "web3_sha3", json!([d(&data)]), d(keccak256(&data)));
    // filters too: a block filter gives the next block
    let rep = n.rpc("eth_newBlockFilter", json!([]));
    let id = rep.ok().cloned().unwrap_or_default();
    n.rpc("eth_getFilterChanges", json!([id]));
    n.commit(r, vec![]);
    let rep = n.rpc("eth_getFilterChanges", json!([id]));
    let want = json!([d(n.head().hash)]);
    c.ensure(rep.ok() == Some(&want), "alive:filter", || ("a block filter does not give the next block after hostile requests".into(), json!({"expected": want, "got": format!("{rep:?}"), "before": detail})));
    n.rpc("eth_uninstallFilter", json!([id]));
}

fn siege(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("h{num}"));
    let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), range: *r.pick(&[1, 5, 25000]), ..Default::default() });
    let names = sim::methods(n.http);
    if num == 0 {
        for (m, _) in METHODS {
            c.ensure(names.iter().any(|x| x == m), &format!("unknown:{m}"), || (format!("{m} is not a method"), json!(names)));
        }
    }
    let mut ids: Vec<Value> = vec![];
    let _e = art().enter();
    for round in 0..3 {
        // the first round sees a chain of nothing but its genesis
        if round == 1 {
            n.equip(r, 2);
        }
        if round > 0 {
            n.some_block(r, 4);
        }
        let mut last = Value::Null;
        for _ in 0..40 {
            let (v, m, off) = request(r, &n, &ids, &names);
            c.event("requests");
            last = v.clone();
            match r.below(12) {
                0 => {
                    let t = garbage(r, &v.to_string());
                    c.event("requests.garbage");
                    let got = n.raw(t.clone());
                    if let Err((at, what)) = got {
                        c.violate(format!("broke:garbage:{at}"), format!("garbage is not answered: {what} ({at})"), json!({ "text": t }));
                    }
                    c.event("oracle.judgements");
                }
                // gone before the answer is there
                1 => {
                    // (what is done for them may be well under way)
                    let http = n.http;
                    let hs: Vec<_> = (0..*r.pick(&[1, 6, 20]))
                        .map(|_| {
                            let t = match r.below(4) {
                                0 => v.to_string(),
                                1 => json!({"jsonrpc": "2.0", "id": 1, "method": "eth_newBlockFilter", "params": []}).to_string(),
                                2 => json!({"jsonrpc": "2.0", "id": 1, "method": "eth_newFilter", "params": [filter(r, &n)]}).to_string(),
                                _ => {
                                    let id = if ids.is_empty() { q(1) } else { r.pick(&ids).clone() };
                                    json!({"jsonrpc": "2.0", "id": 1, "method": *r.pick(&["eth_getFilterChanges", "eth_getFilterLogs", "eth_uninstallFilter"]), "params": [id]}).to_string()
                                }
                            };
                            art().spawn(async move { sim::post(http, &t).await })
                        })
                        .collect();
                    match r.below(3) {
                        0 => {}
                        1 => std::thread::yield_now(),
                        _ => std::thread::sleep(Duration::from_micros(r.below(300) as u64)),
                    }
                    for h in &hs {
                        h.abort();
                    }
                    for h in hs {
                        let gone = art().block_on(h).is_err();
                        c.event(if gone { "clients.gone" } else { "clients.answered-in-time" });
                    }
                }
                2 => {
                    let s = sim::Socket::open(n.ws, *r.pick(&[1, 2, 1024]));
                    if let Some(mut s) = s {
                        for _ in 0..1 + r.below(4) {
                            let t = match r.below(4) {
                                0 => v.to_string(),
                                1 => garbage(r, &v.to_string()),
                                2 => json!({"jsonrpc": "2.0", "id": 1, "method": "eth_subscribe", "params": [*r.pick(&["newHeads", "logs", "nothing"]), filter(r, &n)]}).to_string(),
                                _ => json!({"jsonrpc": "2.0", "id": 1, "method": *r.pick(&["eth_subscribe", "eth_unsubscribe"]), "params": junk(r, 0)}).to_string(),
                            };
                            s.send(t);
                        }
                        if r.bool() {
                            std::thread::sleep(Duration::from_micros(200));
                            while s.try_recv().is_some() {}
                        }
                        c.event("sockets.dropped");
                    }
                }
                _ => {
                    let rep = reply(n.raw(v.to_string()));
                    let out = match &rep {
                        Reply::Ok(_) => "ok".to_owned(),
                        Reply::Err { code, .. } => code.to_string(),
                        Reply::Broke(at, what) => {
                            c.violate(format!("broke:{m}:{at}"), format!("{m} is not answered: {what} ({at})"), v.clone());
                            "broke".to_owned()
                        }
                    };
                    c.event("oracle.judgements");
                    c.seen("answers", (&m, &out, off));
                    c.event(if rep.ok().is_some() { "answers.ok" } else { "answers.error" });
                    if m.starts_with("eth_new") {
                        ids.extend(rep.ok().cloned());
                    }
                }
            }
        }
        no_panics(c, "hostile requests", last.clone());
        alive(c, &mut n, r, &last);
        if r.chance(1, 4) {
            warp(40);
        }
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}
