//! P73/P74/P77: trying a transaction out, what gas has cost, and handing a transaction in.
use crate::node::*;
use crate::prog::{deploy, word, P};
use crate::reads::{ask, block_id, with};
use protocol::types::*;
use serde_json::{json, Value};
use vlib::oracle::keccak256;
use vlib::{guard, Ctx, Rng};

fn show(rep: &Reply) -> String {
    format!("{rep:?}").chars().take(300).collect()
}

pub fn p73(c: &mut Ctx) {
    c.stage("calls");
    for num in 0..c.scale(150, 15000) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| calls(c, num)) {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "trying out transactions", json!({"history": num}));
    }
}

fn calls(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("c{num}"));
    let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    for _ in 0..4 {
        n.some_block(r, 5);
        if r.chance(1, 5) {
            n.restart();
        }
        for _ in 0..12 {
            one_call(c, r, &n);
        }
        for _ in 0..3 {
            one_estimate(c, r, &mut n);
        }
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}

fn one_call(c: &mut Ctx, r: &mut Rng, n: &Node) {
    let (id, at, how) = block_id(r, n);
    let from = n.keys[r.below(6)].addr;
    let run = *r.pick(&n.runners);
    let req = |p: &P| json!({"from": d(from), "to": d(run), "data": d(p.wrap())});
    let stands = at.map_or(false, |b| n.chain[b].acc(&run).code != NIL_DATA);
    match r.below(9) {
        // the surroundings of a call
        0 | 1 => {
            let value = r.below(1000) as u64;
            let mut v = req(&{
                let mut p = P::new();
                let ops: [u8; 11] = [0x43, 0x42, 0x41, 0x33, 0x32, 0x34, 0x46, 0x30, 0x48, 0x3a, 0x45];
                p.answers(&ops.map(|o| vec![o]));
                p
            });
            v["value"] = q(value);
            let price = r.bool().then(|| 1 + r.below(1000) as u64);
            if let Some(x) = price {
                v["gasPrice"] = q(x);
            }
            let rep = ask(c, n, "eth_call", with(vec![v.clone()], id.clone()));
            c.seen("surroundings", (how, at, value));
            match at {
                None => {
                    c.ensure(matches!(rep, Reply::Err { .. }), "call:no-block", || ("a call at a block that is not there is answered".into(), json!({"id": id, "got": show(&rep)})));
                }
                Some(_) if !stands => {}
                Some(b) => {
                    let h = &n.chain[b].block.header;
                    let a = |x: H160| U256::from_big_endian(&x.0);
                    let want: Vec<(&str, U256)> = vec![
                        ("number", h.number.into()), ("timestamp", h.timestamp.into()), ("coinbase", a(h.proposer)), ("caller", a(from)),
                        ("origin", a(from)), ("value", value.into()), ("chain id", CHAIN.into()), ("address", a(run)),
                        ("base fee", h.base_fee_per_gas.as_u64().into()), ("gas price", price.unwrap_or(1).into()),
                        ("gas limit", h.gas_limit.as_u64().into()),
                    ];
                    let got: Vec<U256> = rep.bytes().unwrap_or_default().chunks(32).map(U256::from_big_endian).collect();
                    for (i, (what, x)) in want.iter().enumerate() {
                        c.ensure(got.get(i) == Some(x), &format!("call:{what}"), || (format!("a call sees another {what}"), json!({"asked": v, "id": id, "block": b, "expected": x.to_string(), "got": show(&rep)})));
                    }
                }
            }
        }
        // what comes back when it fails
        2 | 3 => {
            let l = *r.pick(&[0, 1, 4, 36, 67, 68, 69, 100, 132]);
            let mut data = r.bytes(l);
            if l >= 68 && r.bool() {
                // as a contract would say it: Error(string)
                data[..4].copy_from_slice(&[0x08, 0xc3, 0x79, 0xa0]);
                data[4..36].copy_from_slice(&word(32.into()));
                let m = *r.pick(&[0, l as u64 - 68, l as u64 - 67, 1 << 40]);
                data[36..68].copy_from_slice(&word(m.into()));
            }
            let broken = r.chance(1, 4);
            let mut p = P::new();
            if broken {
                p.op(&[0xfe]);
            } else {
                p.revert(&data);
            }
            let m = if r.bool() { "eth_call" } else { "eth_estimateGas" };
            let rep = ask(c, n, m, with(vec![req(&p)], id.clone()));
            c.seen("failure", (m, l, broken, how));
            if at.is_none() {
                c.ensure(matches!(rep, Reply::Err { .. }), "call:no-block", || ("a call at a block that is not there is answered".into(), json!({"id": id, "got": show(&rep)})));
            } else if stands {
                let ok = match &rep {
                    Reply::Err { code: -49998, data: e, .. } => broken || *e == d(&data),
                    _ => false,
                };
                c.ensure(ok, "call:revert", || ("a call that reverts does not say so with its data".into(), json!({"method": m, "broken": broken, "data": d(&data), "got": show(&rep)})));
            }
        }
        // nothing of it stays
        4 => {
            let k = slot(r);
            let head = n.height() as usize;
            let mut p = P::new();
            p.sstore(k, U256::from(0xdead)).op(&[0x00]);
            let m = if r.bool() { "eth_call" } else { "eth_estimateGas" };
            let mut v = req(&p);
            v["value"] = q(1);
            ask(c, n, m, json!([v]));
            let rep = ask(c, n, "eth_getStorageAt", json!([d(run), q(k), "latest"]));
            let want = n.stored(head, &run).get(&keccak256(&word(k))).copied().unwrap_or_default();
            c.ensure(rep.bytes() == Some(word(want).to_vec()), "call:stays", || (format!("what {m} stored is there afterwards"), json!({"slot": k.to_string(), "got": show(&rep)})));
            let rep = ask(c, n, "eth_getBalance", json!([d(run), "latest"]));
            c.ensure(rep.u256() == Some(n.head().acc(&run).balance), "call:stays", || (format!("what {m} paid is there afterwards"), json!({"got": show(&rep)})));
        }
        // a contract that would be made
        5 => {
            let l = 1 + r.below(60);
            let mut code = r.bytes(l);
            code[0] = 0x60;
            let rep = ask(c, n, "eth_call", with(vec![json!({"from": d(from), "data": d(deploy(&code))})], id.clone()));
            if at.is_some() {
                // (the virtual machine keeps the code to itself)
                c.ensure(rep.bytes().is_some(), "call:create", || ("a contract that can be made is refused".into(), json!({"code": d(&code), "got": show(&rep)})));
            }
        }
        // what is not allowed
        6 => {
            let mut p = P::new();
            p.op(&[0x00]);
            let mut v = req(&p);
            let est = r.bool();
            let m = if est { "eth_estimateGas" } else { "eth_call" };
            let code = match r.below(if est { 5 } else { 4 }) {
                0 => {
                    v["gas"] = q(30_000_001u64 + r.below(2) as u64 * (u64::MAX >> 2));
                    -40009
                }
                1 => {
                    v["gasPrice"] = q(500 * GWEI + 1);
                    -40007
                }
                2 => {
                    let mut a = [0xff; 20];
                    a[19] = r.below(256) as u8;
                    v["to"] = d(a);
                    -40023
                }
                3 => {
                    v = json!({"data": "0x00"});
                    -49999
                }
                _ => {
                    v["gas"] = q(*r.pick(&[0, 1, 20_999]));
                    -40008
                }
            };
            let rep = ask(c, n, m, json!([v]));
            c.seen("not allowed", (m, code));
            c.ensure(rep.code() == Some(code), "call:allowed", || (format!("{m} is not refused with {code}"), json!({"params": v, "got": show(&rep)})));
        }
        // at the very edge of what is allowed
        7 => {
            let mut p = P::new();
            p.answers(&[vec![0x5a]]);
            let mut v = req(&p);
            let gas = *r.pick(&[30_000_000, 1_000_000]);
            v["gas"] = q(gas);
            v["gasPrice"] = q(500 * GWEI);
            let rep = ask(c, n, "eth_call", json!([v]));
            let got = rep.bytes().map(|b| U256::from_big_endian(&b)).unwrap_or_default();
            // most of it is left at the start
            c.ensure(got < gas.into() && got > U256::from(gas / 2), "call:gas", || ("a call has other gas than asked for".into(), json!({"gas": gas, "left": got.to_string(), "got": show(&rep)})));
        }
        // the outcome depends on the block
        _ => {
            let Some(b) = at else { return };
            if !stands {
                return;
            }
            let read = |k: &U256, at| n.stored(at, &run).get(&keccak256(&word(*k))).copied().unwrap_or_default();
            let ks: Vec<U256> = (0..8).map(|_| slot(r)).collect();
            let head = n.height() as usize;
            // one that has changed since, if there is one
            let k = *ks.iter().find(|k| read(k, b) != read(k, head)).unwrap_or(&ks[0]);
            let (x, now) = (read(&k, b), read(&k, head));
            let mut p = P::new();
            p.push(&word(k)).op(&[0x54]).push(&word(x)).op(&[0x14, 0x60]);
            let at_ = p.0.len() as u8 + 7;
            p.op(&[at_, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x00]);
            c.event(if x == now { "blocks.alike" } else { "blocks.differ" });
            for m in ["eth_call", "eth_estimateGas"] {
                let rep = ask(c, n, m, with(vec![req(&p)], id.clone()));
                c.ensure(rep.ok().is_some(), &format!("{m}:state"), || (format!("{m} does not run at the block asked for"), json!({"id": id, "slot": k.to_string(), "there": x.to_string(), "at the head": now.to_string(), "got": show(&rep)})));
            }
        }
    }
}

/// what is estimated is enough, and what is refused fails
fn one_estimate(c: &mut Ctx, r: &mut Rng, n: &mut Node) {
    let who = r.below(5);
    let from = n.keys[who].addr;
    let (to, value, data, kind): (Option<H160>, u64, Vec<u8>, &str) = match r.below(8) {
        0 => (Some(if r.bool() { n.keys[r.below(6)].addr } else { H160(r.arr()) }), r.below(500) as u64, vec![], "payment"),
        1 => {
            let l = 1 + r.below(300);
            let mut code = r.bytes(l);
            code[0] = 0x60;
            (None, 0, deploy(&code), "contract")
        }
        k => {
            let mut p = P::new();
            let kind = match k {
                2 => {
                    let t = 1 + r.below(2000) as u64;
                    p.spin(t);
                    "loop"
                }
                3 => {
                    // gives back what is stored
                    for i in 0..6 {
                        p.sstore(i.into(), 0.into());
                    }
                    "clear"
                }
                4 => {
                    for _ in 0..1 + r.below(6) {
                        p.sstore(slot(r), (1 + r.below(5) as u64).into());
                    }
                    "store"
                }
                5 | 6 => {
                    let mut inner = P::new();
                    for _ in 0..r.below(4) {
                        inner.sstore(slot(r), (r.below(3) as u64).into());
                    }
                    some_logs(r, &mut inner, 1);
                    if r.chance(1, 3) {
                        inner.revert(b"inner");
                    }
                    let mut mid = P::new();
                    let other = *r.pick(&n.runners);
                    mid.call(&other, &inner.wrap());
                    let another = *r.pick(&n.runners);
                    if r.bool() {
                        p.call(&another, &mid.wrap());
                    } else {
                        p.call(&another, &inner.wrap());
                    }
                    "nested"
                }
                _ => {
                    p.revert(b"no");
                    "fails"
                }
            };
            p.op(&[0x00]);
            (Some(*r.pick(&n.runners)), r.below(3) as u64, p.wrap(), kind)
        }
    };
    let mut v = json!({"from": d(from), "value": q(value), "data": d(&data)});
    if let Some(t) = to {
        v["to"] = d(t);
    }
    let rep = ask(c, n, "eth_estimateGas", if r.bool() { json!([v]) } else { json!([v, "latest"]) });
    let est = rep.u256().map(|x| x.low_u64());
    let s = n.sign(who, 0, to, value.into(), data, est.unwrap_or(8_000_000), GWEI, 0);
    n.commit(r, vec![s]);
    let resp = &n.head().resp[0];
    let (ok, used, why) = (resp.exit_reason.is_succeed(), resp.gas_used, format!("{:?}", resp.exit_reason));
    c.seen("estimate", (kind, est));
    c.event(if ok { "estimates.sufficed" } else { "estimates.refused" });
    match est {
        Some(e) => {
            c.ensure(ok && used <= e && e >= 21_000, "estimate:short", || (format!("a {kind} with the gas estimated fails"), json!({"tx": v, "estimate": e, "used": used, "exit": why})));
            // not out of all proportion either
            c.ensure(e <= used * 2, "estimate:long", || (format!("the estimate for a {kind} is far above its use"), json!({"tx": v, "estimate": e, "used": used})));
        }
        None => {
            c.ensure(!ok, "estimate:refused", || (format!("a {kind} that goes through is not estimated"), json!({"tx": v, "got": show(&rep)})));
        }
    }
}

pub fn p74(c: &mut Ctx) {
    c.stage("fees");
    for num in 0..c.scale(160, 16000) {
        if !c.within(0.9) {
            break;
        }
        let done = guard(|| {
            let mut rng = c.rng.fork();
            let r = &mut rng;
            let dir = c.scratch.join(format!("f{num}"));
            let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
            n.equip(r, 3);
            for _ in 0..4 {
                for _ in 0..r.below(3) {
                    n.some_block(r, 7);
                }
                for _ in 0..30 {
                    one_history(c, r, &n);
                }
            }
            drop(n);
            let _ = std::fs::remove_dir_all(&dir);
        });
        if let Err(p) = done {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "telling the fees", json!({"history": num}));
    }
}

fn one_history(c: &mut Ctx, r: &mut Rng, n: &Node) {
    let head = n.height();
    let count = *r.pick(&[0, 1, 1, 2, 3, 4, 8, 1024, 1025, u64::MAX]);
    let b = r.below(head as usize + 1) as u64;
    let (newest, at) = match r.below(8) {
        0 => (json!("latest"), Some(head)),
        1 => (json!("pending"), Some(head)),
        2 => (json!("earliest"), Some(0)),
        3 if r.bool() => (q(head + 1 + r.below(9) as u64), None),
        _ => (q(b), Some(b)),
    };
    let (ps, bad): (Option<Vec<f64>>, bool) = match r.below(8) {
        0 | 1 => (None, false),
        2 => (Some(vec![]), false),
        3 if r.bool() => (
            Some(r.pick(&[vec![100.5], vec![-0.5], vec![50.0, 50.0], vec![60.0, 40.0], vec![10.0, 20.0, 101.0], vec![-1.0, 5.0], vec![0.0, 1e300]]).clone()),
            true,
        ),
        _ => {
            let mut v: Vec<f64> = (0..1 + r.below(5)).map(|_| *r.pick(&[0.0, 10.0, 25.0, 33.3, 50.0, 66.6, 75.0, 90.0, 99.9, 100.0])).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            (Some(v), false)
        }
    };
    let mut params = vec![if r.bool() { q(count) } else { json!(count) }, newest];
    params.extend(ps.clone().map(|p| json!(p)));
    let rep = ask(c, n, "eth_feeHistory", json!(params));
    let note = |what: &str, want: String| (format!("eth_feeHistory: {what}"), json!({"params": params, "head": head, "expected": want, "got": show(&rep)}));
    c.seen("fee history", (count, at, ps.as_ref().map(|p| p.len()), bad));
    if bad {
        c.ensure(rep.code() == Some(-40020), "fees:percentiles", || note("bad percentiles are not refused", "-40020".into()));
        return;
    }
    let Some(v) = rep.ok() else {
        c.ensure(at.is_none(), "fees:refused", || note("refused", "a history".into()));
        return;
    };
    if count == 0 {
        c.ensure(v["oldestBlock"] == q(0) && v["gasUsedRatio"].is_null(), "fees:none", || note("no blocks, but a history", "none".into()));
        return;
    }
    let Some(last) = at else {
        c.ensure(false, "fees:future", || note("a history up to a block that is not there", "an error".into()));
        return;
    };
    let first = (last + 1).saturating_sub(count.min(1024));
    c.ensure(v["oldestBlock"] == q(first), "fees:oldest", || note("oldestBlock", first.to_string()));
    let blocks = &n.chain[first as usize..=last as usize];
    let fee = |b: &Rec| b.block.header.base_fee_per_gas.as_u64();
    let mut base: Vec<Value> = blocks.iter().map(|b| q(fee(b))).collect();
    // that of the block after them, as it is or as it would be
    let mut options = vec![[&base[..], &[q(1337)]].concat()];
    if let Some(next) = n.chain.get(last as usize + 1) {
        base.push(q(fee(next)));
        options.push(base);
    }
    c.ensure(options.iter().any(|o| v["baseFeePerGas"] == json!(o)), "fees:base", || note("baseFeePerGas", format!("{options:?}")));
    let used = |b: &Rec| b.resp.iter().map(|x| x.gas_used).sum::<u64>();
    let want: Vec<f64> = blocks.iter().map(|b| used(b) as f64 / b.block.header.gas_limit.as_u64() as f64).collect();
    let got: Vec<f64> = v["gasUsedRatio"].as_array().into_iter().flatten().map(|x| x.as_f64().unwrap_or(-1.0)).collect();
    c.ensure(want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| (a - b).abs() < 1e-9), "fees:ratio", || note("gasUsedRatio", format!("{want:?}")));
    let ps = ps.unwrap_or_default();
    if ps.is_empty() {
        c.ensure(v["reward"].is_null(), "fees:reward", || note("rewards nobody asked for", "none".into()));
        return;
    }
    let rewards = v["reward"].as_array().cloned().unwrap_or_default();
    c.ensure(rewards.len() == blocks.len(), "fees:reward", || note("not one list of rewards for each block", blocks.len().to_string()));
    for (b, got) in blocks.iter().zip(rewards) {
        let mut tips: Vec<(u64, u64)> = b
            .txs
            .iter()
            .zip(&b.resp)
            .map(|(t, x)| {
                let paid = (x.fee_cost / U256::from(x.gas_used)).as_u64();
                assert_eq!(paid, t.stx.transaction.unsigned.gas_price().as_u64());
                (paid.saturating_sub(fee(b)), x.gas_used)
            })
            .collect();
        tips.sort();
        let all = used(b);
        c.event(if tips.is_empty() { "rewards.empty" } else { "rewards" });
        for (i, p) in ps.iter().enumerate() {
            // the first at which this share of the gas is reached; rounded down or not where it is no whole number
            let at = |share: f64| {
                let mut sum = 0;
                for (tip, gas) in &tips {
                    sum += gas;
                    if sum as f64 >= share {
                        return *tip;
                    }
                }
                tips.last().map_or(0, |t| t.0)
            };
            let share = all as f64 * p / 100.0;
            let fits = [at(share), at(share.floor())].iter().any(|x| got[i] == q(*x));
            c.ensure(fits, "fees:reward", || note("reward", format!("block {} at {p}%: {}", b.block.header.number, at(share))));
        }
    }
}

pub fn p77(c: &mut Ctx) {
    c.stage("sending");
    for num in 0..c.scale(24, 2400) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| sending(c, num)) {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "taking transactions", json!({"history": num}));
    }
}

fn sending(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("t{num}"));
    let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    let who = |n: &Node, i: usize| n.keys[i].addr;
    // pending, by sender
    let mut pend: Vec<Vec<Sent>> = vec![vec![]; 6];
    for _ in 0..3 {
        // good ones, one by one or all at once
        let mut batch = vec![];
        for _ in 0..1 + r.below(6) {
            let i = r.below(5);
            let kind = r.below(3);
            let to = if r.chance(1, 5) { None } else { Some(H160::repeat_byte(0xb0 + r.below(3) as u8)) };
            let price = *r.pick(&[1338, GWEI, 7 * GWEI]);
            let base = if to.is_some() { 21_000 + 4300 * (kind > 0) as u64 } else { 60_000 };
            let limit = *r.pick(&[base, base + 10_000, 100_000]);
            batch.push((i, n.sign(i, kind, to, 3.into(), vec![0; r.below(9) * (to.is_none() as usize)], limit, price, r.below(1000) as u64)));
        }
        let together = r.bool();
        let http = n.http;
        let req = |s: &Sent| json!({"jsonrpc": "2.0", "id": 1, "method": "eth_sendRawTransaction", "params": [d(&s.raw)]}).to_string();
        let replies: Vec<Reply> = if together {
            let hs: Vec<_> = batch
                .iter()
                .map(|(_, s)| {
                    let text = req(s);
                    art().spawn(async move { jsonrpsee::sim::post(http, &text).await })
                })
                .collect();
            hs.into_iter().map(|h| reply(art().block_on(h).map_or_else(|e| Err((String::new(), e.to_string())), |x| x.map_err(|e| (String::new(), e.into()))))).collect()
        } else {
            batch.iter().map(|(_, s)| reply(post(http, req(s)))).collect()
        };
        for ((i, s), rep) in batch.iter().zip(&replies) {
            c.event("sent.good");
            c.seen("good", (i, s.hash));
            c.ensure(rep.ok() == Some(&d(keccak256(&s.raw))), "send:good", || ("a good transaction is not taken under its hash".into(), json!({"raw": d(&s.raw), "got": show(rep), "together": together})));
            pend[*i].push(s.clone());
        }
        // bad ones, each in one way
        for _ in 0..6 {
            let i = r.below(5);
            let at = n.head().acc(&who(&n, i)).nonce.low_u64();
            let next = at + pend[i].len() as u64;
            let to = Some(H160::repeat_byte(0xb7));
            let mk = |nonce, value: U256, limit, price| sign(&n.keys[i], nonce, 0, to, value, vec![], limit, price, 0);
            let (raw, code, what): (Vec<u8>, Option<i64>, &str) = match r.below(10) {
                0 => (mk(next, 1.into(), 30_000, 0).raw, Some(-40006), "price of zero"),
                1 => (mk(next, 1.into(), 30_000, 500 * GWEI + 1 + r.below(2) as u64 * (u64::MAX >> 1)).raw, Some(-40007), "price too high"),
                2 => (mk(next, 1.into(), *r.pick(&[0, 20_999]), GWEI).raw, Some(-40008), "limit too low"),
                3 => (mk(next, 1.into(), *r.pick(&[GAS_CAP + 1, 30_000_001, u64::MAX]), GWEI).raw, Some(-40009), "limit too high"),
                4 => {
                    // for another chain
                    let u = UnsignedTransaction::Legacy(LegacyTransaction {
                        nonce: next.into(), gas_limit: 30_000.into(), gas_price: GWEI.into(),
                        action: TransactionAction::Call(to.unwrap()), value: 1.into(), data: Default::default(),
                    });
                    (n.keys[i].sign_raw(&u, Some(CHAIN + 1)).0, None, "another chain")
                }
                5 => {
                    let mut raw = mk(next, 1.into(), 30_000, GWEI).raw;
                    raw.truncate(r.below(raw.len()));
                    (raw, None, "cut short")
                }
                6 => {
                    // more than there is
                    let has = n.head().acc(&who(&n, i)).balance;
                    (mk(next, has, 30_000, GWEI).raw, None, "not enough money")
                }
                7 if at > 0 => (mk(at - 1, 1.into(), 30_000, GWEI).raw, None, "used nonce"),
                8 if !pend[i].is_empty() => (r.pick(&pend[i]).raw.clone(), None, "known"),
                _ => {
                    let l = r.below(100);
                    (r.bytes(l), None, "noise")
                }
            };
            let rep = ask(c, &n, "eth_sendRawTransaction", json!([d(&raw)]));
            c.event("sent.bad");
            c.seen("bad", (what, i, next));
            let refused = match code {
                Some(k) => rep.code() == Some(k),
                // sending it once more may go unnoticed, but counts once
                None if what == "known" => matches!(rep, Reply::Err { .. }) || rep.ok() == Some(&json!(d(keccak256(&raw)))),
                None => matches!(rep, Reply::Err { .. }),
            };
            c.ensure(refused, &format!("send:{what}"), || (format!("not refused as it should be: {what}"), json!({"raw": d(&raw), "code": code, "got": show(&rep)})));
            if what != "known" && what != "used nonce" {
                let rep = ask(c, &n, "eth_getTransactionByHash", json!([d(keccak256(&raw))]));
                c.ensure(rep.ok() == Some(&Value::Null), "send:kept", || (format!("a refused transaction is kept: {what}"), json!({"raw": d(&raw), "got": show(&rep)})));
            }
        }
        // what is there then
        wait(async { tokio::time::sleep(std::time::Duration::from_millis(20)).await });
        counts(c, &n, &pend, false);
        for s in pend.iter().flatten() {
            let rep = ask(c, &n, "eth_getTransactionByHash", json!([d(s.hash)]));
            c.ensure(rep.ok().map_or(false, |v| v["hash"] == d(s.hash) && v["blockNumber"].is_null()), "send:lost", || ("a transaction that was taken is not pending".into(), json!({"hash": d(s.hash), "got": show(&rep)})));
        }
        // a block takes some of them
        let mut txs = vec![];
        for l in pend.iter_mut() {
            let k = r.below(l.len() + 1);
            txs.extend(l.drain(..k));
        }
        n.commit(r, txs);
        c.event("blocks");
        counts(c, &n, &pend, true);
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}
fn counts(c: &mut Ctx, n: &Node, pend: &[Vec<Sent>], after: bool) {
    for (i, l) in pend.iter().enumerate() {
        let a = n.keys[i].addr;
        let at = n.head().acc(&a).nonce.low_u64();
        let want = at + l.len() as u64;
        let rep = ask(c, n, "eth_getTransactionCount", json!([d(a), "pending"]));
        c.ensure(rep.u256() == Some(want.into()), "pending:count", || ("the next nonce is not what pending transactions make it".into(), json!({"nonce": at, "pending": l.len(), "after a block": after, "got": show(&rep)})));
        let rep = ask(c, n, "eth_getTransactionCount", json!([d(a), "latest"]));
        c.ensure(rep.u256() == Some(at.into()), "latest:count", || ("the nonce at the head".into(), json!({"nonce": at, "got": show(&rep)})));
    }
}
