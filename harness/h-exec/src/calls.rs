//! P20: every instance computes the same results.  P22: calls and estimates.
use crate::ledger::*;
use crate::prog::*;
use core_executor::{code_address, decode_revert_msg};
use protocol::traits::{Backend, Executor};
use protocol::types::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use vlib::{guard, json, Ctx};
use world::{rt, AxonExecutor, World};

fn same(c: &mut Ctx, how: &str, a: &ExecResp, b: &ExecResp, number: u64) {
    c.event(&format!("compared.{how}"));
    c.ensure(a.state_root == b.state_root, &format!("{how}/state-root"), || {
        (format!("the same block gives another state root ({how})"), json!({"block": number, "a": vlib::hex(a.state_root), "b": vlib::hex(b.state_root)}))
    });
    c.ensure(a.receipt_root == b.receipt_root && a.gas_used == b.gas_used, &format!("{how}/receipts"), || {
        (format!("the same block gives another receipts root or gas total ({how})"), json!({"block": number, "gas": [a.gas_used, b.gas_used]}))
    });
    c.ensure(a.tx_resp == b.tx_resp, &format!("{how}/responses"), || {
        (format!("the same block gives other transaction results ({how})"), json!({"block": number}))
    });
}

pub fn p20(c: &mut Ctx) {
    let chains = c.scale(60, 5000);
    for n in 0..chains {
        if !c.within(0.9) {
            break;
        }
        let r = c.rng.fork();
        let mut twin: Option<World> = None;
        let mut old: Vec<(ExecutorContext, H256)> = vec![];
        let dir = c.scratch.join(format!("twin{n}"));
        chain(c, r, n, false, 4, |c, s| {
            let r = s.rng;
            // another node, from genesis, with another cache size
            if twin.is_none() {
                let cache = *r.pick(&[1usize, 2, 50, 5000]);
                let (t, _) = World::genesis(&dir, cache, s.genesis, vec![]);
                c.ensure(t.root() == s.world.root(), "genesis", || ("two nodes have different genesis states".into(), json!({})));
                twin = Some(t);
            }
            let t = twin.as_mut().unwrap();
            t.activate();
            let resp = if r.bool() {
                t.dry(s.block)
            } else {
                // the same on a fresh thread
                std::thread::scope(|sc| sc.spawn(|| t.dry(s.block)).join()).unwrap()
            };
            same(c, "other-node", s.resp, &resp, s.number);
            t.record(s.block, &resp);
            if r.chance(1, 3) {
                // a restart in between blocks: cold caches
                let cache = *r.pick(&[1usize, 3, 100]);
                *t = t.reopen(cache);
                t.activate();
                c.event("restarts");
            }
            s.world.activate();
            // the same block again on the same node, after calls and with calls going on meanwhile
            for _ in 0..r.below(4) {
                let d = r.edge_bytes(60);
                let to = s.pool.someone(r);
                let from = *r.pick(&s.pool.people);
                s.world.call(Some(from), Some(to), U256::from(r.below(3)), d, 30_000_000, r.bool());
                c.event("calls.before");
            }
            if r.chance(1, 3) {
                let stop = AtomicBool::new(false);
                let calls = AtomicU64::new(0);
                let world = &*s.world;
                let people = s.pool.people.clone();
                let contracts: Vec<H160> = s.pool.contracts.iter().map(|x| x.0).collect();
                let olds = old.clone();
                let again = std::thread::scope(|sc| {
                    for k in 0..3usize {
                        let (stop, calls, people, contracts, olds) = (&stop, &calls, &people, &contracts, &olds);
                        sc.spawn(move || {
                            let _e = rt().enter();
                            let mut i = k;
                            while !stop.load(Ordering::Relaxed) {
                                i += 1;
                                let to = if contracts.is_empty() { people[i % people.len()] } else { contracts[i % contracts.len()] };
                                if i % 3 == 0 && !olds.is_empty() {
                                    let (ctx, root) = &olds[i % olds.len()];
                                    let ro = world.ro_at(*root, ctx.clone());
                                    AxonExecutor.call(&ro, 10_000_000, Some(people[0]), Some(to), U256::zero(), vec![], false);
                                } else {
                                    world.call(Some(people[i % people.len()]), Some(to), U256::one(), vec![], 10_000_000, true);
                                }
                                calls.fetch_add(1, Ordering::Relaxed);
                            }
                        });
                    }
                    let again = world.dry(s.block);
                    let again2 = world.dry(s.block);
                    stop.store(true, Ordering::Relaxed);
                    (again, again2)
                });
                c.add("calls.meanwhile", calls.load(Ordering::Relaxed));
                same(c, "with-calls-meanwhile", s.resp, &again.0, s.number);
                same(c, "with-calls-meanwhile", s.resp, &again.1, s.number);
            } else {
                let again = s.world.dry(s.block);
                same(c, "again", s.resp, &again, s.number);
            }
            old.push((s.world.head().into(), s.world.root()));
            c.seen("state", s.resp.state_root);
        });
        let _ = std::fs::remove_dir_all(&dir);
    }
}

fn journal(w: &World) -> usize {
    ckb_rocksdb::shim::journal_len(&w.path)
}

pub fn p22(c: &mut Ctx) {
    c.stage("calls");
    let chains = c.scale(60, 5000);
    for n in 0..chains {
        if !c.within(0.7) {
            break;
        }
        let r = c.rng.fork();
        chain(c, r, n, false, 5, |c, s| {
            let r = s.rng;
            let w = s.world;
            for _ in 0..6 {
                // one transaction, as the only one of a block, and the same as a call on the state before it
                let mut t = gen_tx(r, s.pool, &s.ledger.st, false);
                if matches!(t.act, Act::Native(_)) {
                    continue;
                }
                t.access.clear();
                t.price = 0;
                t.gas = t.gas.max(t.intrinsic()) + 40_000_000;
                let mut b = s.block.clone();
                b.txs = vec![t.signed(w.chain_id, s.ledger.st.get(&t.from).nonce)];
                let _e = rt().enter();
                let mut ctx = w.ctx_for(&b);
                ctx.origin = t.from;
                ctx.gas_price = U256::zero();
                let to = match &t.act {
                    Act::Call(a) => Some(*a),
                    _ => None,
                };
                let before = journal(w);
                let ro = w.ro_at(w.root(), ctx.clone());
                let call = AxonExecutor.call(&ro, t.gas, Some(t.from), to, t.value, t.data.clone(), false);
                let again = AxonExecutor.call(&ro, t.gas, Some(t.from), to, t.value, t.data.clone(), false);
                let est = AxonExecutor.call(&ro, t.gas, Some(t.from), to, t.value, t.data.clone(), true);
                c.event("calls");
                c.ensure(journal(w) == before, "call-writes", || ("a call wrote to the database".into(), json!({"writes": journal(w) - before})));
                c.ensure(call == again, "call-repeats", || ("the same call on the same state gives another answer".into(), json!({})));
                let exec = w.dry(&b);
                let e = &exec.tx_resp[0];
                c.seen("call", (format!("{:?}", call.exit_reason), call.gas_used, call.ret.clone()));
                c.event(&format!("call.{}", class(&call.exit_reason)));
                c.ensure(call.exit_reason == e.exit_reason && call.ret == e.ret, "call-differs", || {
                    ("a call ends otherwise than the same transaction does on the same state".into(),
                     json!({"call": format!("{:?}", call.exit_reason), "tx": format!("{:?}", e.exit_reason), "to": format!("{to:?}"), "value": t.value.to_string()}))
                });
                c.ensure(call.gas_used == e.gas_used, "call-gas", || {
                    ("a call reports other gas than the same transaction uses".into(), json!({"call": call.gas_used, "tx": e.gas_used}))
                });
                c.ensure(est.gas_used == call.gas_used + call.gas_used / 4, "estimate", || {
                    ("an estimate is the gas used and a quarter".into(), json!({"used": call.gas_used, "estimate": est.gas_used}))
                });
                // a transaction of straight-line code with the estimated gas goes through
                let straight = match &t.act {
                    Act::Call(a) => s.ledger.st.get(a).code.map_or(true, |p| p.ops.iter().all(|o| !matches!(o, Op::Call { .. } | Op::Create { .. }))),
                    Act::Create(i) => i.ops.iter().all(|o| !matches!(o, Op::Call { .. } | Op::Create { .. })),
                    _ => false,
                };
                // (refunds are paid at the end, and a storage write wants 2300 gas left, so a tight refund can still fall short)
                let spent = t.gas - call.remain_gas;
                if straight && call.exit_reason.is_succeed() && spent + 2300 <= est.gas_used {
                    let mut t2 = t.clone();
                    t2.gas = est.gas_used;
                    let mut b2 = b.clone();
                    b2.txs = vec![t2.signed(w.chain_id, s.ledger.st.get(&t.from).nonce)];
                    let e2 = w.dry(&b2);
                    c.event("estimates.used");
                    c.ensure(e2.tx_resp[0].exit_reason == call.exit_reason && e2.tx_resp[0].gas_used == call.gas_used, "estimate-insufficient", || {
                        ("a transaction with the estimated gas limit does not do what the estimated call did".into(),
                         json!({"estimate": est.gas_used, "used": call.gas_used, "exit": format!("{:?}", e2.tx_resp[0].exit_reason)}))
                    });
                }
            }
            // reading does not change anything
            let before = journal(w);
            let _e = rt().enter();
            let ro = w.ro();
            for a in s.ledger.st.acc.keys().take(10) {
                let _ = (ro.basic(*a), ro.code(*a), ro.exists(*a), ro.storage(*a, H256::zero()));
            }
            c.ensure(journal(w) == before, "read-writes", || ("reading accounts wrote to the database".into(), json!({})));
        });
    }
    c.stage("revert messages");
    let rounds = c.scale(30_000, 2_000_000);
    for i in 0..rounds {
        if !c.within(0.95) {
            break;
        }
        let r = &mut c.rng;
        let text = r.edge_bytes(100);
        let mut d = vec![0x08, 0xc3, 0x79, 0xa0];
        d.extend([0; 31]);
        d.push(32);
        let mut len = [0u8; 32];
        match r.below(5) {
            0 => len = r.arr(),
            1 => len[24..].copy_from_slice(&r.edge_u64().to_be_bytes()),
            2 => len[24..].copy_from_slice(&(text.len() as u64 + 1).to_be_bytes()),
            _ => len[24..].copy_from_slice(&(text.len() as u64).to_be_bytes()),
        }
        d.extend(len);
        d.extend(&text);
        let pad = r.below(33);
        d.extend(vec![0; pad]);
        if r.chance(1, 5) {
            d.truncate(r.below(d.len() + 1));
        }
        let n = U256::from_big_endian(&len);
        // an Error(string) shows its text; anything else shows the raw data
        let show = if d.len() >= 68 && n <= U256::from(d.len() - 68) { &d[68..68 + n.as_usize()] } else { &d[..] };
        let want = "execution reverted: ".to_string() + &show.iter().map(|b| *b as char).collect::<String>();
        match guard(|| decode_revert_msg(&d)) {
            Ok(got) => {
                c.ensure(got == want, "revert-message", || ("a revert message is not the text the contract gave".into(), json!({"data": vlib::hex(&d), "got": got, "want": want})));
            }
            Err(p) => c.violate("revert-message/panic", "decoding a revert message panicked", json!({"data": vlib::hex(&d), "msg": p.msg})),
        }
        if i % 8 == 0 {
            let who = H160(c.rng.arr());
            let nonce = U256::from(c.rng.edge_u64());
            let want = create_addr(&who, &nonce);
            c.ensure(H160::from_slice(&code_address(&who, &nonce).0[12..]) == want, "code-address", || {
                ("a created contract's address is the hash of creator and nonce".into(), json!({"nonce": nonce.to_string()}))
            });
        }
    }
}
