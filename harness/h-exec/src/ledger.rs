//! P21: what a block of transactions does to the state, against an independent model of accounts, fees and contracts.
use crate::prog::*;
use protocol::types::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use vlib::oracle::{ordered_root, R};
use vlib::{guard, json, Ctx, Rng};
use world::{metadata, unsigned_from, validator, BlockSpec, Genesis, World};

pub const E18: u64 = 1_000_000_000_000_000_000;

pub fn genesis(people: &[H160], funds: impl Fn(usize) -> U256, vals: Vec<ValidatorExtend>, chain_id: u64, hf: u64) -> Genesis {
    Genesis {
        chain_id,
        base_fee: 1337,
        accounts: people.iter().enumerate().map(|(i, p)| (*p, funds(i))).collect(),
        metadata: [metadata(0, 1, 100_000, vals.clone()), metadata(1, 100_001, 200_000, vals)],
        hardfork: HardforkInfoInner { block_number: 0, flags: H256::from_low_u64_be(hf.to_be()) },
        timestamp: 1_600_000_000_000,
        coinbase: H160::repeat_byte(1),
    }
}

/// a transaction together with what it means
#[derive(Clone)]
pub enum Act {
    Call(H160),
    Create(Rc<Init>),
    /// native token contract: direction, address
    Native(Vec<u8>),
}
#[derive(Clone)]
pub struct Tx {
    pub from: H160,
    pub act: Act,
    pub value: U256,
    pub gas: u64,
    pub price: u64,
    pub data: Vec<u8>,
    pub access: AccessList,
    pub kind: usize,
}
impl Tx {
    pub fn signed(&self, chain_id: u64, nonce: U256) -> SignedTransaction {
        let action = match &self.act {
            Act::Call(a) => TransactionAction::Call(*a),
            Act::Create(_) => TransactionAction::Create,
            Act::Native(_) => TransactionAction::Call(world::system_contract::NATIVE_TOKEN_CONTRACT_ADDRESS),
        };
        let data = Bytes::from(self.data.clone());
        let nonce = U64::from(nonce.low_u64());
        let u = match self.kind {
            0 => UnsignedTransaction::Legacy(LegacyTransaction {
                nonce,
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
            }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
                nonce,
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
                access_list: self.access.clone(),
            }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
                nonce,
                max_priority_fee_per_gas: (self.price / 2).into(),
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
                access_list: self.access.clone(),
            }),
        };
        unsigned_from(self.from, u, chain_id)
    }
    pub fn intrinsic(&self) -> u64 {
        let d: u64 = self.data.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum();
        let a: u64 = if self.kind == 0 {
            0
        } else {
            self.access.iter().map(|i| 2400 + 1900 * i.storage_keys.len() as u64).sum()
        };
        d + a + if matches!(self.act, Act::Create(_)) { 53000 } else { 21000 }
    }
}

pub fn gen_tx(r: &mut Rng, pool: &mut Pool, st: &State, big: bool) -> Tx {
    let from = *r.pick(&pool.people);
    let bal = st.get(&from).balance;
    let price = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(1, 100),
        3 => r.range(1, 1_000_000_000),
        4 if big => u64::MAX / (1 + r.below(1000) as u64),
        _ => 1337,
    };
    let value = match r.below(8) {
        0 | 1 => U256::zero(),
        2 => bal,
        3 => bal / U256::from(1 + r.below(4)),
        4 => bal.saturating_add(U256::one()),
        5 => U256::from(r.u64()),
        _ => U256::from(r.below(1_000_000)),
    };
    let mut tx = Tx {
        from,
        act: Act::Call(from),
        value,
        gas: 0,
        price,
        data: vec![],
        access: vec![],
        kind: r.below(3),
    };
    let need = match r.below(10) {
        0..=2 => {
            tx.act = Act::Call(pool.someone_plain(r));
            tx.data = if r.chance(1, 3) { r.edge_bytes(200) } else { vec![] };
            0
        }
        3..=5 => {
            let i = Rc::new(pool.init(r, 2, true, true));
            tx.data = i.code();
            let n = i.need();
            tx.act = Act::Create(i);
            if r.chance(2, 3) {
                tx.value = U256::from(r.below(1_000_000));
            }
            n
        }
        6 if r.chance(1, 2) => {
            let to = pool.someone(r);
            let mut d = vec![*r.pick(&[0u8, 0, 1, 1, 2, 255])];
            d.extend(to.0);
            if r.chance(1, 6) {
                d.truncate(r.below(21));
            }
            tx.data = d.clone();
            tx.act = Act::Native(d);
            tx.value = match r.below(20) {
                0 if !st.get(&to).balance.is_zero() => U256::MAX,
                1 if !st.get(&to).balance.is_zero() => U256::MAX - st.get(&to).balance + U256::one(),
                x if x < 10 => U256::from(r.u64()),
                _ => value,
            };
            0
        }
        _ => match pool.contracts.is_empty() {
            true => 0,
            false => {
                let (a, p) = r.pick(&pool.contracts).clone();
                tx.act = Act::Call(a);
                if r.chance(2, 3) {
                    tx.value = U256::from(r.below(1000));
                }
                p.need() + p.need() / 30
            }
        },
    };
    if r.chance(1, 4) {
        tx.access = (0..r.below(4))
            .map(|_| AccessListItem { address: pool.someone(r), storage_keys: (0..r.below(4)).map(|k| H256::from_low_u64_be(k as u64)).collect() })
            .collect();
    }
    let i = tx.intrinsic();
    tx.gas = i + need + match r.below(4) {
        0 => 0,
        1 => r.range(0, 100),
        2 => r.range(0, 30_000_000),
        _ => 100_000,
    };
    if need == 0 && r.chance(1, 10) {
        tx.gas = r.range(0, i);
    }
    tx
}

pub struct Ledger {
    pub st: State,
    pub vals: Vec<ValidatorExtend>,
    pub chain_id: u64,
    pub hashes: Rc<Vec<H256>>,
}
pub struct BlockOut {
    pub outs: Vec<Out>,
    pub logs: Vec<Vec<Log>>,
}

pub fn class(e: &ExitReason) -> &'static str {
    match e {
        ExitReason::Succeed(_) => "ok",
        ExitReason::Revert(_) => "revert",
        ExitReason::Error(_) => "error",
        ExitReason::Fatal(_) => "fatal",
    }
}

impl Ledger {
    /// run one block in the model, taking only the amount of gas from the implementation's answer
    pub fn block(&mut self, c: &mut Ctx, b: &BlockSpec, number: u64, txs: &[Tx], resp: &ExecResp) {
        let env = BlockEnv {
            number,
            timestamp: b.timestamp,
            coinbase: b.proposer,
            gas_limit: b.gas_limit,
            base_fee: b.base_fee,
            chain_id: self.chain_id,
            hashes: Rc::clone(&self.hashes),
        };
        let mut pot = U256::zero();
        let mut gas_sum = 0u64;
        let mut receipts = vec![];
        c.ensure(resp.tx_resp.len() == txs.len(), "responses-missing", || {
            ("a block's execution must give one response per transaction".into(), json!({"txs": txs.len(), "responses": resp.tx_resp.len()}))
        });
        for (i, (t, got)) in txs.iter().zip(&resp.tx_resp).enumerate() {
            let price = U256::from(t.price);
            let at = json!({"block": number, "tx": i, "gas_limit": t.gas, "gas_used": got.gas_used, "remain": got.remain_gas,
                            "price": t.price, "value": t.value.to_string(), "exit": format!("{:?}", got.exit_reason)});
            gas_sum += got.gas_used;
            self.st.logs.clear();
            let out;
            if let Act::Native(d) = &t.act {
                out = self.native(c, t, d, got, &mut pot);
            } else {
                let prepay = price * U256::from(t.gas);
                let nonce = self.st.get(&t.from).nonce;
                let before = self.st.get(&t.from).balance;
                let short = before < prepay;
                c.event(if short { "tx.prepay-short" } else { "tx.evm" });
                self.st.m(&t.from).balance = before.saturating_sub(prepay);
                let keep = self.st.clone();
                let mut limit_ok = true;
                self.st.refundable = 0;
                self.st.orig = Rc::new(self.st.acc.clone());
                let plain = matches!(&t.act, Act::Call(a) if keep_plain(&self.st, a));
                out = if t.gas < t.intrinsic() {
                    limit_ok = false;
                    Out::Err
                } else {
                    match &t.act {
                        Act::Call(a) => {
                            self.st.m(&t.from).nonce += U256::one();
                            let f = Frame { this: *a, caller: t.from, value: t.value, fixed: false, origin: t.from, price };
                            self.st.call(&f, a, true, &env)
                        }
                        Act::Create(init) => {
                            let f = Frame { this: t.from, caller: t.from, value: t.value, fixed: false, origin: t.from, price };
                            let (o, addr) = self.st.create(&f, init, None, &env, 0x6000);
                            let want = match o {
                                Out::Ok(_) => Some(addr),
                                _ => None,
                            };
                            let have = got.code_address.map(|h| H160::from_slice(&h.0[12..]));
                            c.ensure(have == want, "code-address", || {
                                ("a creation's response must carry the created address, a failed one none".into(),
                                 json!({"at": at, "expected": format!("{want:?}"), "got": format!("{have:?}")}))
                            });
                            o
                        }
                        _ => unreachable!(),
                    }
                };
                if !matches!(out, Out::Ok(_)) {
                    let tch = std::mem::take(&mut self.st.touched);
                    self.st = keep;
                    self.st.touched.extend(tch);
                    self.st.logs.clear();
                }
                self.st.settle();
                self.st.m(&t.from).nonce = nonce + U256::one();
                c.ensure(got.gas_used <= t.gas && got.remain_gas <= t.gas, "gas-above-limit", || {
                    ("a transaction cannot use more gas than its limit".into(), at.clone())
                });
                if plain && limit_ok && matches!(out, Out::Ok(_)) {
                    c.event("gas.exact");
                    c.ensure(got.gas_used == t.intrinsic(), "plain-gas", || {
                        ("a plain transfer costs exactly its intrinsic gas".into(), json!({"at": at, "expected": t.intrinsic()}))
                    });
                } else if limit_ok {
                    c.ensure(got.gas_used >= t.intrinsic() - t.intrinsic() / 5, "gas-below-intrinsic", || {
                        ("a transaction uses at least its intrinsic gas".into(), at.clone())
                    });
                }
                c.ensure(got.fee_cost == price * U256::from(got.gas_used), "fee", || {
                    ("the fee of a transaction is gas used times gas price".into(), json!({"at": at, "fee": got.fee_cost.to_string()}))
                });
                let refunded = t.gas - got.gas_used.min(t.gas);
                let unreturned = refunded.saturating_sub(got.remain_gas);
                let cap = ((t.gas - got.remain_gas.min(t.gas)) / 5).min(20_000 * self.st.refundable);
                c.ensure(unreturned <= cap && (unreturned == 0 || matches!(out, Out::Ok(_))), "gas-lost", || {
                    ("gas neither used nor given back is at most the storage refund".into(), json!({"at": at, "cap": cap}))
                });
                if unreturned > 0 {
                    // EIP-3529 refunds lower gas_used but are not given back to the sender
                    c.event("tx.refund");
                    if t.price > 0 {
                        c.violate("gas-refund-not-returned",
                            "the sender pays for more gas than the response reports as used: storage refunds are taken off gas_used and the fee, but not given back",
                            at.clone());
                    }
                }
                c.ensure(got.remain_gas <= refunded, "gas-minted", || {
                    ("gas used and gas returned together cannot exceed the gas limit".into(), at.clone())
                });
                let back = if short {
                    c.violate("prepay-shortfall-mints",
                        "a sender who cannot pay for the gas limit is charged only what it has and then given back all the unused gas",
                        json!({"at": at, "balance": before.to_string(), "prepay": prepay.to_string()}));
                    price * U256::from(got.remain_gas)
                } else {
                    price * U256::from(got.remain_gas)
                };
                let a = self.st.m(&t.from);
                a.balance = a.balance.checked_add(back).unwrap_or(U256::MAX);
                pot = pot.checked_add(got.fee_cost).unwrap_or(U256::MAX);
            }
            let want = match &out {
                Out::Ok(_) => "ok",
                Out::Revert(_) => "revert",
                Out::Err => "error",
            };
            c.event(&format!("exit.{want}"));
            c.ensure(class(&got.exit_reason) == want, "exit", || {
                (format!("transaction ended with {:?}, the model says {want}", got.exit_reason), json!({"at": at, "tx": match &t.act { Act::Create(i) => format!("{i:?}"), Act::Call(a) => format!("{:?}", self.st.get(a)), _ => String::new() }}))
            });
            match &out {
                Out::Ok(d) | Out::Revert(d) if !matches!(t.act, Act::Create(_)) || matches!(out, Out::Revert(_)) => {
                    c.ensure(&got.ret == d, "return-data", || ("return data differs".into(), json!({"at": at, "got": vlib::hex(&got.ret)})));
                }
                _ => {}
            }
            let logs = if matches!(out, Out::Ok(_)) { self.st.logs.clone() } else { vec![] };
            c.add("logs", logs.len() as u64);
            c.ensure(got.logs == logs, "logs", || {
                ("the logs of a transaction are those its successful calls emitted, in order; a failed one has none".into(),
                 json!({"at": at, "expected": logs.len(), "got": got.logs.len()}))
            });
            c.ensure(!got.removed, "removed", || ("a response is not marked removed".into(), at.clone()));
            receipts.push(receipt_bytes(t, got));
        }
        c.ensure(resp.gas_used == gas_sum, "block-gas", || {
            ("the gas of a block is the sum over its transactions".into(), json!({"block": number, "sum": gas_sum, "got": resp.gas_used}))
        });
        if number > 0 && !pot.is_zero() {
            let w: u64 = self.vals.iter().map(|v| v.vote_weight as u64).sum();
            for v in self.vals.clone() {
                if w == 0 {
                    break;
                }
                let share = pot / U256::from(w) * U256::from(v.vote_weight);
                if !share.is_zero() {
                    self.st.m(&v.address).balance += share;
                }
            }
            c.event("fees.shared");
        }
        let want_receipts = H256(ordered_root(&receipts));
        c.ensure(resp.receipt_root == want_receipts, "receipt-root", || {
            ("the receipts root commits to the block's receipts in order".into(), json!({"block": number, "txs": txs.len()}))
        });
    }

    fn native(&mut self, c: &mut Ctx, t: &Tx, d: &[u8], got: &TxResp, pot: &mut U256) -> Out {
        c.event("tx.native");
        let to = (d.len() >= 21 && d[0] <= 1).then(|| H160::from_slice(&d[1..21]));
        let ok = to.filter(|a| {
            let b = self.st.get(a).balance;
            if d[0] == 0 { b.checked_add(t.value).is_some() } else { b >= t.value }
        });
        let Some(a) = ok else {
            if got.fee_cost == U256::one() {
                c.violate("reverted-system-transaction-mints",
                    "a reverted system contract transaction adds one unit to the fees shared among validators, which nobody pays",
                    json!({"data": vlib::hex(d)}));
            }
            c.violate("reverted-system-transaction-keeps-nonce",
                "a reverted system contract transaction leaves its sender's nonce as it was, so it can be included again",
                json!({"data": vlib::hex(d)}));
            *pot = pot.checked_add(got.fee_cost).unwrap_or(U256::MAX);
            c.ensure(got.fee_cost <= U256::one(), "native-fee", || ("unexpected fee".into(), json!({"fee": got.fee_cost.to_string()})));
            return Out::Revert(vec![]);
        };
        let acc = self.st.m(&a);
        acc.balance = if d[0] == 0 { acc.balance + t.value } else { acc.balance - t.value };
        acc.nonce += U256::one();
        if a != t.from {
            c.violate("native-token-bumps-wrong-nonce",
                "a native token transaction bumps the nonce of the account it credits or debits instead of its sender's, so it can be included again",
                json!({"from": vlib::hex(t.from), "account": vlib::hex(a)}));
        }
        c.ensure(got.gas_used == 0 && got.fee_cost.is_zero(), "native-fee", || {
            ("a successful system contract call is free".into(), json!({"fee": got.fee_cost.to_string(), "gas": got.gas_used}))
        });
        Out::Ok(vec![])
    }
}
fn keep_plain(st: &State, a: &H160) -> bool {
    let acc = st.get(a);
    acc.code.is_none() && acc.raw.is_empty()
}

/// EIP-2718 receipt payload with the per-transaction gas
pub fn receipt_bytes(t: &Tx, r: &TxResp) -> Vec<u8> {
    let mut bloom = [0u8; 256];
    let logs = r
        .logs
        .iter()
        .map(|l| {
            vlib::oracle::bloom_add(&mut bloom, &l.address.0);
            for t in &l.topics {
                vlib::oracle::bloom_add(&mut bloom, &t.0);
            }
            R::L(vec![R::b(l.address.0), R::L(l.topics.iter().map(|t| R::b(t.0)).collect()), R::b(&l.data)])
        })
        .collect();
    let body = R::L(vec![
        R::u(r.exit_reason.is_succeed() as u64),
        R::u(r.gas_used),
        R::b(bloom),
        R::L(logs),
    ])
    .enc();
    match t.kind {
        0 => body,
        k => {
            let mut v = vec![k as u8];
            v.extend(body);
            v
        }
    }
}

pub fn people(r: &mut Rng, n: usize) -> Vec<H160> {
    (0..n).map(|_| H160(r.arr())).collect()
}

/// addresses of the system contracts, whose accounts are taken from the implementation
pub fn system_accounts(w: &World) -> Vec<(H160, Vec<u8>)> {
    (0..4u8)
        .filter_map(|i| {
            let a = world::system_contract::system_contract_address(i);
            use protocol::traits::ExecutorReadOnlyAdapter;
            let _e = world::rt().enter();
            w.ro().get(a.as_bytes()).map(|raw| (a, raw.to_vec()))
        })
        .collect()
}

pub struct Step<'a> {
    pub world: &'a mut World,
    pub ledger: &'a Ledger,
    pub pool: &'a mut Pool,
    pub genesis: &'a Genesis,
    pub number: u64,
    pub txs: &'a [Tx],
    pub block: &'a BlockSpec,
    pub resp: &'a ExecResp,
    pub rng: &'a mut Rng,
}

/// grow one chain; `after` sees every executed block before it is recorded
pub fn chain(c: &mut Ctx, mut r: Rng, n: u64, judge: bool, blocks: u64, mut after: impl FnMut(&mut Ctx, Step)) {
    {
        let who = people(&mut r, 6);
        let nv = 1 + r.below(5);
        let vals: Vec<ValidatorExtend> = (0..nv)
            .map(|i| {
                let a = if r.chance(1, 4) { who[i % who.len()] } else { H160(r.arr()) };
                let w = match r.below(4) {
                    0 => 1,
                    1 => r.edge_u64() as u32,
                    2 => 0,
                    _ => 10,
                };
                validator(a, 1, w)
            })
            .collect();
        let rich = r.bool();
        let g = genesis(&who, |i| if rich { U256::exp10(36) } else { U256::from(E18) * U256::from(1 + i * i) }, vals.clone(), r.range(1, 1 << 40), 0);
        let dir = c.scratch.join(format!("ledger{n}"));
        let (mut w, _) = World::genesis(&dir, *r.pick(&[1usize, 7, 100, 3000]), &g, vec![]);
        let mut l = Ledger { st: State::default(), vals: vals.clone(), chain_id: g.chain_id, hashes: Rc::new(vec![]) };
        for (a, b) in &g.accounts {
            l.st.m(a).balance = *b;
        }
        let mut pool = Pool { people: who.clone(), contracts: vec![], fresh: n << 32 };
        let mut hashes = vec![w.block_hash(0).unwrap()];
        let blocks = blocks + r.below(10) as u64;
        for number in 1..=blocks {
            let mut txs: Vec<Tx> = vec![];
            let k = if r.chance(1, 8) { 0 } else { 1 + r.below(12) };
            for _ in 0..k {
                txs.push(gen_tx(&mut r, &mut pool, &l.st, rich));
            }
            // nonces as the model has them are not checked by the executor; give each sender its next one
            let mut nonces: BTreeMap<H160, U256> = BTreeMap::new();
            let stxs: Vec<SignedTransaction> = txs
                .iter()
                .map(|t| {
                    let e = nonces.entry(t.from).or_insert_with(|| l.st.get(&t.from).nonce);
                    let s = t.signed(g.chain_id, *e);
                    *e += U256::one();
                    s
                })
                .collect();
            let b = BlockSpec {
                proposer: *r.pick(&vals.iter().map(|v| v.address).collect::<Vec<_>>()),
                timestamp: g.timestamp + number * 3000,
                gas_limit: 30_000_000,
                base_fee: r.range(0, 5000),
                txs: stxs,
                validators: vals.clone(),
                extra: vec![],
            };
            let resp = match guard(|| w.dry(&b)) {
                Ok(x) => x,
                Err(p) => {
                    c.violate(format!("panic/{}", vlib::short_loc(&p.loc)), "executing a block panicked", json!({"msg": p.msg, "loc": p.loc}));
                    break;
                }
            };
            l.hashes = Rc::new(hashes.clone());
            c.mute = !judge;
            l.block(c, &b, number, &txs, &resp);
            c.mute = false;
            after(c, Step { world: &mut w, ledger: &l, pool: &mut pool, genesis: &g, number, txs: &txs, block: &b, resp: &resp, rng: &mut r });
            w.record(&b, &resp);
            hashes.push(w.block_hash(number).unwrap());
            c.add("txs", txs.len() as u64);
            c.event("blocks");
            c.mute = !judge;
            // accounts one by one, for a readable report
            let mut kept = vec![];
            let mut differs = false;
            let all: Vec<H160> = l.st.touched.iter().copied().collect();
            for a in all {
                if a.0[..19] == [0xff; 19] {
                    continue;
                }
                let m = l.st.get(&a);
                let have = w.account(&a);
                c.add("accounts.compared", 1);
                match have {
                    None => {
                        if !m.empty() {
                            differs = true;
                            c.violate("account-missing", "an account the model has is not in the state", json!({"block": number, "account": vlib::hex(a), "model": format!("{m:?}")}));
                        }
                    }
                    Some(h) => {
                        if m.empty() {
                            kept.push(a);
                        }
                        let ok = h.balance == m.balance && h.nonce == m.nonce && h.code_hash.0 == vlib::oracle::keccak256(&m.code_bytes());
                        if !ok {
                            differs = true;
                        }
                        c.ensure(ok, "account", || {
                            ("an account's balance, nonce or code differs from the model's".into(),
                             json!({"block": number, "account": vlib::hex(a), "got": format!("{h:?}"), "balance": m.balance.to_string(), "nonce": m.nonce.to_string(),
                                    "code": m.code_bytes().len()}))
                        });
                        let sok = h.storage_root.0 == m.storage_root();
                        differs |= !sok;
                        c.ensure(sok, "storage", || {
                            let bad: Vec<String> = m.storage.iter().filter(|(k, v)| w.storage_at(&a, k) != **v)
                                .map(|(k, v)| format!("{} model {} got {}", vlib::hex(k), vlib::hex(v), vlib::hex(w.storage_at(&a, k)))).collect();
                            ("a contract's storage differs from the model's".into(), json!({"block": number, "account": vlib::hex(a), "slots": bad}))
                        });
                        if m.code.is_some() || !m.raw.is_empty() {
                            c.event("code.read");
                            c.ensure(w.code(&a) == m.code_bytes(), "code", || ("a contract's code differs".into(), json!({"account": vlib::hex(a)})));
                        }
                        if !h.storage_root.is_zero() && !m.storage.is_empty() {
                            let (k, v) = m.storage.iter().next().map(|(k, v)| (*k, *v)).unwrap();
                            c.ensure(w.storage_at(&a, &k) == v, "storage-read", || ("reading a slot gives another value".into(), json!({"slot": vlib::hex(k)})));
                        }
                    }
                }
            }
            if !kept.is_empty() {
                c.add("empty.kept", kept.len() as u64);
                c.violate("empty-account-kept", "an account that a transaction touched and left empty stays in the state (EIP-161 removes it)",
                    json!({"block": number, "account": vlib::hex(kept[0])}));
            }
            if number % 4 == 0 {
                // enumerate the whole state, independently of the node's own trie code
                let mut names: BTreeMap<Vec<u8>, H160> = l.st.touched.iter().map(|a| (vlib::oracle::keccak256(&a.0).to_vec(), *a)).collect();
                names.extend(system_accounts(&w).into_iter().map(|(a, _)| (vlib::oracle::keccak256(&a.0).to_vec(), a)));
                match world::leaves(&w.trie, resp.state_root) {
                    Some(have) => {
                        c.add("accounts.enumerated", have.len() as u64);
                        let extra: Vec<String> = have.keys().filter(|k| !names.contains_key(*k)).map(vlib::hex).collect();
                        c.ensure(extra.is_empty(), "account-unexplained", || ("the state has an account nothing touched".into(), json!({"block": number, "keys": extra})));
                    }
                    None => c.violate("state-incomplete", "the state trie of an executed block has a missing or malformed node", json!({"block": number})),
                }
            }
            let root = l.st.root(&kept, system_accounts(&w));
            c.event("roots.compared");
            c.seen("state", root);
            if !differs {
                c.ensure(root == resp.state_root, "state-root", || {
                    ("the state root is not that of the model's accounts: something else in the state changed".into(),
                     json!({"block": number, "chain": n, "expected": vlib::hex(root), "got": vlib::hex(resp.state_root),
                           "txs": txs.iter().zip(&resp.tx_resp).map(|(t, r)| format!("{:?} {:?} from {} value {} data {}", r.exit_reason, match &t.act { Act::Create(i) => format!("create {:?}", i.end), Act::Call(a) => format!("call {}", vlib::hex(a)), Act::Native(_) => "native".into() }, vlib::hex(t.from), t.value, vlib::hex(&t.data).chars().take(60).collect::<String>())).collect::<Vec<_>>()}))
                });
            }
            c.mute = false;
            if judge && (differs || root != resp.state_root) {
                break;
            }
            // deployed programs become callable
            let mut known: Vec<(H160, Rc<Prog>)> = l.st.acc.iter().filter_map(|(a, x)| x.code.clone().map(|p| (*a, p))).collect();
            known.retain(|(_, p)| p.need() < 3_000_000);
            while known.len() > 12 {
                let i = r.below(known.len());
                known.remove(i);
            }
            pool.contracts = known;
        }
        drop(w);
        let _ = std::fs::remove_dir_all(&dir);
    }
}

pub fn p21(c: &mut Ctx) {
    let chains = c.scale(150, 20_000);
    for n in 0..chains {
        if !c.within(0.9) {
            break;
        }
        let r = c.rng.fork();
        chain(c, r, n, true, 6, |_, _| {});
    }
}
