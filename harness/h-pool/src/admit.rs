//! P41: which transactions are let into the pool.
use crate::net::Net;
use common_crypto::Secp256k1Recoverable;
use core_executor::system_contract::{
    CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, IMAGE_CELL_CONTRACT_ADDRESS, METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS,
};
use core_executor::RocksTrieDB;
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, NewTxsHandler, PullTxsHandler, MsgPullTxs};
use core_network::NetworkContext;
use gen::abi::{self, u, A};
use gen::{eth_encode, key, Key};
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, MemPool, MessageCodec, MessageHandler, Storage, TrustFeedback};
use protocol::types::*;
use std::collections::HashSet;
use std::sync::Arc;
use vlib::oracle::{keccak256, R};
use vlib::{guard, hex, json, Ctx, Rng};
use world::{metadata, rt, unsigned_from, validator, wait, BlockSpec, Genesis, Store, World};

pub type Adapter = DefaultMemPoolAdapter<Secp256k1Recoverable, Net, Store, RocksTrieDB, InteroperationImpl>;
pub type Pool = MemPoolImpl<Adapter>;
pub const CHAIN: u64 = 1098411886;
pub const E18: u64 = 1_000_000_000_000_000_000;

pub fn start(w: &World, net: &Net, cap: usize, gap: u64, max_size: usize, batch: usize, every: u64) -> Arc<Pool> {
    let _e = rt().enter();
    let a: Adapter = DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&w.storage), Arc::clone(&w.trie), CHAIN, max_size, batch, every);
    let pool = Arc::new(wait(MemPoolImpl::new(cap, gap, a, vec![])));
    // a node never drops its pool: the broadcaster of a dropped one never rests
    std::mem::forget(Arc::clone(&pool));
    pool
}
pub fn world(path: &std::path::Path, people: &[H160], funds: impl Fn(usize) -> U256, first: Vec<H160>, second: Vec<H160>, turn: u64) -> World {
    let vals = |v: Vec<H160>| v.into_iter().map(|a| validator(a, 1, 1)).collect::<Vec<_>>();
    let g = Genesis {
        chain_id: CHAIN,
        base_fee: 1337,
        accounts: people.iter().enumerate().map(|(i, p)| (*p, funds(i))).collect(),
        metadata: [metadata(0, 1, turn, vals(first)), metadata(1, turn + 1, 1_000_000, vals(second))],
        hardfork: HardforkInfoInner { block_number: 0, flags: H256::zero() },
        timestamp: 1_600_000_000_000,
        coinbase: H160::repeat_byte(9),
    };
    let (w, _) = World::genesis(path, 100, &g, vec![]);
    w.activate();
    w
}
pub fn spec(w: &World, txs: Vec<SignedTransaction>) -> BlockSpec {
    BlockSpec {
        proposer: H160::repeat_byte(9),
        timestamp: 1_600_000_000_000 + w.head().number * 3000,
        gas_limit: 30_000_000,
        base_fee: 1337,
        txs,
        validators: vec![validator(H160::repeat_byte(9), 1, 1)],
        extra: vec![],
    }
}
#[derive(Clone, Debug)]
struct Plan {
    who: usize,
    nonce: u64,
    price: u64,
    limit: u64,
    value: U256,
    to: Option<H160>,
    data: Vec<u8>,
    kind: usize,
    chain: Option<u64>,
}
fn unsigned(p: &Plan) -> UnsignedTransaction {
    let action = p.to.map_or(TransactionAction::Create, TransactionAction::Call);
    let (nonce, gas_limit, gas_price, value, data) = (p.nonce.into(), p.limit.into(), p.price.into(), p.value, Bytes::from(p.data.clone()));
    match p.kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_limit, gas_price, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_limit, gas_price, action, value, data, access_list: vec![] }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, gas_limit, gas_price, max_priority_fee_per_gas: gas_price, action, value, data, access_list: vec![] }),
    }
}
/// as a client's bytes arrive
fn arrive(raw: &[u8]) -> Option<SignedTransaction> {
    SignedTransaction::from_unverified(UnverifiedTransaction::decode(raw).ok()?).ok()
}
/// order of the curve
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b,
    0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
const CELLS: u32 = 5;
fn cell_hash() -> [u8; 32] {
    keccak256(b"programs")
}
/// programs that interoperation signatures refer to, as cells of one transaction
fn programs() -> Vec<Vec<u8>> {
    use gen::riscv::*;
    vec![exits(0), exits(3), args_equal(), exits(-1), { let mut r = Rng::new(5); faults(&mut r) }]
}
fn cells_tx() -> SignedTransaction {
    let script = || A::T(vec![A::W([0; 32]), u(0), A::B(vec![])]);
    let outs = programs()
        .into_iter()
        .enumerate()
        .map(|(i, p)| {
            A::T(vec![
                A::T(vec![A::W(cell_hash()), u(i as u128)]),
                A::T(vec![u(1), script(), A::L(vec![])]),
                A::B(p),
            ])
        })
        .collect();
    let (st, pt) = ("(bytes32,uint8,bytes)", "(bytes32,uint32)");
    let sig = format!("update((uint64,{pt}[],({pt},(uint64,{st},{st}[]),bytes)[])[])");
    let data = abi::call(&sig, &[A::L(vec![A::T(vec![u(1), A::L(vec![]), A::L(outs)])])]);
    unsigned_from(
        key(0).addr,
        UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: 0u64.into(), gas_limit: 10_000_000u64.into(), gas_price: 1u64.into(),
            action: TransactionAction::Call(IMAGE_CELL_CONTRACT_ADDRESS), value: 0u64.into(), data: data.into(),
        }),
        CHAIN,
    )
}
fn interop(index: u32, public: &[u8], s: &[u8], v: u8) -> SignatureComponents {
    let dep = R::L(vec![R::L(vec![R::b(cell_hash()), R::u(index as u64), R::u(0)]), R::b(public)]);
    SignatureComponents { r: [vec![0], dep.enc()].concat().into(), s: s.to_vec().into(), standard_v: v }
}

pub fn p41(c: &mut Ctx) {
    c.stage("admission");
    for n in 0..c.scale(40, 1500) {
        if !c.within(0.9) {
            break;
        }
        match guard(|| history(c, n)) {
            Ok(()) => {}
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n})),
        }
    }
}

fn history(c: &mut Ctx, n: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let keys: Vec<Key> = (0..8).map(key).collect();
    let inter: Vec<Vec<u8>> = (0..3u8).map(|i| vec![i + 1; 33 + i as usize]).collect();
    let inter_addr: Vec<H160> = inter.iter().map(|p| H160::from_slice(&keccak256(p)[12..])).collect();
    let mut people: Vec<H160> = keys.iter().map(|k| k.addr).collect();
    people.extend(&inter_addr);
    let funds = [U256::from(E18), U256::from(E18) * 1000, U256::zero(), U256::from(21_000u64), U256::max_value() >> 9, U256::from(E18)];
    let turn = 2 + r.below(4) as u64;
    let (first, second) = (vec![keys[0].addr, keys[1].addr], vec![keys[1].addr, keys[2].addr]);
    let dir = c.scratch.join(format!("m{n}"));
    let mut w = world(&dir, &people, |i| funds[i % funds.len()], first.clone(), second.clone(), turn);
    let net = Net::default();
    let mut max_size = 2000usize;
    // nothing is gossiped in groups here: a group is as soon as possible
    let pool = start(&w, &net, 5000, 1000, max_size, 1, 50);
    w.exec(&spec(&w, vec![cells_tx()]));
    wait(pool.flush(Context::new(), &[], w.head().number)).unwrap();
    let mut committed: Vec<SignedTransaction> = vec![];
    let mut session = 1usize;
    for _ in 0..6 {
        let mut accepted: Vec<SignedTransaction> = vec![];
        let mut told: HashSet<Hash> = HashSet::new();
        net.0.gossips.lock().unwrap().clear();
        for _ in 0..26 {
            let state = |a: &H160| w.account(a).map_or((0u64, U256::zero()), |a| (a.nonce.low_u64(), a.balance));
            let who = r.below(people.len());
            let (at, funds) = state(&people[who]);
            let gwei = 1_000_000_000u64;
            let mut p = Plan {
                who,
                nonce: at + *r.pick(&[0u64, 0, 0, 1, 3]),
                price: *r.pick(&[1, gwei, 3 * gwei]),
                limit: *r.pick(&[21_000, 21_001, 60_000, 30_000_000]),
                value: U256::from(r.below(1000) as u64),
                to: if r.chance(1, 6) { None } else { Some(*r.pick(&people)) },
                data: r.edge_bytes(60),
                kind: r.below(3),
                chain: Some(CHAIN),
            };
            match r.below(14) {
                0 => p.nonce = at.saturating_sub(1),
                1 => p.price = *r.pick(&[0, 1, 500 * gwei - 1, 500 * gwei, 500 * gwei + 1, u64::MAX]),
                2 => p.limit = *r.pick(&[0, 20_999, 21_000, 30_000_000, 30_000_001, u64::MAX]),
                3 | 4 => {
                    // at the edge of what the sender has
                    let gas = U256::from(p.price) * U256::from(p.limit);
                    p.value = match funds.checked_sub(gas) {
                        Some(rest) if r.bool() => rest,
                        Some(rest) => rest.saturating_add(U256::one()),
                        None => U256::zero(),
                    };
                }
                5 => p.value = *r.pick(&[U256::max_value(), U256::max_value() - 1, U256::one() << 255]),
                6 => p.chain = *r.pick(&[None, Some(CHAIN + 1), Some(1), Some(0), Some((1 << 33) + CHAIN)]),
                7 => p.data = { let k = max_size.saturating_sub(200) + r.below(240); r.bytes(k) },
                8 => p.to = Some(*r.pick(&[METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, IMAGE_CELL_CONTRACT_ADDRESS])),
                _ => {}
            }
            if p.kind > 0 && p.chain.is_none() {
                p.kind = 0;
            }
            let un = unsigned(&p);
            let is_system = matches!(p.to, Some(a) if [METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, IMAGE_CELL_CONTRACT_ADDRESS].contains(&a));
            // who signed it, the bytes, and whether the signature is good
            let mut sig_ok = true;
            let mut bound = true;
            let (stx, sender, what) = if who < keys.len() {
                let (v, mut rr, mut s) = keys[who].sign_hash(&keccak256(&eth_encode(&un, p.chain, None)));
                let (mut v, mut what) = (v, "signed");
                match r.below(14) {
                    0 => {
                        // the other signature of the same pair
                        s = sub(&N, &s);
                        v ^= 1;
                        what = "high s";
                    }
                    1 => {
                        rr = r.arr();
                        what = "random r";
                    }
                    2 => {
                        s = *r.pick(&[[0; 32], N, [255; 32]]);
                        sig_ok = false;
                        what = "s outside the range";
                    }
                    3 => {
                        v ^= 1;
                        what = "other parity";
                    }
                    _ => {}
                }
                let raw = eth_encode(&un, p.chain, Some((v, rr, s)));
                let stx = arrive(&raw);
                let sender = stx.as_ref().map(|t| t.sender);
                if what == "signed" && sender != Some(people[who]) {
                    c.violate("sender", "a well signed transaction is taken to be another's", json!({"raw": hex(&raw)}));
                    continue;
                }
                (stx, sender, what)
            } else {
                let public = &inter[who - keys.len()];
                let which = r.below(CELLS as usize + 1) as u32;
                let equal = r.bool();
                let s: Vec<u8> = if equal { public.clone() } else { [&public[1..], &[9, 9]].concat() };
                sig_ok = which == 0 || (which == 2 && equal);
                bound = false;
                let utx = UnverifiedTransaction { unsigned: un.clone(), signature: Some(interop(which, public, &s, r.below(2) as u8)), chain_id: p.chain, hash: H256::zero() };
                let raw = utx.encode().unwrap();
                let stx = arrive(&raw);
                if stx.as_ref().map(|t| t.sender) != Some(people[who]) {
                    c.violate("sender", "an interoperation transaction is taken to be another's", json!({"raw": hex(&raw)}));
                    continue;
                }
                (stx, Some(people[who]), "interoperation")
            };
            let Some(mut stx) = stx else {
                c.event("undecodable");
                continue;
            };
            let mut old = false;
            if r.chance(1, 12) && !committed.is_empty() {
                stx = r.pick(&committed).clone();
                old = true;
            }
            let sender = if old { stx.sender } else { sender.unwrap() };
            let un = stx.transaction.unsigned.clone();
            let size = stx.transaction.encode().unwrap().len();
            if r.chance(1, 8) {
                // the limits may be set anew between blocks
                max_size = *r.pick(&[size, size - 1, 2000, 5000]);
                pool.set_args(Context::new(), w.root(), 30_000_000, max_size as u64);
            }
            let (at, funds) = state(&sender);
            let next = w.head().number + 1;
            let vals = if next <= turn { &first } else { &second };
            let mut wrong: Vec<&str> = vec![];
            let mut no = |x: bool, s: &'static str| {
                if x {
                    wrong.push(s)
                }
            };
            no(old, "committed");
            no(!sig_ok && !old, "signature");
            no(what == "high s" && !old, "high s");
            no(stx.transaction.chain_id.is_some() && stx.transaction.chain_id != Some(CHAIN), "chain");
            no(size > max_size, "size");
            let (price, limit) = (un.gas_price().low_u64(), un.gas_limit().low_u64());
            no(price == 0 || price >= 500 * gwei, "price");
            no(!(21_000..=30_000_000).contains(&limit), "gas limit");
            if is_system && !old {
                no(!vals.contains(&sender), "not a validator");
            } else {
                no(un.nonce().low_u64() < at, "nonce");
                let cost = (U256::from(price) * U256::from(limit)).checked_add(*un.value());
                no(cost.map_or(true, |x| x > funds), "funds");
            }
            let network = r.chance(1, 3);
            session += 1;
            net.0.reports.lock().unwrap().clear();
            let detail = json!({"plan": format!("{p:?}"), "what": what, "wrong": wrong, "size": size, "max size": max_size, "nonce now": at, "funds": funds.to_string()});
            let got = if network {
                let h = NewTxsHandler::new(Arc::clone(&pool));
                let ctx = Context::new().set_session_id(session.into());
                wait(h.process(ctx, BatchSignedTxs::new(vec![stx.clone()])));
                Ok(wait(pool.contains(Context::new(), &stx.transaction.hash)))
            } else {
                wait(pool.insert(Context::new(), stx.clone())).map(|_| true).map_err(|e| e.to_string())
            };
            let took = got == Ok(true);
            let first_time = !told.contains(&stx.transaction.hash);
            c.event("candidates");
            c.event(if took { "taken" } else { "refused" });
            c.seen("candidate", (wrong.join(" "), what, p.kind, network, took));
            c.ensure(took == wrong.is_empty(), &format!("{}/{}", if took { "taken" } else { "refused" }, wrong.first().unwrap_or(&what)), || (format!("{got:?}"), detail.clone()));
            c.ensure(took == wait(pool.contains(Context::new(), &stx.transaction.hash)) || !first_time, "contains", || ("what was answered is not what was done".into(), detail.clone()));
            if network {
                let reports = net.0.reports.lock().unwrap().clone();
                let blamed = reports.iter().any(|f| matches!(f, TrustFeedback::Bad(_) | TrustFeedback::Worse(_) | TrustFeedback::Fatal(_)));
                c.ensure(!blamed || !wrong.is_empty(), "blame", || (format!("a peer is blamed for a good transaction: {reports:?}"), detail.clone()));
            }
            if took && first_time {
                told.insert(stx.transaction.hash);
                accepted.push(stx.clone());
                gossiped(c, &net, &stx, network.then_some(session));
                if !bound {
                    // the same signature on another transaction
                    let mut other = p.clone();
                    other.nonce += 1;
                    other.to = Some(H160::repeat_byte(0x66));
                    let utx = UnverifiedTransaction { unsigned: unsigned(&other), signature: stx.transaction.signature.clone(), chain_id: p.chain, hash: H256::zero() };
                    if let Some(t) = arrive(&utx.encode().unwrap()) {
                        if wait(pool.insert(Context::new(), t.clone())).is_ok() {
                            c.ensure(false, "interop-signature-not-bound", || ("an interoperation signature is good for any other transaction of its sender".into(), detail.clone()));
                            told.insert(t.transaction.hash);
                            gossiped(c, &net, &t, None);
                            accepted.push(t);
                        }
                    }
                }
            }
        }
        // whoever asks for transactions gets them as asked for
        for _ in 0..4 {
            let mut ask: Vec<SignedTransaction> = accepted.iter().chain(&committed).cloned().collect();
            r.shuffle(&mut ask);
            ask.truncate(5);
            let mut hs: Vec<Hash> = ask.iter().map(|t| t.transaction.hash).collect();
            let strange = r.chance(1, 4);
            if strange {
                hs.push(H256(r.arr()));
            }
            let out = Net::default();
            let h = PullTxsHandler::new(Arc::new(out.clone()), Arc::clone(&pool));
            let msg = MsgPullTxs { height: None, hashes: hs.clone() };
            let msg = MsgPullTxs::decode_msg({ let mut m = msg; m.encode_msg().unwrap() }).unwrap();
            wait(h.process(Context::new(), msg));
            let resp = out.0.responses.lock().unwrap().clone();
            c.event("pulls");
            let ok = match resp.as_slice() {
                [(end, Ok(b))] => !strange && end == "/rpc_resp/mempool/pull_txs" && BatchSignedTxs::decode_msg(b.clone()).map(|x| x.inner() == ask).unwrap_or(false),
                [(end, Err(_))] => strange && end == "/rpc_resp/mempool/pull_txs",
                _ => false,
            };
            c.ensure(ok, "pull", || (format!("{} transactions asked for (one of them unknown: {strange}) are answered otherwise", hs.len()), json!({"asked": hs.len(), "answers": resp.iter().map(|x| (x.0.clone(), x.1.as_ref().map(|b| b.len()).map_err(|e| e.clone()))).collect::<Vec<_>>().len()})));
        }
        // a block of some of them
        let list = wait(pool.package(Context::new(), U256::zero(), *r.pick(&[0u64, 3, 100]))).unwrap();
        let txs: Vec<SignedTransaction> = wait(pool.get_full_txs(Context::new(), None, &list.hashes)).unwrap();
        let exec: Vec<SignedTransaction> = txs.iter().filter(|t| !matches!(t.transaction.unsigned.action(), TransactionAction::Call(a) if *a == METADATA_CONTRACT_ADDRESS)).cloned().collect();
        w.exec(&spec(&w, exec.clone()));
        let (st, n, list2) = (Arc::clone(&w.storage), w.head().number, exec.clone());
        wait(async move { st.insert_transactions(Context::new(), n, list2).await }).unwrap();
        committed.extend(exec);
        wait(pool.flush(Context::new(), &list.hashes, w.head().number)).unwrap();
        c.event("blocks");
    }

    ckb_rocksdb::shim::destroy(&dir);
    std::fs::remove_dir_all(&dir).ok();
}
/// an accepted transaction is passed on once, with where it came from
fn gossiped(c: &mut Ctx, net: &Net, t: &SignedTransaction, from: Option<usize>) {
    let h = t.transaction.hash;
    let find = || -> Vec<(Option<usize>, String)> {
        let g = net.0.gossips.lock().unwrap().clone();
        g.iter().flat_map(|(o, e, b)| BatchSignedTxs::decode_msg(b.clone()).unwrap().inner().into_iter().filter(|x| x.transaction.hash == h).map(|_| (*o, e.clone())).collect::<Vec<_>>()).collect()
    };
    let t0 = std::time::Instant::now();
    let mut got = find();
    while got.is_empty() && t0.elapsed().as_secs() < 10 {
        std::thread::sleep(std::time::Duration::from_millis(1));
        got = find();
    }
    c.event("passed on");
    c.ensure(got == vec![(from, "/gossip/mempool/new_txs".to_string())], "gossip", || (format!("passed on as {got:?}"), json!({"came from": from})));
}
fn sub(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut o = [0; 32];
    (U256::from_big_endian(a) - U256::from_big_endian(b)).to_big_endian(&mut o);
    o
}
