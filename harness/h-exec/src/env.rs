//! P24: what a contract sees of its block, of the blocks before it, of its transaction and of other accounts.
use crate::ledger::{genesis, E18};
use core_executor::AxonExecutor;
use protocol::traits::Executor;
use protocol::types::*;
use vlib::oracle::keccak256;
use vlib::{guard, hex, json, Ctx, Rng};
use world::{rt, unsigned_from, BlockSpec, World};

const HASHES: usize = 10;
const PEERS: usize = 5;
const ENV: [u8; 13] = [0x30, 0x32, 0x33, 0x34, 0x3a, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48];
/// answers with the environment, the hashes of the block numbers it is given, and three facts about each address it is given
fn code() -> Vec<u8> {
    let mut c = vec![];
    let mut slot = 0u16;
    let mut put = |c: &mut Vec<u8>| {
        c.push(0x61);
        c.extend((slot * 32).to_be_bytes());
        c.push(0x52); // mstore
        slot += 1;
    };
    for e in ENV {
        c.push(e);
        put(&mut c);
    }
    for i in 0..HASHES as u16 {
        c.push(0x61);
        c.extend((i * 32).to_be_bytes());
        c.extend([0x35, 0x40]);
        put(&mut c);
    }
    for i in 0..PEERS as u16 {
        for op in [0x31, 0x3b, 0x3f] {
            c.push(0x61);
            c.extend(((HASHES as u16 + i) * 32).to_be_bytes());
            c.extend([0x35, op]);
            put(&mut c);
        }
    }
    c.push(0x61);
    c.extend((slot * 32).to_be_bytes());
    c.extend([0x60, 0, 0xf3]);
    c
}
fn deploy(code: &[u8]) -> Vec<u8> {
    let n = (code.len() as u16).to_be_bytes();
    [&[0x61, n[0], n[1], 0x60, 14, 0x60, 0, 0x39, 0x61, n[0], n[1], 0x60, 0][..], &[0xf3], code].concat()
}
struct Ask {
    hashes: Vec<U256>,
    peers: Vec<H160>,
}
impl Ask {
    fn data(&self) -> Vec<u8> {
        let mut d = vec![];
        for h in &self.hashes {
            let mut b = [0; 32];
            h.to_big_endian(&mut b);
            d.extend(b);
        }
        self.peers.iter().for_each(|p| d.extend([&[0u8; 12][..], &p.0].concat()));
        d
    }
}
struct View {
    this: H160,
    origin: H160,
    value: U256,
    price: U256,
    header: Header,
    own: U256,
}
fn ask(r: &mut Rng, n: u64, known: &[H160]) -> Ask {
    let hashes = (0..HASHES)
        .map(|_| match r.below(8) {
            0 => U256::from(n + r.below(3) as u64),
            1 => U256::from(n.saturating_sub(254 + r.below(5) as u64)),
            2 => U256::from(n.saturating_sub(r.below(4) as u64)),
            3 => (U256::one() << (64 * (1 + r.below(3)))) + U256::from(n.saturating_sub(1)),
            4 => U256::from(r.below(3)),
            5 => U256::from(r.edge_u64()),
            _ => U256::from(r.below(n as usize + 1)),
        })
        .collect();
    let peers = (0..PEERS).map(|_| if r.chance(1, 5) { H160(r.arr()) } else { *r.pick(known) }).collect();
    Ask { hashes, peers }
}

pub fn p24(c: &mut Ctx) {
    c.stage("chains");
    for n in 0..c.scale(8, 400) {
        if !c.within(0.9) {
            break;
        }
        chain(c, n);
    }
}

fn chain(c: &mut Ctx, n: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let people: Vec<H160> = (1..6).map(|i| H160::repeat_byte(i)).collect();
    let chain_id = *r.pick(&[5u64, 1, 2022, u32::MAX as u64, 0]);
    let g = genesis(&people, |i| if i == 4 { U256::zero() } else { U256::from(E18) * U256::from(i as u64 + 1) }, vec![], chain_id, 0);
    let dir = c.scratch.join(format!("e{n}"));
    let tx = |w: &World, from: H160, to: Option<H160>, value: U256, data: Vec<u8>, price: u64| {
        let t = UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: U64::zero(),
            gas_price: U64::from(price),
            gas_limit: U64::from(3_000_000u64),
            action: to.map_or(TransactionAction::Create, TransactionAction::Call),
            value,
            data: Bytes::from(data),
        });
        unsigned_from(from, t, w.chain_id)
    };
    let mut w = match guard(|| World::genesis(&dir, 50, &g, vec![])) {
        Ok(x) => x.0,
        Err(p) => return c.violate("genesis/panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({})),
    };
    let mut hashes: Vec<H256> = vec![w.headers[0].clone()].iter().map(|h| keccak(h)).collect();
    let mut at: Vec<H160> = people.clone();
    at.extend([H160::zero(), H160::from_low_u64_be(1), H160::from_low_u64_be(0x102)]);
    let mut this = None;
    let mut code_of = std::collections::BTreeMap::new();
    let length = 280 + r.below(200) as u64;
    for _ in 0..length {
        let number = w.head().number + 1;
        let spec = |r: &mut Rng, txs: Vec<SignedTransaction>, w: &World| BlockSpec {
            proposer: *r.pick(&people),
            timestamp: w.head().timestamp + 1 + r.below(5000) as u64,
            gas_limit: 30_000_000 + r.below(1000) as u64,
            base_fee: 1337 + r.below(3) as u64,
            txs,
            validators: vec![],
            extra: vec![],
        };
        let Some(me) = this else {
            let code = code();
            let b = spec(r, vec![tx(&w, people[0], None, U256::zero(), deploy(&code), 0)], &w);
            let resp = w.exec(&b);
            hashes.push(keccak(w.head()));
            let a = resp.tx_resp[0].code_address.map(|h| H160::from_slice(&h.0[12..]));
            if a.is_none() {
                return c.violate("deploy", "a contract cannot be created", json!({"exit": format!("{:?}", resp.tx_resp[0].exit_reason)}));
            }
            code_of.insert(a.unwrap(), code);
            at.push(a.unwrap());
            this = a;
            continue;
        };
        let mut asked = vec![];
        let mut txs = vec![];
        if r.chance(1, 3) || number > 254 {
            for _ in 0..1 + r.below(2) {
                let q = ask(r, number, &at);
                let value = U256::from(r.below(1000));
                let price = if r.bool() { 0 } else { r.range(1, 1000) };
                let from = people[r.below(4)];
                txs.push(tx(&w, from, Some(me), value, q.data(), price));
                asked.push((q, from, value, price));
            }
        }
        let b = spec(r, txs, &w);
        // the balances before and within the block
        let state = w.root();
        let resp = match guard(|| w.exec(&b)) {
            Ok(x) => x,
            Err(p) => return c.violate("panic", format!("executing a block panicked: {} at {}", p.msg, vlib::short_loc(&p.loc)), json!({})),
        };
        hashes.push(keccak(w.head()));
        c.event("blocks");
        let mut balances: std::collections::BTreeMap<H160, U256> = {
            let _e = rt().enter();
            let ro = w.ro_at(state, w.head().into());
            use evm::backend::Backend;
            at.iter().map(|a| (*a, ro.basic(*a).balance)).collect()
        };
        for (i, (q, from, value, price)) in asked.iter().enumerate() {
            let price = U256::from(*price);
            *balances.get_mut(from).unwrap() -= price * U256::from(3_000_000u64) + *value;
            *balances.get_mut(&me).unwrap() += *value;
            let v = View { this: me, origin: *from, value: *value, price, header: w.head().clone(), own: balances[&me] };
            let t = &resp.tx_resp[i];
            look(c, &hashes, q, &v, &balances, &code_of, t, "in a transaction");
            *balances.get_mut(from).unwrap() += price * U256::from(t.remain_gas);
            // fees may be shared at any time before the end of the block
            if !price.is_zero() {
                break;
            }
        }
        if r.chance(1, 4) || number > 254 {
            let old = r.chance(1, 3);
            let header = if old { r.pick(&w.headers[2..]).clone() } else { w.head().clone() };
            let q = ask(r, header.number, &at);
            let from = *r.pick(&people);
            let (bal, t) = {
                let _e = rt().enter();
                let mut ctx: ExecutorContext = (&header).into();
                ctx.origin = from;
                let ro = w.ro_at(header.state_root, ctx);
                use evm::backend::Backend;
                let bal: std::collections::BTreeMap<H160, U256> = at.iter().map(|a| (*a, ro.basic(*a).balance)).collect();
                (bal, guard(|| AxonExecutor.call(&ro, 3_000_000, Some(from), Some(me), U256::zero(), q.data(), r.bool())))
            };
            let Ok(t) = t else {
                return c.violate("panic", "a call panicked", json!({}));
            };
            let v = View { this: me, origin: from, value: U256::zero(), price: U256::one(), header, own: bal[&me] };
            look(c, &hashes, &q, &v, &bal, &code_of, &t, if old { "in a call on an old block" } else { "in a call" });
        }
        if r.chance(1, 60) {
            c.event("restarts");
            w = w.reopen(1 + r.below(30));
            w.activate();
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    ckb_rocksdb::shim::destroy(&dir);
}
fn keccak(h: &Header) -> H256 {
    H256(keccak256(&gen::r_header(h).enc()))
}

#[allow(clippy::too_many_arguments)]
fn look(
    c: &mut Ctx,
    hashes: &[H256],
    q: &Ask,
    v: &View,
    balances: &std::collections::BTreeMap<H160, U256>,
    codes: &std::collections::BTreeMap<H160, Vec<u8>>,
    t: &TxResp,
    when: &str,
) {
    let number = v.header.number;
    if !t.exit_reason.is_succeed() || t.ret.len() != 32 * (13 + HASHES + 3 * PEERS) {
        return c.violate("call", format!("reading the environment {when} ended with {:?}", t.exit_reason), json!({"number": number}));
    }
    c.event(when);
    let got = |i: usize| U256::from_big_endian(&t.ret[32 * i..32 * i + 32]);
    let a = |x: &H160| U256::from_big_endian(&x.0);
    let h = &v.header;
    let names = ["address", "origin", "caller", "value", "gas price", "proposer", "timestamp", "number", "difficulty", "gas limit", "chain id", "own balance", "base fee"];
    let want = [
        a(&v.this), a(&v.origin), a(&v.origin), v.value, v.price, a(&h.proposer), h.timestamp.into(), number.into(), U256::one(),
        U256::from(h.gas_limit.low_u64()), h.chain_id.into(), v.own, U256::from(h.base_fee_per_gas.low_u64()),
    ];
    for i in 0..13 {
        // a call has no gas price of its own
        if names[i] == "difficulty" || (names[i] == "gas price" && when != "in a transaction") {
            continue;
        }
        c.ensure(got(i) == want[i], &format!("env/{}", names[i].replace(' ', "-")), || {
            (format!("a contract sees {} as its {} {when}", got(i), names[i]), json!({"number": number, "want": want[i].to_string()}))
        });
    }
    for (i, n) in q.hashes.iter().enumerate() {
        let inside = *n < U256::from(number) && U256::from(number) - *n <= U256::from(256);
        c.event(if inside { "hash.inside" } else { "hash.outside" });
        if inside {
            c.seen("distance", number - n.low_u64());
        }
        let want = if inside { hashes[n.low_u64() as usize] } else { H256::zero() };
        c.ensure(got(13 + i) == U256::from_big_endian(&want.0), "blockhash", || {
            (format!("block {number} sees {:#x} as the hash of block {n} {when}", got(13 + i)), json!({"want": format!("{want:?}")}))
        });
    }
    for (i, p) in q.peers.iter().enumerate() {
        let at = 13 + HASHES + 3 * i;
        if let Some(b) = balances.get(p) {
            c.ensure(got(at) == *b, "balance", || (format!("a contract sees {} as the balance of {p:?} {when}", got(at)), json!({"want": b.to_string(), "number": number})));
        } else {
            c.ensure(got(at).is_zero(), "balance", || (format!("a contract sees {} as the balance of {p:?} {when}", got(at)), json!({"want": 0})));
        }
        let code = codes.get(p);
        c.ensure(got(at + 1) == U256::from(code.map_or(0, |c| c.len())), "code-size", || (format!("the code of {p:?} has {} bytes {when}", got(at + 1)), json!({})));
        // an account that exists and has no code has the hash of nothing; of one that does not exist it is zero
        let empty = U256::from_big_endian(&keccak256(&[]));
        let ok = match code {
            Some(c) => got(at + 2) == U256::from_big_endian(&keccak256(c)),
            None => match balances.get(p) {
                Some(b) if !b.is_zero() => got(at + 2) == empty,
                _ => got(at + 2) == empty || got(at + 2).is_zero(),
            },
        };
        c.ensure(ok, "code-hash", || (format!("the code hash of {p:?} is {:#x} {when}", got(at + 2)), json!({"code": code.map(|c| hex(c)), "number": number})));
    }
}
