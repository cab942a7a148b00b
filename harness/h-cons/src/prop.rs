//! P52: which proposals a validator accepts, and what committing one leaves behind.
use crate::hub::{Hub, Silent};
use crate::node::*;
use gen::Key;
use overlord::Consensus as _;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, MemPool};
use protocol::types::*;
use std::sync::Arc;
use vlib::oracle::{keccak256, mpt_root, R};
use vlib::{guard, hex, json, Ctx, Rng};

pub fn tx(r: &mut Rng, k: &Key, people: &[Key], nonce: u64) -> SignedTransaction {
    let (action, data, gas) = match r.below(6) {
        // a contract that emits a log when created, and one that is just bytes
        0 => (TransactionAction::Create, vec![0x60, 0x2a, 0x60, 0, 0xa1, 0], 200_000u64),
        1 => (TransactionAction::Create, vec![0x60, 7, 0x60, 5, 0xa0, 0x60, 1, 0x60, 0, 0xf3], 200_000),
        2 => (TransactionAction::Call(people[r.below(people.len())].addr), r.bytes(9), 60_000),
        _ => (TransactionAction::Call(people[r.below(people.len())].addr), vec![], 21_000),
    };
    let value = if matches!(action, TransactionAction::Create) { U256::zero() } else { U256::from(r.below(1000)) };
    let price = U64::from(2000 + r.below(500) as u64);
    let un = match r.below(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce: nonce.into(), gas_price: price, gas_limit: gas.into(), action, value, data: data.into() }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce: nonce.into(), gas_price: price, gas_limit: gas.into(), action, value, data: data.into(), access_list: vec![],
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: nonce.into(), max_priority_fee_per_gas: 1.into(), gas_price: price, gas_limit: gas.into(), action, value, data: data.into(), access_list: vec![],
        }),
    };
    k.sign(un, Some(CHAIN))
}
pub fn tx_root(hs: &[H256]) -> H256 {
    if hs.is_empty() {
        return H256(keccak256(&[0x80]));
    }
    H256(mpt_root(&hs.iter().enumerate().map(|(i, h)| (R::u(i as u64).enc(), R::b(&h.0).enc())).collect()))
}

pub fn p52(c: &mut Ctx) {
    c.stage("proposals");
    for n in 0..c.scale(40, 1500) {
        if !c.within(0.95) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}
struct S {
    nodes: Vec<Node>,
    /// everyone who ever is in the committee; the nodes are the first of them
    members: Vec<Member>,
    eras: [Vec<Member>; 2],
    turn: u64,
    hub: Arc<Hub>,
    people: Vec<Key>,
    nonces: Vec<u64>,
    done: Vec<H256>,
    height: u64,
}
impl S {
    fn committee(&self, h: u64) -> &Vec<Member> {
        &self.eras[(h > self.turn) as usize]
    }
}
/// the message as it arrives at another node
fn wire(p: &Proposal) -> Option<Proposal> {
    <Proposal as overlord::Codec>::decode(<Proposal as overlord::Codec>::encode(p).ok()?).ok()
}
fn check(v: &mut Node, from: usize, height: u64, p: &Proposal) -> Result<(), String> {
    check_as(v, from, height, p, &p.hash())
}
fn check_as(v: &mut Node, from: usize, height: u64, p: &Proposal, hash: &H256) -> Result<(), String> {
    v.activate();
    let hash = Bytes::from(hash.0.to_vec());
    world::wait(v.engine.check_block(Context::new().with_value("peer", from), height, hash, p.clone())).map_err(|e| e.to_string())
}
fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let count = if r.chance(1, 3) { 1 } else { r.range(4, 7) as usize };
    let even = r.bool();
    let members: Vec<Member> = (0..count + 2).map(|i| member(n * 100 + i as u64, 1, if even { 1 } else { r.range(1, 6) as u32 })).collect();
    let first = members[..count].to_vec();
    let second = match r.below(4) {
        0 => first.clone(),
        1 => members.clone(),
        _ => {
            let mut l: Vec<Member> = members[1..].iter().filter(|_| r.bool()).cloned().collect();
            l.insert(0, members[0].clone());
            r.shuffle(&mut l);
            l
        }
    };
    let people: Vec<Key> = (0..5).map(|i| gen::key(n * 1000 + i)).collect();
    let hub = Hub::new(Silent);
    let turn = r.range(2, 5);
    let cfg = ConsensusConfig { interval: 10, ..config() };
    let g = genesis(&people.iter().map(|k| k.addr).collect::<Vec<_>>(), metadata(0, 1, turn, &first, cfg.clone()), metadata(1, turn + 1, 1_000_000, &second, cfg));
    let live = count.min(3);
    let mut nodes = vec![];
    for i in 0..live {
        let dir = c.scratch.join(format!("p{n}-{i}"));
        let _ = std::fs::remove_dir_all(&dir);
        let w = init(&dir, &g);
        nodes.push(Node::begin(w, &members[i], i, &dir, &hub, Options::default()));
    }
    let mut s = S { nonces: vec![0; people.len()], nodes, members, eras: [first, second], turn, hub, people, done: vec![], height: 1 };
    for _ in 0..r.range(3, 6) {
        if !c.within(0.97) {
            break;
        }
        height(c, n, &mut r, &mut s, trail);
    }
    for i in 0..live {
        let _ = std::fs::remove_dir_all(c.scratch.join(format!("p{n}-{i}")));
    }
}
fn restart(c: &mut Ctx, s: &mut S, i: usize, trail: &mut Vec<String>) {
    trail.push(format!("restart {i}"));
    let old = &s.nodes[i];
    let before = old.status.inner();
    let w = old.w.reopen(100);
    let node = Node::begin(w, &s.members[i], i, &old.dir.clone(), &s.hub, Options::default());
    let after = node.status.inner();
    if before != after {
        c.violate("restart/status", format!("was {before:?}, is {after:?}"), json!({"trail": trail}));
    }
    s.nodes[i] = node;
    c.event("restarts");
}
fn height(c: &mut Ctx, n: u64, r: &mut Rng, s: &mut S, trail: &mut Vec<String>) {
    let h = s.height;
    let live = s.nodes.len();
    let com = s.committee(h).clone();
    let within: Vec<usize> = (0..live).filter(|i| com.iter().any(|m| m.secret == s.members[*i].secret)).collect();
    let lead = *r.pick(&within);
    if h == s.turn + 1 {
        c.event("changes of the committee");
        c.seen("committee", com.len());
    }
    let det = |w: &str, trail: &Vec<String>| json!({"history": n, "height": h, "what": w, "trail": trail.iter().rev().take(20).rev().collect::<Vec<_>>()});
    // transactions reach the leader, and some of the others
    s.nodes[lead].activate();
    let mut sent = vec![];
    for _ in 0..r.below(7) {
        let k = r.below(s.people.len() - 1);
        let t = tx(r, &s.people[k], &s.people, s.nonces[k]);
        let pool = Arc::clone(&s.nodes[lead].pool);
        let t2 = t.clone();
        if let Err(e) = world::wait(async move { pool.insert(Context::new(), t2).await }) {
            return c.violate("leader/pool", format!("a fresh transaction is refused: {e}"), det("insert", trail));
        }
        s.nonces[k] += 1;
        sent.push(t);
    }
    for i in 0..live {
        if i != lead {
            s.nodes[i].activate();
            for t in &sent {
                if r.bool() {
                    let (pool, t2) = (Arc::clone(&s.nodes[i].pool), t.clone());
                    let _ = world::wait(async move { pool.insert(Context::new(), t2).await });
                }
            }
        }
    }
    s.nodes[lead].activate();
    let prev = s.nodes[lead].head();
    let (p, hash) = match world::wait(s.nodes[lead].engine.get_block(Context::new(), h)) {
        Ok(x) => x,
        Err(e) => return c.violate("leader/no-proposal", e.to_string(), det("get_block", trail)),
    };
    // whose votes stand for the block before this one
    for i in 0..live {
        s.nodes[i].activate();
        let mut want: Vec<(Vec<u8>, u32, u32)> =
            s.committee(h - 1).iter().map(|m| (m.ext.pub_key.as_bytes().to_vec(), m.ext.propose_weight, m.ext.vote_weight)).collect();
        want.sort();
        let got = world::wait(s.nodes[i].engine.get_authority_list(Context::new(), h)).map_err(|e| e.to_string());
        let got = got.map(|l| l.into_iter().map(|n| (n.address.to_vec(), n.propose_weight, n.vote_weight)).collect::<Vec<_>>());
        if !c.ensure(got.as_ref() == Ok(&want), "authority", || {
            (format!("the authorities of height {h} are given as {:?}, not the {} of the height before", got.as_ref().map(|l| l.len()), want.len()), det("get_authority_list", trail))
        }) {
            return;
        }
    }
    trail.push(format!("height {h}: {} proposes {} of {} transactions", lead, p.tx_hashes.len(), sent.len()));
    c.event("proposals made");
    c.event("oracle.judgements");
    c.seen("transactions in a proposal", p.tx_hashes.len());
    let txs: Vec<SignedTransaction> = p.tx_hashes.iter().filter_map(|h| sent.iter().find(|t| t.transaction.hash == *h).cloned()).collect();
    let wrong = |f: bool, what: &str| if f { None } else { Some(what.to_owned()) };
    let bad: Vec<String> = [
        wrong(hash.as_ref() == p.hash().as_bytes(), "hash"),
        wrong(p.prev_hash == prev.hash(), "prev_hash"),
        wrong(p.number == h, "number"),
        wrong(p.prev_state_root == prev.header.state_root, "prev_state_root"),
        wrong(p.proposer == s.members[lead].ext.address, "proposer"),
        wrong(p.chain_id == CHAIN, "chain_id"),
        wrong(p.transactions_root == tx_root(&p.tx_hashes), "transactions_root"),
        wrong(p.timestamp >= prev.header.timestamp && p.timestamp <= now(), "timestamp"),
        wrong(p.proof == s.nodes[lead].latest_proof(), "proof"),
        wrong(txs.len() == sent.len() && p.tx_hashes.len() == sent.len(), "transactions"),
        wrong(p.extra_data.is_empty(), "extra_data"),
        wrong(wire(&p).as_ref() == Some(&p), "form on the wire"),
    ]
    .into_iter()
    .flatten()
    .collect();
    if !bad.is_empty() {
        return c.violate("leader/proposal", bad.join(", "), det("get_block", trail));
    }
    // what an honest validator must not vote for
    for i in (0..live).filter(|i| *i != lead) {
        let mut own = vec![];
        for _ in 0..10 {
            let (name, height, m) = forge(r, s, lead, &p, &prev, h, &txs);
            let Some(m) = wire(&m) else {
                c.event("forgeries that cannot be sent");
                continue;
            };
            if m == p && height == h && !name.starts_with("hash-of") {
                continue;
            }
            c.event("forged proposals");
            c.event("oracle.judgements");
            c.seen("forgery", &name);
            let v = &mut s.nodes[i];
            let voted = match name.as_str() {
                "hash-of-nothing" => gen::h256(r),
                "hash-of-its-own" => {
                    // what this validator proposed itself needs no check
                    v.activate();
                    match world::wait(v.engine.get_block(Context::new(), h)) {
                        Ok((x, _)) if x != m => {
                            own.push(x.hash());
                            x.hash()
                        }
                        _ => gen::h256(r),
                    }
                }
                // what it made itself before
                _ if own.contains(&m.hash()) => continue,
                _ => m.hash(),
            };
            let got = guard(|| check_as(v, lead, height, &m, &voted));
            match got {
                Ok(Err(_)) => c.event("forged proposals refused"),
                Ok(Ok(())) => c.violate(&format!("accepted/{name}"), "a validator accepts it", json!({"history": n, "height": h, "turn": s.turn, "forged": format!("{m:?}"), "proposal": format!("{p:?}"), "txs": p.tx_hashes.len(), "trail": trail})),
                Err(e) => c.violate(&format!("panic/{name}"), format!("{} at {}", e.msg, vlib::short_loc(&e.loc)), det("check_block", trail)),
            }
        }
    }
    // a restart between voting and committing
    let mut accepted = vec![];
    for i in (0..live).filter(|i| *i != lead) {
        match guard(|| check(&mut s.nodes[i], lead, h, &p)) {
            Ok(Ok(())) => {
                c.event("honest proposals accepted");
                accepted.push(i);
            }
            Ok(Err(e)) => return c.violate("refused", format!("an honest proposal: {e}"), det("check_block", trail)),
            Err(e) => return c.violate("panic/honest", format!("{} at {}", e.msg, vlib::short_loc(&e.loc)), det("check_block", trail)),
        }
    }
    // the leader checks its own proposal, too
    if let Err(e) = check(&mut s.nodes[lead], lead, h, &p) {
        return c.violate("refused/own", e, det("check_block", trail));
    }
    if r.chance(1, 2) {
        let i = r.below(live);
        restart(c, s, i, trail);
        if i != lead {
            c.event("restarts between vote and commit");
        }
    }
    // consent and commit
    let k = com.len();
    let set = quorum(r, &com, true);
    c.seen("votes in a proof", set.len());
    let _ = k;
    let proof = consent(&com, &set, h, r.below(4) as u64, &p.hash());
    let mut records = vec![];
    for i in 0..live {
        s.nodes[i].activate();
        let v = &s.nodes[i];
        if r.chance(1, 3) {
            // the pool has lost them: what was written down before voting is used
            let (pool, hs) = (Arc::clone(&v.pool), p.tx_hashes.clone());
            world::wait(async move { pool.flush(Context::new(), &hs, h - 1).await }).unwrap();
            trail.push(format!("{i} lost its pool"));
            if !p.tx_hashes.is_empty() {
                c.event("commits from the log");
            }
        }
        match guard(|| world::wait(v.engine.commit(Context::new(), h, commit_of(p.clone(), &proof)))) {
            Ok(Ok(st)) => {
                let mut want: Vec<Bytes> = s.committee(h + 1).iter().map(|m| m.pk()).collect();
                want.sort();
                let got: Vec<Bytes> = st.authority_list.iter().map(|n| n.address.clone()).collect();
                if st.height != h + 1 || got != want {
                    c.violate("commit/status", format!("height {} of {}", st.height, h + 1), det("commit", trail));
                }
            }
            Ok(Err(e)) => return c.violate("commit/fails", format!("node {i}: {e}"), det("commit", trail)),
            Err(e) => return c.violate("panic/commit", format!("{} at {}", e.msg, vlib::short_loc(&e.loc)), det("commit", trail)),
        }
        c.event("commits");
        c.event("oracle.judgements");
        let head = v.head();
        if head.header.number != h || v.latest_proof() != proof || v.status.inner().last_number != h || v.status.inner().prev_hash != head.hash() {
            c.violate("commit/head", format!("head {}, proof {:?}", head.header.number, v.latest_proof().number), det("commit", trail));
        }
        let rec = v.record(h).unwrap();
        let b = &rec.0.header;
        if (b.prev_hash, b.proposer, b.transactions_root, b.signed_txs_hash, b.timestamp, b.gas_limit, &b.proof, b.chain_id) != (p.prev_hash, p.proposer, p.transactions_root, p.signed_txs_hash, p.timestamp, p.gas_limit, &p.proof, CHAIN)
            || rec.0.tx_hashes != p.tx_hashes
        {
            c.violate("commit/other-block", "the block stored is not the one proposed", det("commit", trail));
        }
        if rec.1.iter().map(|t| t.as_ref()).ne(txs.iter().map(Some)) || rec.2.iter().any(|x| x.is_none()) {
            c.violate("commit/record", format!("{} transactions and {} receipts of {}", rec.1.iter().flatten().count(), rec.2.iter().flatten().count(), txs.len()), det("commit", trail));
        }
        // committed transactions are gone from the pool, and not taken again
        for t in &txs {
            if v.pool.get_tx_from_mem(Context::new(), &t.transaction.hash).is_some() {
                c.violate("commit/still-pooled", hex(t.transaction.hash.as_bytes()), det("commit", trail));
            }
        }
        records.push(rec);
    }
    if records.windows(2).any(|w| w[0] != w[1]) {
        c.violate("commit/diverged", "two nodes stored different blocks", det("commit", trail));
    }
    // the accounts say that each transaction was carried out once
    for (k, want) in s.people.iter().zip(&s.nonces) {
        for v in &s.nodes {
            let got = v.account(&k.addr).map(|a| a.nonce).unwrap_or_default();
            if got != U256::from(*want) {
                c.violate("commit/nonce", format!("{got} after {want} transactions"), det("commit", trail));
            }
        }
    }
    // a second commit of the height changes nothing
    if r.chance(1, 3) {
        let i = r.below(live);
        s.nodes[i].activate();
        let v = &s.nodes[i];
        let before = (v.record(h), v.latest_proof(), v.status.inner());
        let _ = guard(|| world::wait(v.engine.commit(Context::new(), h, commit_of(p.clone(), &proof))).is_ok());
        if (v.record(h), v.latest_proof(), v.status.inner()) != before {
            c.violate("commit/again", "a second commit of a height changes the node", det("commit", trail));
        }
        c.event("repeated commits");
    }
    if r.chance(1, 4) {
        let i = r.below(live);
        restart(c, s, i, trail);
    }
    s.done.extend(p.tx_hashes.iter());
    s.height += 1;
}
/// a proposal no validator should accept at that height
fn forge(r: &mut Rng, s: &S, lead: usize, p: &Proposal, prev: &Block, h: u64, txs: &[SignedTransaction]) -> (String, u64, Proposal) {
    let mut m = p.clone();
    let mut at = h;
    let resign = |m: &mut Proposal, list: &[SignedTransaction]| {
        m.tx_hashes = list.iter().map(|t| t.transaction.hash).collect();
        m.transactions_root = tx_root(&m.tx_hashes);
        m.signed_txs_hash = core_consensus::util::digest_signed_transactions(list);
    };
    let before = s.committee(h - 1);
    let k = before.len();
    let name = match r.below(29) {
        0 => {
            m.number = *r.pick(&[0, h - 1, h + 1, h + 2, u64::MAX, u64::MAX - 1]);
            "number"
        }
        1 => {
            m.number = *r.pick(&[0, h - 1, h + 1, u64::MAX]);
            m.proof.number = m.number.wrapping_sub(1);
            "number-and-proof"
        }
        2 => {
            m.prev_hash = gen::h256(r);
            "prev_hash"
        }
        3 => {
            m.prev_state_root = gen::h256(r);
            "prev_state_root"
        }
        4 => {
            m.transactions_root = gen::h256(r);
            "transactions_root"
        }
        5 => {
            m.signed_txs_hash = gen::h256(r);
            "signed_txs_hash"
        }
        6 => {
            m.timestamp = now() + 30 + r.below(1000) as u64;
            "future"
        }
        7 => {
            m.timestamp = prev.header.timestamp.saturating_sub(1 + r.below(5) as u64);
            "past"
        }
        8 => {
            m.gas_limit = U64::from(*r.pick(&[0u64, 1, 29_999_999, 30_000_001, u64::MAX]));
            "gas_limit"
        }
        9 => {
            m.proposer = match s.members.iter().find(|m| s.committee(h).iter().all(|x| x.secret != m.secret)) {
                Some(m) if r.bool() => m.ext.address,
                _ => gen::h160(r),
            };
            "proposer"
        }
        10 => {
            m.call_system_script_count = m.call_system_script_count.wrapping_add(1 + r.below(3) as u32);
            "system-script-count"
        }
        11 if r.bool() => {
            let x = ExtraData { inner: HardforkInfoInner { block_number: h + 5, flags: H256::repeat_byte(1) }.encode().unwrap() };
            m.extra_data = vec![x; 2];
            "extra_data-twice"
        }
        11 => {
            m.extra_data = vec![ExtraData { inner: r.bytes(4).into() }];
            "extra_data"
        }
        12 => {
            m.extra_data = vec![ExtraData { inner: HardforkInfoInner { block_number: h + 5, flags: H256::repeat_byte(1) }.encode().unwrap() }];
            "hardfork"
        }
        13 => {
            m.proof.number = *r.pick(&[0, h, h + 1, h.wrapping_sub(2), u64::MAX]);
            "proof-number"
        }
        14 if h > 1 => {
            m.proof.round += 1;
            "proof-round"
        }
        15 if h > 1 => {
            m.proof.block_hash = gen::h256(r);
            "proof-hash"
        }
        16 if h > 1 => {
            let mut b = m.proof.signature.to_vec();
            let i = r.below(b.len().max(1));
            if let Some(x) = b.get_mut(i) {
                *x ^= 1 << r.below(8);
            }
            m.proof.signature = b.into();
            "proof-signature"
        }
        17 if h > 1 => {
            // not enough of them
            let set = quorum(r, before, false);
            let q = m.proof.clone();
            m.proof = consent(before, &set, q.number, q.round, &q.block_hash);
            "proof-minority"
        }
        18 if h > 1 => {
            m.proof.bitmap = r.bytes(m.proof.bitmap.len()).into();
            if bits(&m.proof.bitmap, k) == bits(&p.proof.bitmap, k) {
                m.proof = p.proof.clone();
            }
            "proof-bitmap"
        }
        19 if txs.len() > 1 => {
            let mut l = txs.to_vec();
            let i = r.below(l.len());
            l.push(l[i].clone());
            resign(&mut m, &l);
            "transaction-twice"
        }
        20 => {
            let mut l = txs.to_vec();
            let i = r.below(s.people.len() - 1);
            let nonce = s.nonces[i] + r.below(3) as u64;
            let t = tx(r, &s.people[i], &s.people, nonce);
            l.push(t);
            resign(&mut m, &l);
            "transaction-nobody-has"
        }
        21 if !s.done.is_empty() => {
            m.tx_hashes.push(*r.pick(&s.done));
            m.transactions_root = tx_root(&m.tx_hashes);
            "transaction-of-an-earlier-block"
        }
        23 => {
            // one that must wait for another
            let i = s.people.len() - 1;
            let nonce = 1 + r.below(100_000) as u64;
            let t = tx(r, &s.people[i], &s.people, nonce);
            let pool = Arc::clone(&s.nodes[lead].pool);
            s.nodes[lead].w.activate();
            let t2 = t.clone();
            if world::wait(async move { pool.insert(Context::new(), t2).await }).is_ok() {
                let mut l = txs.to_vec();
                l.push(t);
                resign(&mut m, &l);
            }
            "nonce-gap"
        }
        24 if txs.len() > 1 => {
            let mut l = txs.to_vec();
            l.reverse();
            let swapped = (0..l.len()).any(|i| (0..i).any(|j| l[i].sender == l[j].sender));
            if swapped {
                resign(&mut m, &l);
            }
            "nonce-order"
        }
        25 => {
            m.number = h;
            "hash-of-nothing"
        }
        26 => {
            m.extra_data = vec![ExtraData { inner: r.bytes(3).into() }; r.below(3)];
            m.gas_limit = U64::from(1u64);
            "hash-of-its-own"
        }
        22 => {
            m.tx_hashes.pop();
            "transactions-cut"
        }
        _ => {
            at = *r.pick(&[h + 1, h + 7, h.saturating_sub(1)]);
            "at-another-height"
        }
    };
    (name.to_owned(), at, m)
}
pub fn bits(b: &[u8], k: usize) -> Vec<bool> {
    (0..k).map(|i| b.get(i / 8).map_or(false, |x| x & (0x80 >> (i % 8)) != 0)).collect()
}

/// places (in bitmap order) of voters that hold more than two thirds of the weight, or as many as hold no more
pub fn quorum(r: &mut Rng, com: &[Member], enough: bool) -> Vec<usize> {
    let com = ordered(com);
    let w = |l: &[usize]| l.iter().map(|i| com[*i].ext.vote_weight as u64).sum::<u64>();
    let mut left: Vec<usize> = (0..com.len()).collect();
    let total = w(&left);
    r.shuffle(&mut left);
    let mut set = vec![];
    for i in left {
        let with = [&set[..], &[i]].concat();
        if enough && 3 * w(&set) > 2 * total && r.bool() {
            continue;
        }
        if !enough && 3 * w(&with) > 2 * total {
            continue;
        }
        set.push(i);
    }
    set.sort();
    set
}
