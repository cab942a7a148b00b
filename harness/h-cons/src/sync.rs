//! P54: what a node takes over from its peers when it catches up.
use crate::hub::{Hub, Policy, Silent};
use crate::node::*;
use crate::prop::{bits, quorum, tx};
use core_consensus::SYNC_STATUS;
use gen::Key;
use overlord::Consensus as _;
use overlord::Crypto as _;
use protocol::constants::endpoints::*;
use protocol::traits::{Context, MemPool, MessageCodec, Synchronization};
use protocol::types::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vlib::{guard, json, Ctx, Rng};

type Record = (Block, Vec<Option<SignedTransaction>>, Vec<Option<Receipt>>);

pub struct Chain {
    pub source: Node,
    pub late: Node,
    pub members: Vec<Member>,
    pub eras: [Vec<Member>; 2],
    pub turn: u64,
    pub people: Vec<Key>,
    pub nonces: Vec<u64>,
    pub records: Vec<Record>,
    pub proofs: Vec<Proof>,
    pub hub: Arc<Hub>,
}
impl Chain {
    pub fn committee(&self, h: u64) -> &Vec<Member> {
        &self.eras[(h > self.turn) as usize]
    }
}

/// answers with one thing in it changed
struct Liar {
    rng: Mutex<Rng>,
    /// which answer, and what is done to it
    end: &'static str,
    how: usize,
    /// how many answers of the kind are left alone first
    skip: AtomicU64,
    lies: AtomicU64,
    what: Mutex<String>,
    known: Vec<SignedTransaction>,
    /// members of the committee of each height
    sizes: Vec<usize>,
}
impl Policy for Liar {
    fn gossip(&self, _: usize, _: usize, _: &str, _: &Bytes) -> Vec<(std::time::Duration, Bytes)> {
        vec![]
    }
    fn reply(&self, _: usize, _: usize, end: &str, _: &Bytes, ans: Result<Bytes, String>) -> Result<Bytes, String> {
        if end != self.end || self.skip.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_ok() {
            return ans;
        }
        let good = ans?;
        let r = &mut *self.rng.lock().unwrap();
        let (bad, what) = match end {
            RPC_SYNC_PULL_BLOCK => self.block(r, Block::decode_msg(good.clone()).unwrap()),
            RPC_SYNC_PULL_PROOF => self.proof(r, Proof::decode_msg(good.clone()).unwrap()),
            _ => self.txs(r, core_mempool_msg::decode(good.clone())),
        };
        let bad = match self.how {
            98 => Err("refused".to_owned()),
            99 => Ok(Bytes::from(vlib_mutate(r, &good))),
            _ => Ok(bad),
        };
        if bad.as_ref() != Ok(&good) {
            self.lies.fetch_add(1, Ordering::SeqCst);
            *self.what.lock().unwrap() = match self.how {
                98 => "refusal".to_owned(),
                99 => "noise".to_owned(),
                _ => what,
            };
        }
        bad
    }
}
fn vlib_mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match r.below(4) {
        0 => v.truncate(r.below(v.len() + 1)),
        1 => v = r.bytes(20),
        2 => v.push(7),
        _ => {
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
        }
    }
    v
}
mod core_mempool_msg {
    use protocol::traits::MessageCodec;
    use protocol::types::{BatchSignedTxs, Bytes, SignedTransaction};
    pub fn decode(b: Bytes) -> Vec<SignedTransaction> {
        BatchSignedTxs::decode_msg(b).unwrap().inner()
    }
    pub fn encode(v: Vec<SignedTransaction>) -> Bytes {
        BatchSignedTxs(v).encode_msg().unwrap()
    }
}
fn proof(r: &mut Rng, p: &mut Proof) -> &'static str {
    match r.below(6) {
        0 => {
            p.number = *r.pick(&[0, p.number.wrapping_sub(1), p.number + 1, u64::MAX]);
            "number"
        }
        1 => {
            p.round = *r.pick(&[p.round + 1, u64::MAX, p.round.wrapping_sub(1)]);
            "round"
        }
        2 => {
            p.block_hash = gen::h256(r);
            "hash"
        }
        3 => {
            let mut b = p.signature.to_vec();
            match r.below(3) {
                0 => b.clear(),
                1 => b = r.bytes(96),
                _ => {
                    let i = r.below(b.len().max(1));
                    b.get_mut(i).map(|x| *x ^= 1 << r.below(8));
                }
            }
            p.signature = b.into();
            "signature"
        }
        4 => {
            let mut b = p.bitmap.to_vec();
            match r.below(3) {
                0 => b.clear(),
                1 => b.push(0xff),
                _ => {
                    let i = r.below(b.len().max(1));
                    b.get_mut(i).map(|x| *x ^= 0x80 >> r.below(3));
                }
            }
            p.bitmap = b.into();
            "bitmap"
        }
        _ => {
            *p = Proof::default();
            "missing"
        }
    }
}
impl Liar {
    fn block(&self, r: &mut Rng, mut b: Block) -> (Bytes, String) {
        let h = &mut b.header;
        let bump = |r: &mut Rng, x: u64| *r.pick(&[x.wrapping_add(1), x.wrapping_sub(1), 0, u64::MAX]);
        let what = match self.how % 20 {
            0 => {
                h.prev_hash = gen::h256(r);
                "prev_hash".into()
            }
            1 => {
                h.proposer = gen::h160(r);
                "proposer".into()
            }
            2 => {
                h.state_root = gen::h256(r);
                "state_root".into()
            }
            3 => {
                h.transactions_root = gen::h256(r);
                "transactions_root".into()
            }
            4 => {
                h.signed_txs_hash = gen::h256(r);
                "signed_txs_hash".into()
            }
            5 => {
                h.receipts_root = gen::h256(r);
                "receipts_root".into()
            }
            6 => {
                let i = r.below(256);
                h.log_bloom.0[i] ^= 1 << r.below(8);
                "log_bloom".into()
            }
            7 => {
                h.timestamp = bump(r, h.timestamp);
                "timestamp".into()
            }
            8 => {
                h.number = bump(r, h.number);
                "number".into()
            }
            9 => {
                h.gas_used = bump(r, h.gas_used.low_u64()).into();
                "gas_used".into()
            }
            10 => {
                h.gas_limit = bump(r, h.gas_limit.low_u64()).into();
                "gas_limit".into()
            }
            11 => {
                h.extra_data.push(ExtraData { inner: r.bytes(3).into() });
                "extra_data".into()
            }
            12 => {
                h.base_fee_per_gas = bump(r, h.base_fee_per_gas.low_u64()).into();
                "base_fee_per_gas".into()
            }
            13 => {
                h.chain_id = bump(r, h.chain_id);
                "chain_id".into()
            }
            14 => {
                h.call_system_script_count = h.call_system_script_count.wrapping_add(1 + r.below(9) as u32);
                "call_system_script_count".into()
            }
            15 | 16 => format!("proof.{}", proof(r, &mut h.proof)),
            17 => {
                let i = r.below(b.tx_hashes.len().max(1));
                if i < b.tx_hashes.len() {
                    b.tx_hashes.remove(i);
                }
                "tx_hashes cut".into()
            }
            18 => {
                let i = r.below(b.tx_hashes.len().max(1));
                let x = b.tx_hashes.get(i).cloned().or(self.known.last().map(|t| t.transaction.hash)).unwrap_or_default();
                b.tx_hashes.push(x);
                "tx_hashes more".into()
            }
            _ => {
                b.tx_hashes.reverse();
                "tx_hashes order".into()
            }
        };
        (b.encode_msg().unwrap(), format!("block.{what}"))
    }
    fn proof(&self, r: &mut Rng, mut p: Proof) -> (Bytes, String) {
        let good = p.clone();
        let w = proof(r, &mut p);
        let k = self.sizes.get(good.number as usize).cloned().unwrap_or(0);
        if w == "bitmap" && bits(&p.bitmap, k) == bits(&good.bitmap, k) {
            // it names the same voters
            p = good;
        }
        (p.encode_msg().unwrap(), format!("proof.{w}"))
    }
    fn txs(&self, r: &mut Rng, mut l: Vec<SignedTransaction>) -> (Bytes, String) {
        let i = r.below(l.len().max(1));
        let what = match self.how % 6 {
            0 => {
                l.pop();
                "less"
            }
            1 => {
                l.extend(self.known.first().cloned());
                "more"
            }
            2 if i < l.len() => {
                l[i].sender = gen::h160(r);
                "sender"
            }
            3 if i < l.len() => {
                l[i].public = None;
                "public"
            }
            4 if i < l.len() => {
                if let Some(s) = l[i].transaction.signature.as_mut() {
                    s.standard_v ^= 1;
                }
                "signature"
            }
            _ => {
                let x = l.get(i).cloned();
                l.extend(x);
                "twice"
            }
        };
        (core_mempool_msg::encode(l), format!("transactions {what}"))
    }
}

pub fn chain(c: &mut Ctx, r: &mut Rng, n: u64) -> Chain {
    let count = r.range(1, 5) as usize;
    let even = r.bool();
    let members: Vec<Member> = (0..count + 1).map(|i| member(7_000_000 + n * 100 + i as u64, 1, if even { 1 } else { r.range(1, 4) as u32 })).collect();
    let first = members[..count].to_vec();
    let second = match r.below(3) {
        0 => first.clone(),
        1 => members.clone(),
        _ => vec![members[0].clone(), members[count].clone()],
    };
    let people: Vec<Key> = (0..5).map(|i| gen::key(n * 1000 + i)).collect();
    let hub = Hub::new(Silent);
    let turn = r.range(2, 9);
    let cfg = ConsensusConfig { interval: 5, ..config() };
    let g = genesis(
        &people.iter().map(|k| k.addr).collect::<Vec<_>>(),
        metadata(0, 1, turn, &first, cfg.clone()),
        metadata(1, turn + 1, 1_000_000, &second, cfg),
    );
    let mut start = |i: usize, chunk: usize| {
        let dir = c.scratch.join(format!("y{n}-{i}"));
        let _ = std::fs::remove_dir_all(&dir);
        let w = init(&dir, &g);
        Node::begin(w, &members[if i == 0 { 0 } else { count }], i, &dir, &hub, Options { chunk, ..Default::default() })
    };
    let source = start(0, 5);
    let late = start(1, r.range(1, 4) as usize);
    let mut ch = Chain { nonces: vec![0; people.len()], source, late, members, eras: [first, second], turn, people, records: vec![], proofs: vec![], hub };
    let rec = ch.source.record(0).unwrap();
    ch.records.push(rec);
    ch.proofs.push(Proof::default());
    ch
}
/// the next block of the chain, by the source; some of its transactions reach the late node
pub fn advance(r: &mut Rng, ch: &mut Chain, most: usize) -> Result<(Proposal, Proof), String> {
    let h = ch.records.len() as u64;
    ch.source.activate();
    for _ in 0..r.below(most + 1) {
        let k = r.below(ch.people.len());
        let t = tx(r, &ch.people[k], &ch.people, ch.nonces[k]);
        let pool = Arc::clone(&ch.source.pool);
        world::wait(async move { pool.insert(Context::new(), t).await }).map_err(|e| format!("insert: {e}"))?;
        ch.nonces[k] += 1;
    }
    let p = world::wait(ch.source.engine.get_block(Context::new(), h)).map_err(|e| e.to_string())?.0;
    let com = ch.committee(h).clone();
    let set = quorum(r, &com, true);
    let proof = consent(&com, &set, h, r.below(3) as u64, &p.hash());
    Ok((p, proof))
}
pub fn settle(ch: &mut Chain, p: &Proposal, proof: &Proof) -> Result<(), String> {
    let h = p.number;
    ch.source.activate();
    world::wait(async { ch.source.engine.commit(Context::new(), h, commit_of(p.clone(), proof)).await.map(|_| ()) }).map_err(|e| e.to_string())?;
    ch.records.push(ch.source.record(h).unwrap());
    ch.proofs.push(proof.clone());
    Ok(())
}

pub fn p54(c: &mut Ctx) {
    c.stage("catching up");
    for n in 0..c.scale(40, 1500) {
        if !c.within(0.95) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
        for i in 0..2 {
            let _ = std::fs::remove_dir_all(c.scratch.join(format!("y{n}-{i}")));
        }
    }
}
fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let mut ch = chain(c, &mut r, n);
    let long = n % 13 == 12;
    let length = if long { r.range(52, 60) } else { r.range(3, 12) };
    for _ in 0..length {
        let done = advance(&mut r, &mut ch, if long { 1 } else { 5 }).and_then(|(p, q)| settle(&mut ch, &p, &q));
        if let Err(e) = done {
            return c.violate("source", e, json!({"history": n, "trail": trail}));
        }
    }
    c.seen("length of a chain", length);
    c.seen("era turns at", ch.turn);
    let known: Vec<SignedTransaction> = ch.records.iter().flat_map(|x| x.1.iter().flatten().cloned()).collect();
    c.add("transactions in the chain", known.len() as u64);
    // the late node knows some of the transactions already
    ch.late.activate();
    for t in &known {
        if r.chance(1, 4) {
            let (pool, t) = (Arc::clone(&ch.late.pool), t.clone());
            let _ = world::wait(async move { pool.insert(Context::new(), t).await });
        }
    }
    let mut tries = 0;
    while ch.late.head().header.number < length {
        tries += 1;
        if tries > 60 {
            return c.violate("stuck", format!("after {tries} calls the node is at {} of {length}", ch.late.head().header.number), json!({"history": n, "trail": trail}));
        }
        let at = ch.late.head().header.number;
        let claim = match r.below(8) {
            0 => r.below(length as usize + 1) as u64,
            1 => at + 1,
            _ => length,
        };
        let beyond = r.chance(1, 20);
        let claim = if beyond { *r.pick(&[length + 1, length + 3, u64::MAX]) } else { claim };
        let honest = tries > 12 || r.chance(1, 4);
        let liar = Arc::new(Liar {
            rng: Mutex::new(r.fork()),
            end: if honest { "" } else { *r.pick(&[RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_PROOF, RPC_SYNC_PULL_TXS]) },
            how: if r.chance(1, 8) { r.range(98, 99) as usize } else { r.below(20) },
            skip: AtomicU64::new(r.below(4) as u64),
            lies: AtomicU64::new(0),
            what: Mutex::new(String::new()),
            known: known.clone(),
            sizes: (0..=length).map(|h| ch.committee(h).len()).collect(),
        });
        *ch.hub.policy.write().unwrap() = liar.clone();
        let det = |trail: &Vec<String>| json!({"history": n, "length": length, "turn": ch.turn, "trail": trail.iter().rev().take(8).rev().collect::<Vec<_>>()});
        ch.late.activate();
        let sync = Arc::clone(&ch.late.sync);
        let got = guard(|| world::wait(async move { sync.receive_remote_block(Context::new().with_value("peer", 0usize), claim).await }));
        let lie = if liar.lies.load(Ordering::SeqCst) > 0 { liar.what.lock().unwrap().clone() } else { String::new() };
        let got = match got {
            Ok(x) => x,
            Err(e) => return c.violate(&format!("panic/{lie}"), format!("{} at {}", e.msg, vlib::short_loc(&e.loc)), det(trail)),
        };
        let head = ch.late.head().header.number;
        trail.push(format!("{at} -> {claim}: {head}, lie '{lie}', {}", got.as_ref().map(|_| "ok".to_owned()).unwrap_or_else(|e| e.to_string())));
        c.event("calls");
        c.event("oracle.judgements");
        c.add("blocks taken over", head - at);
        if !lie.is_empty() {
            c.event("lies told");
            c.seen("lie", &lie);
        }
        // nothing but the chain is stored
        let bad = stored(c, &ch, at, head);
        if let Some(what) = bad {
            return c.violate(&format!("stored/{}", if lie.is_empty() { "honest" } else { &lie }), what, det(trail));
        }
        let want = claim.min(at + 50);
        match (&got, lie.is_empty() && !beyond) {
            (Err(e), true) => return c.violate("honest/refused", e.to_string(), det(trail)),
            (Ok(_), true) if head != want.max(at) => return c.violate("honest/short", format!("reaches {head}, not {want}"), det(trail)),
            (Ok(_), false) if !lie.is_empty() && lie != "noise" => return c.violate(&format!("believed/{lie}"), "the call succeeds", det(trail)),
            _ => (),
        }
        if let Some((k, what)) = whole(&ch, head) {
            return c.violate(&k, what, det(trail));
        }
        if r.chance(1, 8) {
            restart(&mut ch);
            trail.push("restart".into());
            c.event("restarts");
            if let Some((k, what)) = whole(&ch, head) {
                return c.violate(&format!("restart/{k}"), what, json!({"history": n, "trail": trail}));
            }
        }
    }
    c.event("chains caught up with");
    c.seen("chain", (length, ch.turn, tries, ch.records.iter().map(|x| x.0.tx_hashes.len()).collect::<Vec<_>>()));
    takes_part(c, n, &mut r, &mut ch, trail);
}
fn restart(ch: &mut Chain) {
    let dir = ch.late.dir.clone();
    let w = ch.late.w.reopen(100);
    ch.late = Node::begin(w, &ch.late.me.clone(), 1, &dir, &ch.hub, Options { chunk: 2, ..Default::default() });
}
fn stored(c: &mut Ctx, ch: &Chain, from: u64, to: u64) -> Option<String> {
    for h in from..=to {
        let mine = ch.late.record(h)?;
        c.event("records compared");
        let Some(theirs) = ch.records.get(h as usize) else { return Some(format!("block {h} is not of the chain")) };
        if mine.0 != theirs.0 {
            return Some(format!("block {h} is another: {:?} / {:?}", mine.0, theirs.0));
        }
        if mine.1 != theirs.1 {
            return Some(format!("block {h} has other transactions"));
        }
        if mine.2 != theirs.2 {
            return Some(format!("block {h} has other receipts"));
        }
    }
    None
}
/// bits of the map that name nobody do not matter
fn same(a: &Proof, b: &Proof, k: usize) -> bool {
    (a.number, a.round, a.block_hash, &a.signature, bits(&a.bitmap, k)) == (b.number, b.round, b.block_hash, &b.signature, bits(&b.bitmap, k))
}
/// status, proof and head are of one block
fn whole(ch: &Chain, head: u64) -> Option<(String, String)> {
    let st = ch.late.status.inner();
    let b = &ch.records[head as usize].0;
    if (st.last_number, st.prev_hash, st.last_state_root) != (head, b.hash(), b.header.state_root) {
        return Some(("status".into(), format!("the status is of block {}, the head {head}", st.last_number)));
    }
    if !same(&st.proof, &ch.proofs[head as usize], ch.committee(head).len()) {
        return Some(("status-proof".into(), format!("the proof in the status is for {}, the head {head}", st.proof.number)));
    }
    if !same(&ch.late.latest_proof(), &ch.proofs[head as usize], ch.committee(head).len()) {
        return Some(("stored-proof".into(), format!("the proof stored is for {}, the head {head}", ch.late.latest_proof().number)));
    }
    if *SYNC_STATUS.read() != core_consensus::SyncStatus::False {
        return Some(("still-syncing".into(), format!("{:?}", SYNC_STATUS.read())));
    }
    None
}
/// having caught up, the node does what any other does
fn takes_part(c: &mut Ctx, n: u64, r: &mut Rng, ch: &mut Chain, trail: &mut Vec<String>) {
    let det = |trail: &Vec<String>| json!({"history": n, "trail": trail.iter().rev().take(6).rev().collect::<Vec<_>>()});
    let h = ch.records.len() as u64;
    ch.hub.set(Silent);
    // its pool knows the state it is at
    ch.late.activate();
    for k in 0..ch.people.len() {
        let now = ch.nonces[k];
        if now > 0 {
            let used = tx(r, &ch.people[k], &ch.people, r.clone().below(now as usize) as u64);
            let pool = Arc::clone(&ch.late.pool);
            if world::wait(async move { pool.insert(Context::new(), used).await }).is_ok() {
                return c.violate("pool/used-nonce", format!("the pool takes a used nonce (account at {now})"), det(trail));
            }
        }
    }
    // it knows the next committee
    for m in ch.committee(h) {
        let msg = vlib::oracle::keccak256(b"vote");
        if let Err(e) = ch.late.crypto.verify_signature(Bytes::from(m.sign(&msg)), Bytes::from(msg.to_vec()), m.pk()) {
            return c.violate("crypto/next-committee", format!("a vote of a member for height {h} is refused: {e}"), det(trail));
        }
    }
    let (a, b) = { let g = ch.hub.tagged.lock().unwrap(); (g.get(&0).cloned(), g.get(&1).cloned()) };
    if h > ch.turn + 1 && a != b && b.is_none() {
        return c.violate("tagged/next-committee", "the committee's peers are not marked as such after catching up", det(trail));
    }
    // it judges the next proposal, and commits it
    let (p, proof) = match advance(r, ch, 4) {
        Ok(x) => x,
        Err(e) => return c.violate("source", e, det(trail)),
    };
    ch.late.activate();
    let hash = Bytes::from(p.hash().0.to_vec());
    if let Err(e) = world::wait(async { ch.late.engine.check_block(Context::new().with_value("peer", 0usize), h, hash, p.clone()).await.map_err(|e| e.to_string()) }) {
        return c.violate("next/refused", e, det(trail));
    }
    if let Err(e) = world::wait(async { ch.late.engine.commit(Context::new(), h, commit_of(p.clone(), &proof)).await.map(|_| ()).map_err(|e| e.to_string()) }) {
        return c.violate("next/not-committed", e, det(trail));
    }
    if let Err(e) = settle(ch, &p, &proof) {
        return c.violate("source", e, det(trail));
    }
    if let Some(what) = stored(c, ch, h, h) {
        return c.violate("next/other", what, det(trail));
    }
    if let Some((k, what)) = whole(ch, h) {
        return c.violate(&format!("next/{k}"), what, det(trail));
    }
    // and proposes the one after that
    ch.late.activate();
    let prev = ch.late.head();
    let h = h + 1;
    match world::wait(async { ch.late.engine.get_block(Context::new(), h).await.map_err(|e| e.to_string()) }) {
        Ok((p, _)) => {
            if p.prev_hash != prev.hash() || !same(&p.proof, &proof, ch.committee(h - 1).len()) || p.number != h || p.prev_state_root != prev.header.state_root {
                return c.violate("own/proposal", format!("{p:?}"), det(trail));
            }
        }
        Err(e) => return c.violate("own/no-proposal", e, det(trail)),
    }
    c.event("nodes that took part again");
    let _ = &ch.members;
}
