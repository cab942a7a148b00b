//! P56: whatever one validator or any peer sends, the others stay up and the chain goes on.
//! Oracle: no thread of the process panics (a panic ends a node: core-run's panic hook), no engine ends, blocks keep coming.
use crate::cluster::Town;
use crate::crash::until;
use crate::hub::{Call, Hub, Policy};
use crate::life::Life;
use crate::node::*;
use crate::prop::tx;
use gen::Key;
use overlord::types::*;
use overlord::Crypto as _;
use protocol::constants::endpoints::*;
use protocol::traits::MessageCodec;
use protocol::types::{BatchSignedTxs, Block, Bytes, ConsensusConfig, SignedTransaction, H160, H256};
use rlp::{Decodable, Encodable};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vlib::{guard, json, Ctx, Rng};

type Content = protocol::types::Proposal;

pub fn p56(c: &mut Ctx) {
    c.stage("hostile");
    for n in 0..c.scale(2, 200) {
        if !c.within(0.8) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("harness", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}
/// what was really said, by kind
#[derive(Default)]
struct Heard(Mutex<HashMap<String, Vec<Bytes>>>);
impl Heard {
    fn note(&self, end: &str, b: &Bytes) {
        let mut m = self.0.lock().unwrap();
        let v = m.entry(end.to_owned()).or_default();
        if v.len() >= 60 {
            v.remove(0);
        }
        v.push(b.clone());
    }
    fn pick(&self, r: &mut Rng, end: &str) -> Option<Bytes> {
        let m = self.0.lock().unwrap();
        let v = m.get(end)?;
        // mostly the latest
        let back = if r.chance(3, 4) { 6 } else { 60 };
        let k = v.len() - 1 - r.below(v.len().min(back));
        Some(v[k].clone())
    }
}
struct Ears {
    heard: Arc<Heard>,
    villain: Arc<Villain>,
}
impl Policy for Ears {
    fn sent(&self, _: usize, end: &str, msg: &Bytes, _: Option<usize>) {
        self.heard.note(end, msg);
    }
    fn call(&self, _: usize, to: usize, end: &str, req: &Bytes) -> Call {
        if to == self.villain.n {
            Call::Answer(self.villain.answer(end, req))
        } else {
            Call::Deliver(Duration::ZERO)
        }
    }
}
struct Villain {
    n: usize,
    me: Member,
    rng: Mutex<Rng>,
    heard: Arc<Heard>,
    people: Vec<Key>,
    /// a block and a proof somebody once gave
    given: Mutex<Vec<(String, Bytes)>>,
}
fn number(r: &mut Rng, x: u64) -> u64 {
    match r.below(12) {
        0 => u64::MAX,
        1 => u64::MAX - 1,
        2 => u64::MAX / 2,
        3 => i64::MAX as u64,
        4 => 0,
        5 => x.wrapping_sub(1),
        6 | 7 => x.wrapping_add(1),
        8 => x.wrapping_add(r.below(20) as u64),
        _ => x,
    }
}
fn bytes(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = b.to_vec();
    match r.below(8) {
        0 => v.clear(),
        1 => v.truncate(r.below(v.len() + 1)),
        2 => v.extend(r.bytes(9)),
        3 => v = r.bytes(32),
        4 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
        5 => v = vec![0xff; r.below(200)],
        _ => {}
    }
    v.into()
}
impl Villain {
    fn sign(&self, what: Bytes) -> Bytes {
        let c = crypto_of(&self.me, &[self.me.ext.clone()]);
        c.sign(c.hash(what)).unwrap()
    }
    fn name(&self, r: &mut Rng, was: &Bytes) -> Bytes {
        match r.below(8) {
            0 => bytes(r, was),
            1 => was.clone(),
            _ => self.me.pk(),
        }
    }
    fn qc(&self, r: &mut Rng, q: &mut AggregatedVote) {
        for _ in 0..r.below(3) {
            match r.below(7) {
                0 => q.height = number(r, q.height),
                1 => q.round = number(r, q.round),
                2 => q.block_hash = bytes(r, &q.block_hash),
                3 => q.signature.signature = bytes(r, &q.signature.signature),
                4 => q.signature.address_bitmap = bytes(r, &q.signature.address_bitmap),
                5 => q.leader = self.name(r, &q.leader),
                _ => q.vote_type = if q.is_prevote_qc() { VoteType::Precommit } else { VoteType::Prevote },
            }
        }
    }
    fn some_qc(&self, r: &mut Rng) -> Option<AggregatedVote> {
        let raw: Vec<u8> = rlp::decode(&self.heard.pick(r, END_GOSSIP_AGGREGATED_VOTE)?).ok()?;
        let mut q = AggregatedVote::decode(&rlp::Rlp::new(&raw)).ok()?;
        self.qc(r, &mut q);
        Some(q)
    }
    fn now(&self, r: &mut Rng) -> (u64, u64) {
        self.heard
            .pick(r, END_GOSSIP_SIGNED_PROPOSAL)
            .and_then(|b| rlp::decode::<Vec<u8>>(&b).ok())
            .and_then(|raw| SignedProposal::<Content>::decode(&rlp::Rlp::new(&raw)).ok())
            .map(|p| (p.proposal.height, p.proposal.round))
            .unwrap_or((1, 0))
    }
    fn content(&self, r: &mut Rng, p: &mut Content) {
        for _ in 0..r.below(3) {
            match r.below(14) {
                0 => p.number = number(r, p.number),
                1 => p.timestamp = number(r, p.timestamp),
                2 => p.gas_limit = number(r, p.gas_limit.low_u64()).into(),
                3 => p.base_fee_per_gas = number(r, p.base_fee_per_gas.low_u64()).into(),
                4 => p.chain_id = number(r, p.chain_id),
                5 => p.prev_hash = gen::h256(r),
                6 => p.prev_state_root = gen::h256(r),
                7 => p.transactions_root = gen::h256(r),
                8 => p.proposer = H160::from_slice(&r.bytes(20)),
                9 => p.call_system_script_count = r.u64() as u32,
                10 => p.proof = { let mut q = p.proof.clone(); q.number = number(r, q.number); q.round = number(r, q.round); q.bitmap = bytes(r, &q.bitmap); q.signature = bytes(r, &q.signature); q },
                11 => p.extra_data = (0..r.below(4)).map(|_| protocol::types::ExtraData { inner: r.bytes(40).into() }).collect(),
                12 => {
                    let extra = 1 + r.below(4);
                    let some = r.chance(1, 2).then(|| gen::h256(r));
                    p.tx_hashes.extend((0..extra).map(|_| some.unwrap_or_else(|| gen::h256(r))));
                    if r.bool() {
                        p.transactions_root = crate::prop::tx_root(&p.tx_hashes);
                    }
                }
                _ => p.tx_hashes.clear(),
            }
        }
    }
    fn message(&self, r: &mut Rng) -> Option<(&'static str, Bytes)> {
        let end = *r.pick(&[
            END_GOSSIP_SIGNED_PROPOSAL,
            END_GOSSIP_SIGNED_PROPOSAL,
            END_GOSSIP_AGGREGATED_VOTE,
            END_GOSSIP_SIGNED_VOTE,
            END_GOSSIP_SIGNED_CHOKE,
            END_GOSSIP_SIGNED_CHOKE,
            BROADCAST_HEIGHT,
            END_GOSSIP_NEW_TXS,
        ]);
        let seen = self.heard.pick(r, end);
        if r.chance(1, 5) {
            // bytes
            let b = match &seen {
                Some(b) if r.chance(3, 4) => b.clone(),
                _ => Bytes::from(r.bytes(60)),
            };
            let b = if r.bool() { bytes(r, &b) } else {
                // inside the wrapping
                match rlp::decode::<Vec<u8>>(&b) {
                    Ok(v) => rlp::encode(&bytes(r, &v.into()).to_vec()).freeze(),
                    Err(_) => b,
                }
            };
            return Some((end, b));
        }
        let raw = seen.as_ref().and_then(|b| rlp::decode::<Vec<u8>>(b).ok()).unwrap_or_default();
        let wrap = |b: Bytes| rlp::encode(&b.to_vec()).freeze();
        let out = match end {
            END_GOSSIP_SIGNED_PROPOSAL => {
                let mut s = SignedProposal::<Content>::decode(&rlp::Rlp::new(&raw)).ok()?;
                let p = &mut s.proposal;
                self.content(r, &mut p.content);
                p.height = number(r, p.height);
                p.round = number(r, p.round);
                if r.chance(1, 3) {
                    p.content.number = p.height;
                }
                p.block_hash = if r.chance(1, 8) { bytes(r, &p.block_hash) } else { Bytes::from(p.content.hash().0.to_vec()) };
                p.proposer = self.name(r, &p.proposer);
                if r.chance(1, 3) {
                    let lock_votes = self.some_qc(r)?;
                    p.lock = Some(PoLC { lock_round: number(r, p.round), lock_votes });
                }
                let sig = self.sign(s.proposal.rlp_bytes().freeze());
                s.signature = if r.chance(1, 8) { bytes(r, &sig) } else { sig };
                wrap(s.rlp_bytes().freeze())
            }
            END_GOSSIP_AGGREGATED_VOTE => {
                let mut q = AggregatedVote::decode(&rlp::Rlp::new(&raw)).ok()?;
                self.qc(r, &mut q);
                wrap(q.rlp_bytes().freeze())
            }
            END_GOSSIP_SIGNED_VOTE => {
                let (h, n) = self.now(r);
                let vote = Vote {
                    height: number(r, h),
                    round: number(r, n),
                    vote_type: if r.bool() { VoteType::Prevote } else { VoteType::Precommit },
                    block_hash: match r.below(3) { 0 => Bytes::new(), 1 => r.bytes(32).into(), _ => self.some_qc(r).map(|q| q.block_hash).unwrap_or_default() },
                };
                let sig = self.sign(vote.rlp_bytes().freeze());
                let v = SignedVote { signature: if r.chance(1, 8) { bytes(r, &sig) } else { sig }, vote, voter: self.name(r, &self.me.pk()) };
                wrap(v.rlp_bytes().freeze())
            }
            END_GOSSIP_SIGNED_CHOKE => {
                let (h, n) = self.now(r);
                let (height, round) = (number(r, h), number(r, n));
                let from = match r.below(3) {
                    0 => UpdateFrom::PrevoteQC(self.some_qc(r)?),
                    1 => UpdateFrom::PrecommitQC(self.some_qc(r)?),
                    _ => {
                        let voters: Vec<Bytes> = (0..r.below(6)).map(|_| self.name(r, &self.me.pk())).collect();
                        UpdateFrom::ChokeQC(AggregatedChoke { height: number(r, height), round: number(r, round), signature: r.bytes(96).into(), voters })
                    }
                };
                let mut s = rlp::RlpStream::new();
                s.begin_list(2).append(&height).append(&round);
                let sig = self.sign(s.out().freeze());
                let k = SignedChoke { signature: if r.chance(1, 8) { bytes(r, &sig) } else { sig }, choke: Choke { height, round, from }, address: self.name(r, &self.me.pk()) };
                wrap(k.rlp_bytes().freeze())
            }
            BROADCAST_HEIGHT => {
                let (h, _) = self.now(r);
                let mut n = number(r, h);
                n.encode_msg().ok()?
            }
            _ => {
                let list: Vec<SignedTransaction> = (0..r.below(4)).map(|_| self.transaction(r)).collect();
                BatchSignedTxs(list).encode_msg().ok()?
            }
        };
        Some((end, out))
    }
    fn transaction(&self, r: &mut Rng) -> SignedTransaction {
        let k = r.pick(&self.people).clone();
        let nonce = 1_000_000 + r.below(100) as u64;
        let mut t = tx(r, &k, &self.people, nonce);
        if r.bool() {
            match r.below(5) {
                0 => t.sender = H160::from_slice(&r.bytes(20)),
                1 => t.transaction.hash = gen::h256(r),
                2 => t.public = None,
                3 => t.transaction.signature = None,
                _ => t.transaction.chain_id = None,
            }
        }
        t
    }
    fn answer(&self, end: &str, _: &Bytes) -> Bytes {
        let r = &mut *self.rng.lock().unwrap();
        let given = self.given.lock().unwrap();
        let mine: Vec<&Bytes> = given.iter().filter(|g| g.0 == end).map(|g| &g.1).collect();
        let b = if mine.is_empty() || r.chance(1, 4) {
            match end {
                RPC_SYNC_PULL_TXS | RPC_PULL_TXS => {
                    let n = r.below(4);
                    BatchSignedTxs((0..n).map(|_| self.transaction(r)).collect()).encode_msg().unwrap()
                }
                _ => r.bytes(70).into(),
            }
        } else {
            (*r.pick(&mine)).clone()
        };
        match r.below(4) {
            0 => bytes(r, &b),
            1 if end == RPC_SYNC_PULL_BLOCK => match Block::decode_msg(b.clone()) {
                Ok(mut k) => {
                    match r.below(6) {
                        0 => k.header.number = number(r, k.header.number),
                        1 => k.header.gas_used = number(r, k.header.gas_used.low_u64()).into(),
                        2 => k.header.timestamp = number(r, k.header.timestamp),
                        3 => k.tx_hashes.push(gen::h256(r)),
                        4 => k.header.proof.bitmap = bytes(r, &k.header.proof.bitmap),
                        _ => k.header.extra_data.clear(),
                    }
                    k.encode_msg().unwrap()
                }
                Err(_) => b,
            },
            1 if end == RPC_SYNC_PULL_PROOF => match protocol::types::Proof::decode_msg(b.clone()) {
                Ok(mut k) => {
                    match r.below(4) {
                        0 => k.number = number(r, k.number),
                        1 => k.round = number(r, k.round),
                        2 => k.bitmap = bytes(r, &k.bitmap),
                        _ => k.signature = bytes(r, &k.signature),
                    }
                    k.encode_msg().unwrap()
                }
                Err(_) => b,
            },
            _ => b,
        }
    }
    /// asks the others for things
    fn request(&self, r: &mut Rng, head: u64) -> (&'static str, Bytes) {
        let end = *r.pick(&[RPC_SYNC_PULL_BLOCK, RPC_SYNC_PULL_PROOF, RPC_SYNC_PULL_TXS, RPC_PULL_TXS]);
        let b = match end {
            RPC_SYNC_PULL_BLOCK | RPC_SYNC_PULL_PROOF => number(r, head).encode_msg().unwrap(),
            RPC_SYNC_PULL_TXS => {
                let height = number(r, head);
                let inner = (0..r.below(4)).map(|_| gen::h256(r)).collect();
                core_consensus::types::PullTxsRequest { height, inner }.encode_msg().unwrap()
            }
            _ => {
                let hashes = (0..r.below(4)).map(|_| gen::h256(r)).collect();
                core_mempool::MsgPullTxs { height: None, hashes }.encode_msg().unwrap()
            }
        };
        (end, if r.chance(1, 3) { bytes(r, &b) } else { b })
    }
}

fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let size = 4usize;
    let members: Vec<Member> = (0..size).map(|i| member(n * 100 + i as u64, 1, 1)).collect();
    let cfg = ConsensusConfig { interval: r.range(40, 90), ..config() };
    let people: Vec<Key> = (0..5).map(|i| gen::key(n * 1000 + i)).collect();
    let turn = r.range(3, 9);
    let g = genesis(
        &people.iter().map(|k| k.addr).collect::<Vec<_>>(),
        metadata(0, 1, turn, &members, cfg.clone()),
        metadata(1, turn + 1, 1_000_000, &members, cfg),
    );
    let base = c.scratch.join(format!("h{n}"));
    let _ = std::fs::remove_dir_all(&base);
    let heard = Arc::new(Heard::default());
    let bad = r.below(size);
    let villain = Arc::new(Villain { n: bad, me: members[bad].clone(), rng: Mutex::new(r.fork()), heard: Arc::clone(&heard), people: people.clone(), given: Default::default() });
    let hub = Hub::new(Ears { heard: Arc::clone(&heard), villain: Arc::clone(&villain) });
    let system = init(&base.join("sys"), &g);
    let dirs: Vec<PathBuf> = (0..size).map(|i| base.join(format!("n{i}"))).collect();
    let mut t = Town { lives: (0..size).map(|_| None).collect(), members: members.clone(), dirs, hub: Arc::clone(&hub), system: Arc::clone(&system.inner) };
    for i in (0..size).filter(|i| *i != bad) {
        let w = init(&t.dirs[i].clone(), &g);
        t.wake(i, w);
    }
    let honest: Vec<usize> = (0..size).filter(|i| *i != bad).collect();
    let mut nonces = vec![0u64; people.len()];
    vlib::PANICS.lock().unwrap().clear();
    let rounds = c.scale(120, 300);
    let asker = hub.join(bad, members[bad].pk(), world::rt().handle().clone());
    let mut down = None;
    'all: for beat in 0..rounds {
        for _ in 0..r.range(1, 14) {
            let Some((end, m)) = villain.message(&mut r) else { continue };
            c.event("messages");
            c.event(end);
            c.seen(end, m.len());
            for to in &honest {
                if r.chance(2, 3) {
                    hub.deliver(bad, *to, end, &m);
                }
            }
            trail.push(format!("{end} {}", vlib::hex(&m[..m.len().min(700)])));
        }
        for _ in 0..r.below(3) {
            let (end, m) = villain.request(&mut r, t.top());
            let to = *r.pick(&honest);
            c.event("requests");
            trail.push(format!("{end} {}", vlib::hex(&m)));
            ask(&asker, to, end, m, Arc::clone(&villain));
        }
        if trail.len() > 150 {
            trail.drain(..50);
        }
        let i = r.below(people.len());
        let l = t.lives[*r.pick(&honest)].as_ref().unwrap();
        let tr = tx(&mut r, &people[i], &people, nonces[i]);
        if l.insert(tr).is_ok() {
            nonces[i] += 1;
        }
        std::thread::sleep(Duration::from_millis(r.below(30) as u64));
        c.event("oracle.judgements");
        if let Some(p) = fallen(&hub) {
            down = Some((beat, p));
            break 'all;
        }
    }
    if let Some((beat, p)) = down {
        c.violate(&format!("down/{}", p.0), format!("{} ({}), beat {beat}", p.1, p.2), json!({"history": n, "trail": trail.iter().rev().take(40).collect::<Vec<_>>()}));
    } else {
        // the villain falls silent
        std::thread::sleep(Duration::from_millis(300));
        let goal = t.up().map(|l| l.height()).max().unwrap_or(0) + 2;
        let went = until(t.up().next().unwrap(), 600, || {
            std::thread::sleep(Duration::from_millis(10));
            t.up().all(|l| l.height() >= goal)
        });
        c.event("oracle.judgements");
        let at: Vec<_> = t.up().map(|l: &Life| (l.height(), l.ended.lock().unwrap().clone())).collect();
        if let Some(p) = fallen(&hub) {
            c.violate(&format!("down/{}", p.0), format!("{} ({})", p.1, p.2), json!({"history": n, "trail": trail.iter().rev().take(40).collect::<Vec<_>>()}));
        } else if at.iter().any(|x| x.1.is_some()) {
            c.violate("engine-ended", format!("{at:?}"), json!({"history": n, "trail": trail.iter().rev().take(40).collect::<Vec<_>>()}));
        } else if !went {
            // Overlord itself can be brought to lock on a block nobody has: nothing of this repository
            c.event("halted");
        } else {
            c.event("went-on");
        }
        // every one of them still serves its peers and its users
        for i in &honest {
            let l = t.lives[*i].as_ref().unwrap();
            let head = l.node.head();
            let got = {
                use protocol::traits::{Context, Priority, Rpc};
                let (net, n, i) = (asker.clone(), head.header.number, *i);
                world::wait(async move { net.call::<u64, Block>(Context::new().with_value("peer", i), RPC_SYNC_PULL_BLOCK, n, Priority::High).await })
            };
            c.event("oracle.judgements");
            if got.as_ref().map(|b| b.hash()).map_err(|e| e.to_string()) != Ok(head.hash()) {
                c.violate("deaf", format!("node {i} asked for its block {}: {:?}", head.header.number, got.map(|b| b.hash())), json!({"history": n}));
            }
            let k = gen::key(n * 1000 + 77);
            match l.insert(tx(&mut r, &k, &people, 0)) {
                Err(e) if !e.contains("alance") => c.violate("unserved", e, json!({"history": n})),
                _ => {}
            }
        }
        c.add("heights", goal);
    }
    c.add("answers", villain.given.lock().unwrap().len() as u64);
    // and they agree
    let mut first: HashMap<u64, H256> = HashMap::new();
    for l in t.up() {
        for h in 0..=l.node.head().header.number {
            let Some(b) = l.node.block(h) else { continue };
            c.event("oracle.judgements");
            let hash = b.hash();
            if *first.entry(h).or_insert(hash) != hash {
                c.violate("disagreement", format!("at {h}"), json!({"history": n}));
            }
        }
    }
    for l in t.lives.iter_mut().flatten() {
        l.kill(&hub);
    }
    hub.leave(bad);
    let _ = std::fs::remove_dir_all(&base);
}
/// the first panic that is not of the harness's making
fn fallen(hub: &Hub) -> Option<(String, String, String)> {
    hub.panics.lock().unwrap().clear();
    let p = vlib::PANICS.lock().unwrap();
    p.first().map(|(l, m, t)| (vlib::short_loc(l), m.clone(), t.clone()))
}
fn ask(net: &crate::hub::Net, to: usize, end: &'static str, m: Bytes, villain: Arc<Villain>) {
    use protocol::traits::{Context, Priority, Rpc};
    let net = net.clone();
    world::rt().spawn(async move {
        if let Ok(Raw(a)) = net.call::<Raw, Raw>(Context::new().with_value("peer", to), end, Raw(m), Priority::High).await {
            let mut g = villain.given.lock().unwrap();
            if g.len() > 200 {
                g.remove(0);
            }
            g.push((end.to_owned(), a));
        }
    });
}
#[derive(Debug)]
struct Raw(Bytes);
impl MessageCodec for Raw {
    fn encode_msg(&mut self) -> protocol::ProtocolResult<Bytes> {
        Ok(self.0.clone())
    }
    fn decode_msg(b: Bytes) -> protocol::ProtocolResult<Self> {
        Ok(Raw(b))
    }
}
