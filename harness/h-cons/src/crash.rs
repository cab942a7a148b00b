//! P57: a node that stops at any moment goes on from what it stored.
//! Oracle: the chain read back from storage, compared with what was seen before, and the chain growing again.
use crate::hub::{Hub, Policy};
use crate::life::Life;
use crate::node::*;
use crate::prop::tx;
use ckb_rocksdb::shim;
use gen::Key;
use protocol::constants::endpoints::*;
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use world::World;
use vlib::{guard, json, Ctx};

/// what a member put its name to
#[derive(Default)]
pub struct Signed {
    /// (member, height, round, kind) to the hashes signed for it
    pub said: Mutex<HashMap<(usize, u64, u64, u8), HashSet<Bytes>>>,
}
impl Signed {
    pub fn note(&self, from: usize, end: &str, msg: &Bytes) {
        use overlord::types::*;
        use rlp::Decodable;
        let Ok(msg) = rlp::decode::<Vec<u8>>(msg) else { return };
        let msg = &msg[..];
        let (h, r, kind, hash) = match end {
            END_GOSSIP_SIGNED_PROPOSAL => match SignedProposal::<protocol::types::Proposal>::decode(&rlp::Rlp::new(msg)) {
                Ok(p) => (p.proposal.height, p.proposal.round, 0, p.proposal.block_hash),
                Err(_) => return,
            },
            END_GOSSIP_SIGNED_VOTE => match SignedVote::decode(&rlp::Rlp::new(msg)) {
                Ok(v) => (v.vote.height, v.vote.round, if v.vote.vote_type == VoteType::Prevote { 1 } else { 2 }, v.vote.block_hash),
                Err(_) => return,
            },
            _ => return,
        };
        self.said.lock().unwrap().entry((from, h, r, kind)).or_default().insert(hash);
    }
}
struct Watch(Arc<Signed>);
impl Policy for Watch {
    fn sent(&self, from: usize, end: &str, msg: &Bytes, _: Option<usize>) {
        self.0.note(from, end, msg);
    }
}

pub fn p57(c: &mut Ctx) {
    c.stage("alone");
    for n in 0..c.scale(6, 400) {
        if !c.within(0.95) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}
/// waits until `f`, or the node has lived through so many ticks
pub fn until(l: &Life, ticks: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = l.now() + ticks;
    loop {
        if f() {
            return true;
        }
        if l.now() >= end {
            return f();
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let me = member(n * 100, 1, 1);
    let people: Vec<Key> = (0..3).map(|i| gen::key(n * 1000 + i)).collect();
    let watch = Arc::new(Signed::default());
    let hub = Hub::new(Watch(Arc::clone(&watch)));
    let turn = r.range(2, 8);
    let cfg = ConsensusConfig { interval: 25, ..config() };
    let list = [me.clone()];
    let g = genesis(&people.iter().map(|k| k.addr).collect::<Vec<_>>(), metadata(0, 1, turn, &list, cfg.clone()), metadata(1, turn + 1, 1_000_000, &list, cfg));
    let dir = c.scratch.join(format!("c{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    let mut w = init(&dir, &g);
    let mut known: BTreeMap<u64, H256> = BTreeMap::new();
    let mut nonces = vec![0u64; people.len()];
    let mut settled: HashSet<H256> = HashSet::new();
    for life in 0..r.range(3, 7) {
        if !c.within(0.97) {
            break;
        }
        // it may not even come up
        while r.chance(1, 3) {
            let base = shim::journal_len(&dir);
            let k = 1 + r.below(24);
            shim::fail_writes_after(&dir, Some(base + k));
            let patience = r.below(14) as u64;
            let life = guard(|| {
                let mut l = Life::start(w, &me, 0, &dir, &hub, Options::default());
                until(&l, patience, || false);
                l.kill(&hub);
            });
            hub.leave(0);
            trail.push(format!("a short life, {} writes{}", shim::journal_len(&dir) - base, if life.is_err() { ", did not come up" } else { "" }));
            last_write(c, &dir, base);
            shim::fail_writes_after(&dir, None);
            w = World::open(&dir, 100, CHAIN);
            c.event("short-lives");
        }
        let mut l = Life::start(w, &me, 0, &dir, &hub, Options::default());
        let from = l.height();
        trail.push(format!("life {life} from {from}"));
        chain(c, &l, &mut known, &mut nonces, &people, &mut settled, trail);
        c.event("restarts");
        // it works
        let target = from + r.range(1, 4);
        let mut next = nonces.clone();
        let grew = until(&l, 3000, || {
            if r.chance(1, 6) {
                let i = r.below(people.len());
                let t = tx(&mut r, &people[i], &people, next[i]);
                if l.insert(t).is_ok() {
                    next[i] += 1;
                }
            }
            l.height() >= target
        });
        c.event("oracle.judgements");
        if !grew {
            let mut said: Vec<_> = watch.said.lock().unwrap().keys().cloned().collect();
            said.sort();
            c.violate(
                "stuck",
                format!("height {} (proof {}) after {} ticks; engine {:?}", l.height(), l.node.status.inner().proof.number, l.now(), l.ended.lock().unwrap()),
                json!({"trail": trail, "signed": format!("{:?}", said.iter().rev().take(6).collect::<Vec<_>>())}),
            );
            l.kill(&hub);
            return;
        }
        // and then it does not
        let how = r.below(4);
        let base = shim::journal_len(&dir);
        match how {
            0 => std::thread::sleep(Duration::from_millis(r.below(60) as u64)),
            _ => {
                let k = r.below(40);
                shim::fail_writes_after(&dir, Some(base + k));
                let before = l.now();
                until(&l, 100, || shim::journal_len(&dir) >= base + k && l.now() > before + r.below(20) as u64);
                trail.push(format!("writes fail after {k}"));
                last_write(c, &dir, base);
            }
        }
        l.kill(&hub);
        trail.push(format!("stopped at {}", l.height()));
        shim::fail_writes_after(&dir, None);
        w = l.node.w.reopen(100);
    }
    let said = watch.said.lock().unwrap();
    for ((_, h, round, kind), v) in said.iter() {
        c.event("signed");
        if v.len() > 1 {
            c.event(&format!("said-twice-{kind}"));
            c.note(format!("{kind} at {h} {round}: {v:?}"));
        }
    }
    for p in hub.panics.lock().unwrap().drain(..) {
        c.violate("panic", p, json!({"trail": trail}));
    }
    let _ = std::fs::remove_dir_all(&dir);
    shim::destroy(&dir);
}
fn last_write(c: &mut Ctx, dir: &std::path::Path, base: usize) {
    let len = shim::journal_len(dir);
    if len > base {
        let last = shim::journal_entry(dir, len - 1);
        c.seen("last-write", last.first().map(|x| x.0.clone()).unwrap_or_default());
        c.event("write-faults");
    }
}
/// everything stored hangs together, and is what it was
fn chain(c: &mut Ctx, l: &Life, known: &mut BTreeMap<u64, H256>, nonces: &mut [u64], people: &[Key], settled: &mut HashSet<H256>, trail: &[String]) {
    let head = l.node.head().header.number;
    let rt = l.rt.as_ref().unwrap();
    let st = Arc::clone(&l.node.w.storage);
    if let Some((k, _)) = known.iter().next_back() {
        if *k > head {
            c.violate("lost-block", format!("block {k} was stored, and the head is {head}"), json!({"trail": trail}));
        }
    }
    let mut prev: Option<Block> = None;
    nonces.fill(0);
    let mut order = vec![vec![]; people.len()];
    settled.clear();
    for h in 0..=head {
        let (b, t, rc) = rt.block_on(async {
            let b = st.get_block(Context::new(), h).await.unwrap();
            let hs = b.as_ref().map(|b| b.tx_hashes.clone()).unwrap_or_default();
            (b, st.get_transactions(Context::new(), h, &hs).await, st.get_receipts(Context::new(), h, &hs).await)
        });
        let Some(b) = b else {
            c.violate("hole", format!("no block {h}, head {head}"), json!({"trail": trail}));
            return;
        };
        c.event("oracle.judgements");
        let hash = b.hash();
        if *known.entry(h).or_insert(hash) != hash {
            c.violate("changed-block", format!("block {h} was another"), json!({"trail": trail}));
        }
        if let Some(p) = &prev {
            if b.header.prev_hash != p.hash() {
                c.violate("broken-chain", format!("block {h}"), json!({"trail": trail}));
            }
        }
        match (t, rc) {
            (Ok(t), Ok(rc)) if t.iter().all(|x| x.is_some()) && rc.iter().all(|x| x.is_some()) => {
                for t in t.iter().flatten() {
                    if !settled.insert(t.transaction.hash) {
                        c.violate("committed-twice", format!("in block {h}"), json!({"trail": trail}));
                    }
                    if let Some(i) = people.iter().position(|p| p.addr == t.sender) {
                        nonces[i] += 1;
                        order[i].push((h, t.transaction.unsigned.nonce().low_u64()));
                    }
                }
                c.add("stored-txs", t.len() as u64);
            }
            (t, rc) => c.violate("record", format!("block {h}: {:?} {:?}", t.map(|x| x.len()).map_err(|e| e.to_string()), rc.map(|x| x.len()).map_err(|e| e.to_string())), json!({"trail": trail})),
        }
        prev = Some(b);
    }
    for (i, p) in people.iter().enumerate() {
        let _e = rt.enter();
        let top = prev.as_ref().unwrap().header.clone();
        let n = l.node.account_at(&top, &p.addr).map(|a| a.nonce.as_u64());
        if n.unwrap_or(0) != nonces[i] {
            c.violate("state", format!("nonce {n:?} after {} transactions, head {head}: {:?}", nonces[i], order[i]), json!({"trail": trail}));
        }
    }
}
