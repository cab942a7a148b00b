//! P55: validators of one chain on a network that loses, delays and repeats messages, while some of them crash or lie.
//! Oracle: the histories of all nodes are one, hold what clients sent once and in order, and go on when the network is well.
use crate::crash::{until, Signed};
use crate::hub::{Fair, Hub, Policy};
use crate::life::Life;
use crate::node::*;
use crate::prop::tx;
use gen::Key;
use overlord::types::{SignedProposal, SignedVote};
use overlord::Crypto as _;
use protocol::constants::endpoints::*;
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use rlp::{Decodable, Encodable};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vlib::{guard, json, Ctx, Rng};
use world::World;

pub fn p55(c: &mut Ctx) {
    c.stage("together");
    for n in 0..c.scale(3, 400) {
        if !c.within(0.8) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Weather {
    Fair,
    Rain { lose: u64, twice: u64, slow: u64 },
    Split(u32),
}
struct Sky {
    rng: Mutex<Rng>,
    weather: Weather,
    signed: Arc<Signed>,
    liar: Option<(usize, Member)>,
    old: Arc<Mutex<Vec<(String, Bytes)>>>,
    lost: AtomicU64,
    forged: AtomicU64,
    replayed: AtomicU64,
    totals: Arc<[AtomicU64; 3]>,
}
impl Sky {
    fn apart(&self, a: usize, b: usize) -> bool {
        matches!(self.weather, Weather::Split(m) if (m >> a) & 1 != (m >> b) & 1)
    }
    /// the same kind of message, saying something else, with a signature that is good
    fn forge(&self, r: &mut Rng, me: &Member, end: &str, msg: &Bytes) -> Option<Bytes> {
        let raw: Vec<u8> = rlp::decode(msg).ok()?;
        let crypto = crypto_of(me, &[me.ext.clone()]);
        let out = match end {
            END_GOSSIP_SIGNED_VOTE => {
                let mut v = SignedVote::decode(&rlp::Rlp::new(&raw)).ok()?;
                v.vote.block_hash = if r.bool() { Bytes::new() } else { Bytes::from(r.bytes(32)) };
                v.signature = crypto.sign(crypto.hash(v.vote.rlp_bytes().freeze())).ok()?;
                v.rlp_bytes().freeze()
            }
            END_GOSSIP_SIGNED_PROPOSAL => {
                let mut p = SignedProposal::<Proposal>::decode(&rlp::Rlp::new(&raw)).ok()?;
                match r.below(3) {
                    0 => p.proposal.content.timestamp += 1 + r.below(3) as u64,
                    1 => {
                        p.proposal.content.tx_hashes.pop()?;
                    }
                    _ => p.proposal.content.proposer = H160::repeat_byte(r.below(256) as u8),
                }
                p.proposal.content.transactions_root = crate::prop::tx_root(&p.proposal.content.tx_hashes);
                p.proposal.block_hash = Bytes::from(p.proposal.content.hash().0.to_vec());
                p.signature = crypto.sign(crypto.hash(p.proposal.rlp_bytes().freeze())).ok()?;
                p.rlp_bytes().freeze()
            }
            _ => return None,
        };
        Some(rlp::encode(&out.to_vec()).freeze())
    }
}
impl Policy for Sky {
    fn sent(&self, from: usize, end: &str, msg: &Bytes, _: Option<usize>) {
        self.signed.note(from, end, msg);
        let mut old = self.old.lock().unwrap();
        if old.len() < 5000 {
            old.push((end.to_owned(), msg.clone()));
        }
    }
    fn gossip(&self, from: usize, to: usize, end: &str, msg: &Bytes) -> Vec<(Duration, Bytes)> {
        let r = &mut *self.rng.lock().unwrap();
        let mut out = vec![(Duration::ZERO, msg.clone())];
        if self.apart(from, to) {
            self.totals[0].fetch_add(1, Ordering::Relaxed);
            return vec![];
        }
        if let Some((liar, me)) = &self.liar {
            if *liar == from {
                if r.chance(1, 2) {
                    if let Some(m) = self.forge(r, me, end, msg) {
                        self.totals[1].fetch_add(1, Ordering::Relaxed);
                        match r.below(3) {
                            0 => out = vec![(Duration::ZERO, m)],
                            1 => out.push((Duration::ZERO, m)),
                            _ => out.insert(0, (Duration::ZERO, m)),
                        }
                    }
                }
                // and whatever was said before, of this kind
                if r.chance(1, 8) {
                    let old = self.old.lock().unwrap();
                    let same: Vec<_> = old.iter().filter(|x| x.0 == end).collect();
                    if !same.is_empty() {
                        self.totals[2].fetch_add(1, Ordering::Relaxed);
                        out.push((Duration::ZERO, r.pick(&same).1.clone()));
                    }
                }
                if r.chance(1, 10) {
                    let mut m = msg.to_vec();
                    let i = r.below(m.len());
                    m[i] ^= 1 << r.below(8);
                    out.push((Duration::ZERO, m.into()));
                }
            }
        }
        if let Weather::Rain { lose, twice, slow } = self.weather {
            if r.chance(lose, 100) {
                self.totals[0].fetch_add(1, Ordering::Relaxed);
                return vec![];
            }
            if r.chance(twice, 100) {
                out.push(out[0].clone());
            }
            for m in out.iter_mut() {
                m.0 = Duration::from_millis(r.below(slow as usize + 1) as u64);
            }
        }
        out
    }
    fn call(&self, from: usize, to: usize, _: &str, _: &Bytes) -> crate::hub::Call {
        use crate::hub::Call;
        let r = &mut *self.rng.lock().unwrap();
        if self.apart(from, to) {
            return Call::Lose;
        }
        match self.weather {
            Weather::Rain { lose, slow, .. } => {
                if r.chance(lose, 100) {
                    Call::Lose
                } else {
                    Call::Deliver(Duration::from_millis(r.below(slow as usize + 1) as u64))
                }
            }
            _ => Call::Deliver(Duration::ZERO),
        }
    }
}

pub struct Town {
    pub lives: Vec<Option<Life>>,
    pub members: Vec<Member>,
    pub dirs: Vec<PathBuf>,
    pub hub: Arc<Hub>,
    pub system: Arc<core_db::RocksDB>,
}
impl Town {
    pub fn wake(&mut self, i: usize, w: World) {
        let o = Options { system: Some(Arc::clone(&self.system)), ..Default::default() };
        self.lives[i] = Some(Life::start(w, &self.members[i], i, &self.dirs[i], &self.hub, o));
    }
    pub fn up(&self) -> impl Iterator<Item = &Life> {
        self.lives.iter().flatten()
    }
    pub fn top(&self) -> u64 {
        self.up().map(|l| l.height()).max().unwrap_or(0)
    }
}

fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let size = *r.pick(&[4usize, 4, 5]);
    let members: Vec<Member> = (0..size).map(|i| member(n * 100 + i as u64, 1, 1)).collect();
    let some = |r: &mut Rng| {
        let mut l = members.clone();
        if size > 4 {
            l.remove(r.below(size));
        }
        r.shuffle(&mut l);
        l
    };
    let eras = [some(&mut r), some(&mut r)];
    let turn = r.range(3, 12);
    let cfg = ConsensusConfig { interval: r.range(40, 120), ..config() };
    let people: Vec<Key> = (0..5).map(|i| gen::key(n * 1000 + i)).collect();
    let g = genesis(
        &people.iter().map(|k| k.addr).collect::<Vec<_>>(),
        metadata(0, 1, turn, &eras[0], cfg.clone()),
        metadata(1, turn + 1, 1_000_000, &eras[1], cfg),
    );
    let base = c.scratch.join(format!("t{n}"));
    let _ = std::fs::remove_dir_all(&base);
    let hub = Hub::new(Fair);
    let system = init(&base.join("sys"), &g);
    let dirs: Vec<PathBuf> = (0..size).map(|i| base.join(format!("n{i}"))).collect();
    let worlds: Vec<World> = dirs.iter().map(|d| init(d, &g)).collect();
    let mut t = Town { lives: (0..size).map(|_| None).collect(), members: members.clone(), dirs, hub: Arc::clone(&hub), system: Arc::clone(&system.inner) };
    for (i, w) in worlds.into_iter().enumerate() {
        t.wake(i, w);
    }
    vlib::PANICS.lock().unwrap().clear();
    let signed = Arc::new(Signed::default());
    let totals: Arc<[AtomicU64; 3]> = Default::default();
    let old: Arc<Mutex<Vec<(String, Bytes)>>> = Default::default();
    // one of them may be a liar, for good; else one at a time may crash
    let liar = if r.chance(1, 2) { Some(r.below(size)) } else { None };
    trail.push(format!("{size} nodes, liar {liar:?}, turn {turn}"));
    let mut sent: BTreeMap<(usize, u64), SignedTransaction> = BTreeMap::new();
    let mut nonces = vec![0u64; people.len()];
    let mut known: Vec<BTreeMap<u64, H256>> = vec![BTreeMap::new(); size];
    let sky = |r: &mut Rng, w: Weather| Sky {
        rng: Mutex::new(r.fork()),
        weather: w,
        signed: Arc::clone(&signed),
        liar: liar.map(|l| (l, members[l].clone())),
        old: Arc::clone(&old),
        lost: Default::default(),
        forged: Default::default(),
        replayed: Default::default(),
        totals: Arc::clone(&totals),
    };
    for phase in 0..r.range(4, 7) {
        let w = match r.below(4) {
            0 => Weather::Fair,
            1 => Weather::Rain { lose: r.below(30) as u64, twice: r.below(30) as u64, slow: r.range(0, 60) },
            2 => Weather::Rain { lose: r.below(8) as u64, twice: r.below(8) as u64, slow: r.range(0, 200) },
            _ => Weather::Split(r.below(1 << size) as u32),
        };
        hub.set(sky(&mut r, w));
        trail.push(format!("{w:?} at {}", t.top()));
        c.seen("weather", format!("{w:?}").split([' ', '(']).next().unwrap_or_default());
        let down = if liar.is_none() && r.chance(2, 3) { Some(r.below(size)) } else { liar.filter(|_| r.chance(1, 3)) };
        for beat in 0..r.range(10, 40) {
            if let (Some(d), 5) = (down, beat) {
                crash(c, &mut t, d, &mut known, trail);
            }
            if let (Some(d), true) = (down, beat > 5 && r.chance(1, 6)) {
                revive(c, &mut t, d, &known, trail);
            }
            let i = r.below(people.len());
            let who = r.below(size);
            if let Some(l) = &t.lives[who] {
                let tr = match sent.get(&(i, nonces[i])) {
                    Some(t) => t.clone(),
                    None => tx(&mut r, &people[i], &people, nonces[i]),
                };
                sent.insert((i, nonces[i]), tr.clone());
                if l.insert(tr).is_ok() {
                    nonces[i] += 1;
                }
            }
            std::thread::sleep(Duration::from_millis(25));
        }
        if let Some(d) = down {
            revive(c, &mut t, d, &known, trail);
        }
        let _ = phase;
    }
    // all is well again
    hub.set(Sky { liar: None, ..sky(&mut r, Weather::Fair) });
    let goal = t.top() + 3;
    trail.push(format!("well at {}", t.top()));
    let mut round = 0;
    let done = {
        let clock = t.lives[0].as_ref().unwrap();
        until(clock, if liar.is_some() { 800 } else { 9000 }, || {
            round += 1;
            if round % 50 == 1 {
                // clients ask again for what has not come
                for ((_, _), tr) in sent.iter() {
                    for l in t.up() {
                        let _ = l.insert(tr.clone());
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(20));
            t.up().all(|l| l.height() >= goal) && settled(&t, &people, &nonces)
        })
    };
    c.event("oracle.judgements");
    if !done && liar.is_some() {
        // Overlord itself can be brought to a halt by a validator that lies: nothing of this repository
        c.event("halted");
    } else if !done {
        let hs: Vec<_> = t.up().map(|l| (l.height(), l.node.status.inner().proof.number, l.now(), l.ended.lock().unwrap().clone())).collect();
        c.violate(
            "stuck",
            format!("wanted height {goal}; nodes are at {hs:?}; nonces settled: {}", settled(&t, &people, &nonces)),
            json!({"history": n, "trail": trail}),
        );
    }
    for l in t.lives.iter_mut().flatten() {
        if let Some(how) = l.ended.lock().unwrap().clone() {
            c.violate("engine-ended", how, json!({"trail": trail}));
        }
        l.kill(&hub);
    }
    judge(c, &t, &people, &sent, &nonces, done, &known, trail);
    for ((who, h, round, kind), v) in signed.said.lock().unwrap().iter() {
        c.event("signed");
        if v.len() > 1 {
            c.event(&format!("said-twice-{kind}"));
            c.note(format!("{who} said {kind} at {h} {round}: {}", v.len()));
        }
    }
    for (l, m, thread) in vlib::PANICS.lock().unwrap().iter() {
        // what is said while a runtime is taken down
        if thread.starts_with("node") && !["being shutdown", "handler dropped", "handler disconnect", "sender dropped", "channel closed"].iter().any(|x| m.contains(x)) {
            c.violate("panic", format!("{m} at {}", vlib::short_loc(l)), json!({"trail": trail}));
        }
    }
    c.add("messages", hub.messages.load(Ordering::Relaxed));
    c.add("messages-lost", totals[0].load(Ordering::Relaxed));
    c.add("forgeries", totals[1].load(Ordering::Relaxed));
    c.add("replays", totals[2].load(Ordering::Relaxed));
    c.add("txs", sent.len() as u64);
    c.add("heights", t.lives[0].as_ref().unwrap().height());
    let _ = std::fs::remove_dir_all(&base);
}
fn settled(t: &Town, people: &[Key], nonces: &[u64]) -> bool {
    t.up().all(|l| {
        let _e = l.rt.as_ref().unwrap().enter();
        people.iter().zip(nonces).all(|(p, n)| l.node.account(&p.addr).map_or(0, |a| a.nonce.as_u64()) >= *n)
    })
}
fn blocks(l: &Life) -> BTreeMap<u64, H256> {
    let st = Arc::clone(&l.node.w.storage);
    let head = world::wait(async move {
        let head = st.get_latest_block(Context::new()).await.unwrap().header.number;
        let mut m = BTreeMap::new();
        for h in 0..=head {
            if let Some(b) = st.get_block(Context::new(), h).await.unwrap() {
                m.insert(h, b.hash());
            }
        }
        m
    });
    head
}
fn crash(c: &mut Ctx, t: &mut Town, i: usize, known: &mut [BTreeMap<u64, H256>], trail: &mut Vec<String>) {
    let Some(mut l) = t.lives[i].take() else { return };
    known[i] = blocks(&l);
    l.kill(&t.hub);
    c.event("crashes");
    trail.push(format!("{i} crashes at {}", l.height()));
}
fn revive(c: &mut Ctx, t: &mut Town, i: usize, known: &[BTreeMap<u64, H256>], trail: &mut Vec<String>) {
    if t.lives[i].is_some() {
        return;
    }
    let w = World::open(&t.dirs[i], 100, CHAIN);
    t.wake(i, w);
    let now = blocks(t.lives[i].as_ref().unwrap());
    c.event("oracle.judgements");
    if known[i].iter().any(|(h, b)| now.get(h) != Some(b)) {
        c.violate("forgotten", format!("node {i} had {} blocks, has {}", known[i].len(), now.len()), json!({"trail": trail}));
    }
    trail.push(format!("{i} is back at {}", now.len() - 1));
}

#[allow(clippy::too_many_arguments)]
fn judge(
    c: &mut Ctx,
    t: &Town,
    people: &[Key],
    sent: &BTreeMap<(usize, u64), SignedTransaction>,
    nonces: &[u64],
    done: bool,
    known: &[BTreeMap<u64, H256>],
    trail: &[String],
) {
    let heads: Vec<u64> = t.up().map(|l| l.node.head().header.number).collect();
    let top = *heads.iter().max().unwrap();
    let asked: HashSet<H256> = sent.values().map(|t| t.transaction.hash).collect();
    let mut first: HashMap<u64, (usize, Vec<u8>)> = HashMap::new();
    for (i, l) in t.up().enumerate() {
        let mut once = HashSet::new();
        let mut at = vec![0u64; people.len()];
        let mut prev: Option<Block> = None;
        for h in 0..=heads[i] {
            c.event("oracle.judgements");
            let Some((b, txs, rs)) = l.node.record(h) else {
                c.violate("hole", format!("node {i} has no block {h} of {}", heads[i]), json!({"trail": trail}));
                break;
            };
            if txs.iter().any(|x| x.is_none()) || rs.iter().any(|x| x.is_none()) {
                c.violate("record", format!("node {i} lacks transactions or receipts of block {h}"), json!({"trail": trail}));
            }
            if prev.as_ref().map_or(false, |p| p.hash() != b.header.prev_hash) {
                c.violate("broken-chain", format!("node {i} block {h}"), json!({"trail": trail}));
            }
            if known[i].get(&h).map_or(false, |x| *x != b.hash()) {
                c.violate("changed-block", format!("node {i} block {h}"), json!({"trail": trail}));
            }
            // block, transactions and receipts are the same everywhere
            let all = format!("{:?}|{b:?}|{txs:?}|{rs:?}", b.hash()).into_bytes();
            match first.get(&h) {
                None => drop(first.insert(h, (i, all))),
                Some((j, x)) => {
                    c.event("agreed");
                    if *x != all {
                        c.violate("disagreement", format!("nodes {j} and {i} at {h}"), json!({"trail": trail}));
                    }
                }
            }
            for x in txs.iter().flatten() {
                let id = x.transaction.hash;
                if !once.insert(id) {
                    c.violate("committed-twice", format!("{id:?} again in block {h}"), json!({"trail": trail}));
                }
                if !asked.contains(&id) {
                    c.violate("nobody-asked", format!("{id:?} in block {h}"), json!({"trail": trail}));
                }
                if let Some(p) = people.iter().position(|p| p.addr == x.sender) {
                    let n = x.transaction.unsigned.nonce().low_u64();
                    if n != at[p] {
                        c.violate("nonce-order", format!("nonce {n} of {p} where {} was due, block {h}", at[p]), json!({"trail": trail}));
                    }
                    at[p] = n + 1;
                }
            }
            prev = Some(b);
        }
        if done && at.iter().zip(nonces).any(|(a, n)| a < n) {
            c.violate("lost", format!("node {i}: {at:?} of {nonces:?} committed"), json!({"trail": trail}));
        }
        for (p, k) in people.iter().enumerate() {
            let n = l.node.account(&k.addr).map_or(0, |a| a.nonce.as_u64());
            if n != at[p] {
                c.violate("state", format!("node {i}: nonce {n} after {} transactions", at[p]), json!({"trail": trail}));
            }
        }
    }
    c.seen("top", top);
}
