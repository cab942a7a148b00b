//! P40: what the transaction pool packages, keeps and forgets, over histories of one caller at a time.
use core_executor::system_contract::{METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS};
use core_mempool::MemPoolImpl;
use protocol::traits::{Context, MemPool, MemPoolAdapter};
use protocol::types::*;
use protocol::{async_trait, ProtocolError, ProtocolResult};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use vlib::{guard, json, Ctx, Rng};

#[derive(Debug)]
pub struct Refused(pub &'static str);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Refused {}
impl From<Refused> for ProtocolError {
    fn from(e: Refused) -> ProtocolError {
        ProtocolError::new(protocol::ProtocolErrorKind::Mempool, Box::new(e))
    }
}

/// What other nodes answer when asked for transactions.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Peer {
    Honest,
    Short,
    Other,
    Twice,
    Silent,
}
/// The rest of the node, as the pool sees it.
#[derive(Default)]
pub struct Around {
    pub nonces: HashMap<H160, u64>,
    pub committed: HashMap<Hash, SignedTransaction>,
    pub network: HashMap<Hash, SignedTransaction>,
    pub bad: HashSet<Hash>,
    pub sent: Vec<(Option<usize>, Hash)>,
    pub asked: Vec<Vec<Hash>>,
    pub peer: Option<Peer>,
    pub spare: Vec<SignedTransaction>,
    /// answers take up to that many microseconds to arrive
    pub slow: u64,
}
#[derive(Clone, Default)]
pub struct Mock(pub Arc<Mutex<Around>>);

impl Mock {
    /// an answer on its way
    async fn travel(&self) {
        let us = {
            let a = self.0.lock().unwrap();
            if a.slow == 0 { 0 } else { rand(a.slow) }
        };
        if us > a_while() {
            tokio::time::sleep(std::time::Duration::from_micros(us)).await;
        } else {
            tokio::task::yield_now().await;
        }
    }
}
fn a_while() -> u64 {
    300
}
fn rand(n: u64) -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static S: AtomicU64 = AtomicU64::new(0x9e37_79b9);
    let x = S.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    (x ^ (x >> 27)) % n
}

#[async_trait]
impl MemPoolAdapter for Mock {
    async fn pull_txs(&self, _: Context, _: Option<u64>, hashes: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        tokio::task::yield_now().await;
        let mut a = self.0.lock().unwrap();
        a.asked.push(hashes.clone());
        let mut all: Vec<SignedTransaction> = hashes.iter().filter_map(|h| a.network.get(h).cloned()).collect();
        match a.peer.unwrap_or(Peer::Honest) {
            Peer::Honest => {}
            Peer::Short => drop(all.pop()),
            Peer::Other => {
                let n = all.len();
                if let (true, Some(x)) = (n > 0, a.spare.pop()) {
                    all[n / 2] = x;
                }
            }
            Peer::Twice => {
                if all.len() > 1 {
                    all[0] = all[1].clone();
                }
            }
            Peer::Silent => return Err(Refused("no answer").into()),
        }
        Ok(all)
    }
    async fn broadcast_tx(&self, _: Context, origin: Option<usize>, tx: SignedTransaction) -> ProtocolResult<()> {
        self.0.lock().unwrap().sent.push((origin, tx.transaction.hash));
        Ok(())
    }
    async fn check_authorization(&self, _: Context, tx: &SignedTransaction) -> ProtocolResult<U64> {
        tokio::task::yield_now().await;
        if is_system(tx) {
            return Ok(U64::zero());
        }
        let now: U64 = self.0.lock().unwrap().nonces.get(&tx.sender).copied().unwrap_or(0).into();
        self.travel().await;
        let n = *tx.transaction.unsigned.nonce();
        if n < now {
            return Err(Refused("old nonce").into());
        }
        Ok(n - now)
    }
    async fn check_transaction(&self, _: Context, tx: &SignedTransaction) -> ProtocolResult<()> {
        if self.0.lock().unwrap().bad.contains(&tx.transaction.hash) {
            return Err(Refused("invalid").into());
        }
        Ok(())
    }
    async fn check_storage_exist(&self, _: Context, h: &Hash) -> ProtocolResult<()> {
        tokio::task::yield_now().await;
        let there = self.0.lock().unwrap().committed.contains_key(h);
        self.travel().await;
        if there {
            return Err(Refused("committed").into());
        }
        Ok(())
    }
    async fn get_latest_height(&self, _: Context) -> ProtocolResult<u64> {
        Ok(0)
    }
    async fn get_transactions_from_storage(&self, _: Context, _: Option<u64>, hs: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> {
        tokio::task::yield_now().await;
        let a = self.0.lock().unwrap();
        Ok(hs.iter().map(|h| a.committed.get(h).cloned()).collect())
    }
    fn clear_nonce_cache(&self) {}
    fn set_args(&self, _: Context, _: H256, _: u64, _: u64) {}
    fn report_good(&self, _: Context) {}
}

pub fn is_system(tx: &SignedTransaction) -> bool {
    match tx.transaction.unsigned.action() {
        TransactionAction::Call(a) => *a == METADATA_CONTRACT_ADDRESS || *a == NATIVE_TOKEN_CONTRACT_ADDRESS,
        TransactionAction::Create => false,
    }
}
pub fn sender(n: usize) -> H160 {
    H160::from_low_u64_be(0x5e4d_0000 + n as u64)
}
pub fn make(r: &mut Rng, from: H160, nonce: u64, price: u64) -> SignedTransaction {
    let u = match r.below(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: nonce.into(), gas_limit: 30_000u64.into(), gas_price: price.into(),
            action: TransactionAction::Call(H160(r.arr())), value: 0u64.into(), data: Bytes::new(),
        }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce: nonce.into(), gas_limit: 30_000u64.into(), gas_price: price.into(),
            action: TransactionAction::Create, value: 1u64.into(), data: Bytes::new(), access_list: vec![],
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: nonce.into(), gas_limit: 30_000u64.into(), gas_price: price.into(), max_priority_fee_per_gas: price.into(),
            action: TransactionAction::Call(H160(r.arr())), value: 0u64.into(), data: Bytes::new(), access_list: vec![],
        }),
    };
    wrap(r, from, u)
}
fn wrap(r: &mut Rng, from: H160, unsigned: UnsignedTransaction) -> SignedTransaction {
    SignedTransaction {
        transaction: UnverifiedTransaction { unsigned, signature: None, chain_id: Some(1), hash: H256(r.arr()) },
        sender: from,
        public: None,
    }
}
pub fn system(r: &mut Rng) -> SignedTransaction {
    let to = *r.pick(&[METADATA_CONTRACT_ADDRESS, NATIVE_TOKEN_CONTRACT_ADDRESS]);
    let data = Bytes::from(vec![r.below(4) as u8; 4]);
    let who = sender(100 + r.below(2));
    let n = r.below(3) as u64;
    wrap(r, who, UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: n.into(), gas_limit: 30_000u64.into(), gas_price: 1u64.into(),
        action: TransactionAction::Call(to), value: 0u64.into(), data,
    }))
}
pub fn nonce(t: &SignedTransaction) -> u64 {
    t.transaction.unsigned.nonce().low_u64()
}
pub fn price(t: &SignedTransaction) -> u64 {
    t.transaction.unsigned.gas_price().low_u64()
}
pub fn hash(t: &SignedTransaction) -> Hash {
    t.transaction.hash
}

/// What the pool should hold.
struct Model {
    held: HashMap<Hash, SignedTransaction>,
    /// outdone by a better price at the same nonce, or too late: kept until the next flush, never packaged
    lost: HashSet<Hash>,
    system: HashMap<Hash, SignedTransaction>,
    nonces: HashMap<H160, u64>,
    seen_at: BTreeMap<u64, HashSet<Hash>>,
    height: u64,
    gap: u64,
}
impl Model {
    fn add(&mut self, t: &SignedTransaction) {
        if is_system(t) {
            self.system.insert(hash(t), t.clone());
            return;
        }
        if self.held.contains_key(&hash(t)) {
            return;
        }
        if nonce(t) < self.nonces.get(&t.sender).copied().unwrap_or(0) {
            self.lost.insert(hash(t));
        }
        let rival = self.best(t.sender, nonce(t)).map(|x| (hash(x), price(x)));
        match rival {
            Some((_, p)) if p >= price(t) => drop(self.lost.insert(hash(t))),
            Some((h, _)) => drop(self.lost.insert(h)),
            None => {}
        }
        self.held.insert(hash(t), t.clone());
    }
    fn best(&self, s: H160, n: u64) -> Option<&SignedTransaction> {
        self.held.values().find(|x| x.sender == s && nonce(x) == n && !self.lost.contains(&hash(x)))
    }
    /// each sender's transactions that can go into a block, in order
    fn ready(&self) -> BTreeMap<H160, Vec<SignedTransaction>> {
        let mut out: BTreeMap<H160, Vec<SignedTransaction>> = BTreeMap::new();
        let senders: BTreeSet<H160> = self.held.values().map(|t| t.sender).collect();
        for s in senders {
            let mut n = self.nonces.get(&s).copied().unwrap_or(0);
            while let Some(t) = self.best(s, n) {
                out.entry(s).or_default().push(t.clone());
                if n == u64::MAX {
                    break;
                }
                n += 1;
            }
        }
        out
    }
    fn flush(&mut self, block: &[SignedTransaction], height: u64) {
        for t in block {
            if is_system(t) {
                let d = t.transaction.unsigned.data().to_vec();
                self.system.retain(|_, x| x.transaction.unsigned.data() != d);
                continue;
            }
            self.held.remove(&hash(t));
            self.held.retain(|_, x| x.sender != t.sender || nonce(x) > nonce(t));
            let n = self.nonces.entry(t.sender).or_insert(0);
            *n = (*n).max(nonce(t).saturating_add(1));
        }
        let nonces = self.nonces.clone();
        let late = height.checked_sub(self.gap).and_then(|h| self.seen_at.remove(&h)).unwrap_or_default();
        let lost = std::mem::take(&mut self.lost);
        self.held.retain(|h, t| nonce(t) >= nonces.get(&t.sender).copied().unwrap_or(0) && !lost.contains(h) && !late.contains(h));
        self.seen_at.entry(height).or_default().extend(self.held.keys().copied());
        self.height = height;
    }
    fn len(&self) -> usize {
        self.held.len() + self.system.len()
    }
}

type Bad = (&'static str, String);

pub fn p40(c: &mut Ctx) {
    c.stage("histories");
    for n in 0..c.scale(250, 20_000) {
        if !c.within(0.95) {
            break;
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut trail = vec![];
        match guard(|| rt.block_on(history(c, n, &mut trail))) {
            Ok(Ok(())) => {}
            Ok(Err((k, e))) => {
                let tail = trail.split_off(trail.len().saturating_sub(14));
                c.violate(k, e, json!({"history": n, "steps": tail}))
            }
            Err(p) => c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "steps": trail})),
        }
    }
}

async fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) -> Result<(), Bad> {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let mock = Mock::default();
    let gap = *r.pick(&[2u64, 3, 5, 20]);
    let cap = *r.pick(&[4usize, 12, 60, 1000]);
    let senders = 1 + r.below(5);
    let mut m = Model { held: HashMap::new(), lost: HashSet::new(), system: HashMap::new(), nonces: HashMap::new(), seen_at: BTreeMap::new(), height: 0, gap };
    for i in 0..senders {
        if r.bool() {
            let k = r.below(4) as u64;
            m.nonces.insert(sender(i), k);
            mock.0.lock().unwrap().nonces.insert(sender(i), k);
        }
    }
    let x = Context::new;
    // a restarted node begins with what its log has of the next block
    let mut initial = vec![];
    if n % 3 == 0 {
        for i in 0..senders {
            let from = m.nonces.get(&sender(i)).copied().unwrap_or(0);
            for k in 0..r.below(4) as u64 {
                let p = 1 + r.below(5) as u64;
                initial.push(make(r, sender(i), from + k, p));
            }
        }
        if r.bool() {
            initial.push(system(r));
        }
        if r.bool() {
            r.shuffle(&mut initial);
        }
        initial.truncate(cap);
        for t in &initial {
            m.add(t);
        }
        trail.push(format!("initial: {:?}", initial.iter().map(brief).collect::<Vec<_>>()));
    }
    let with_initial = !initial.is_empty();
    let p = MemPoolImpl::new(cap, gap, mock.clone(), initial).await;
    let mut height = 0u64;
    let check = |c: &mut Ctx, m: &Model, when: &str| -> Result<(), Bad> {
        c.event("oracle.judgements");
        if p.len() != m.len() {
            return Err(("length", format!("the pool counts {} transactions instead of {} {when}", p.len(), m.len())));
        }
        Ok(())
    };
    check(c, &m, if with_initial { "after its log was read" } else { "at the start" })?;
    for _ in 0..40 {
        let fresh = |r: &mut Rng, m: &Model| {
            let s = sender(r.below(senders));
            let at = m.nonces.get(&s).copied().unwrap_or(0);
            let k = match r.below(10) {
                0 => at.saturating_sub(1 + r.below(2) as u64),
                1 => at.saturating_add(30 + r.below(20) as u64),
                2 => u64::MAX - r.below(2) as u64,
                _ => at.saturating_add(r.below(5) as u64),
            };
            let p = 1 + r.below(6) as u64;
            make(r, s, k, p)
        };
        match r.below(13) {
            0..=4 => {
                let t = match r.below(8) {
                    0 => system(r),
                    1 if !m.held.is_empty() => {
                        let mut h: Vec<_> = m.held.keys().collect();
                        h.sort();
                        m.held[*r.pick(&h)].clone()
                    }
                    _ => fresh(r, &m),
                };
                let invalid = r.chance(1, 15);
                if invalid {
                    mock.0.lock().unwrap().bad.insert(hash(&t));
                }
                let known = m.held.contains_key(&hash(&t)) || m.system.contains_key(&hash(&t));
                let got = p.insert(x(), t.clone()).await;
                trail.push(format!("insert {} -> {:?}", brief(&t), got.as_ref().err().map(|e| e.to_string())));
                let room = if is_system(&t) { m.len() <= cap } else { m.len() < cap };
                let stale = !is_system(&t) && nonce(&t) < m.nonces.get(&t.sender).copied().unwrap_or(0);
                let want = known || (room && !stale && !invalid);
                if known && !room {
                    // answered either way
                } else if got.is_ok() != want {
                    return Err((if want { "refused" } else { "accepted" }, format!("inserting {} gives {got:?} with {} of {cap} places taken", brief(&t), m.len())));
                }
                if got.is_ok() && !known {
                    m.add(&t);
                    c.event("insertions");
                }
                mock.0.lock().unwrap().network.insert(hash(&t), t);
            }
            5 | 6 => {
                // a proposal of another node
                let mut txs = vec![];
                let mut ready: Vec<Vec<SignedTransaction>> = m.ready().into_values().collect();
                for _ in 0..r.below(6) {
                    match r.below(4) {
                        0 | 1 if !ready.is_empty() => {
                            let i = r.below(ready.len());
                            if !ready[i].is_empty() {
                                txs.push(ready[i].remove(0));
                            }
                        }
                        2 => txs.push(system(r)),
                        _ => txs.push(fresh(r, &m)),
                    }
                }
                let peer = if r.chance(2, 3) { Peer::Honest } else { *r.pick(&[Peer::Short, Peer::Other, Peer::Twice, Peer::Silent]) };
                let mut hs: Vec<Hash> = txs.iter().map(hash).collect();
                let dup = !hs.is_empty() && r.chance(1, 10);
                if dup {
                    let h = *r.pick(&hs);
                    hs.push(h);
                }
                let other = fresh(r, &m);
                {
                    let mut a = mock.0.lock().unwrap();
                    a.peer = Some(peer);
                    a.network.extend(txs.iter().map(|t| (hash(t), t.clone())));
                    a.spare = vec![other.clone()];
                    a.asked.clear();
                }
                let unknown: Vec<SignedTransaction> = txs.iter().filter(|t| !m.held.contains_key(&hash(t)) && !m.system.contains_key(&hash(t))).cloned().collect();
                let got = p.ensure_order_txs(x(), Some(height + 1), &hs).await;
                trail.push(format!("ensure {:?} from {peer:?} -> {:?}", txs.iter().map(brief).collect::<Vec<_>>(), got.as_ref().err().map(|e| e.to_string())));
                let stale = unknown.iter().any(|t| !is_system(t) && nonce(t) < m.nonces.get(&t.sender).copied().unwrap_or(0));
                let spoiled = !unknown.is_empty() && (peer != Peer::Honest && !(peer == Peer::Twice && unknown.len() < 2));
                let want = !dup && !stale && !spoiled;
                if got.is_ok() != want {
                    return Err((if want { "proposal/refused" } else { "proposal/accepted" }, format!("a proposal with {} unknown transactions of {} gives {got:?} (answer of the others: {peer:?})", unknown.len(), txs.len())));
                }
                let asked: Vec<Hash> = mock.0.lock().unwrap().asked.concat();
                let should: Vec<Hash> = if dup { vec![] } else { unknown.iter().map(hash).collect() };
                if asked != should {
                    return Err(("proposal/asked", format!("{} transactions were asked for, {} were missing", asked.len(), should.len())));
                }
                if got.is_ok() {
                    for t in &unknown {
                        m.add(t);
                    }
                    c.event("proposals");
                    // whoever has agreed to a proposal has its transactions, in its order
                    match p.get_full_txs(x(), None, &hs).await {
                        Ok(all) if all == txs => {}
                        other => return Err(("proposal/transactions", format!("of an accepted proposal {:?} are there", other.map(|x| x.len()).map_err(|e| e.to_string())))),
                    }
                    if r.chance(1, 2) && !txs.is_empty() {
                        height += 1;
                        commit(&p, &mock, &mut m, &txs, height).await?;
                        trail.push(format!("commit it at {height}"));
                        c.event("commits");
                    }
                }
                m_sync(&p, &mut m, &txs, &other).await;
            }
            7 | 8 => {
                let limit = *r.pick(&[0u64, 1, 2, 3, 5, 1000]);
                let got = p.package(x(), U256::from(30_000_000u64), limit).await.map_err(|e| ("package", e.to_string()))?;
                let list = judge(c, &m, &got, limit as usize)?;
                trail.push(format!("package {limit} -> {:?}", list.iter().map(brief).collect::<Vec<_>>()));
                if r.chance(1, 2) && !list.is_empty() {
                    height += 1;
                    commit(&p, &mock, &mut m, &list, height).await?;
                    trail.push(format!("commit it at {height}"));
                    c.event("commits");
                }
            }
            9 => {
                height += 1;
                commit(&p, &mock, &mut m, &[], height).await?;
                trail.push(format!("commit nothing at {height}"));
                c.event("commits");
            }
            10 => {
                // held, committed and unknown ones, mixed
                let mut all: Vec<SignedTransaction> = m.held.values().chain(m.system.values()).cloned().collect();
                all.extend(mock.0.lock().unwrap().committed.values().cloned());
                all.sort_by_key(hash);
                r.shuffle(&mut all);
                all.truncate(6);
                let mut hs: Vec<Hash> = all.iter().map(hash).collect();
                let strange = r.chance(1, 4);
                if strange {
                    let at = r.below(hs.len() + 1);
                    hs.insert(at, H256(r.arr()));
                }
                let got = p.get_full_txs(x(), None, &hs).await;
                c.event("oracle.judgements");
                match got {
                    Ok(_) if strange => return Err(("full/unknown", "a list with an unknown transaction is answered".into())),
                    Ok(x) if x == all => {}
                    Ok(x) => {
                        let same: HashSet<Hash> = x.iter().map(hash).collect();
                        let k = if same == hs.iter().copied().collect() { "full/order" } else { "full/contents" };
                        return Err((k, format!("{} transactions are not given back as asked for", hs.len())));
                    }
                    Err(_) if strange => {}
                    Err(e) => return Err(("full/missing", e.to_string())),
                }
            }
            11 => {
                for t in m.held.values().chain(m.system.values()) {
                    c.event("oracle.judgements");
                    if !p.contains(x(), &hash(t)).await || p.get_tx_from_mem(x(), &hash(t)).as_ref() != Some(t) {
                        return Err(("held", format!("{} is not in the pool", brief(t))));
                    }
                }
                let a = mock.0.lock().unwrap().committed.keys().copied().collect::<Vec<_>>();
                for h in a {
                    if p.contains(x(), &h).await || p.get_tx_from_mem(x(), &h).is_some() {
                        return Err(("committed", format!("{h:?} is still in the pool")));
                    }
                }
                for i in 0..senders {
                    let s = sender(i);
                    // settled ones only are counted, so package first
                    let _ = p.package(x(), U256::zero(), 0).await;
                    let want = m.held.values().filter(|t| t.sender == s && !m.lost.contains(&hash(t))).count();
                    let (got, _) = p.get_tx_count_by_address(x(), s).await.map_err(|e| ("count", e.to_string()))?;
                    if got != want {
                        return Err(("count", format!("{got} transactions of {s:?} are counted instead of {want}")));
                    }
                }
            }
            _ => {
                if r.chance(1, 12) {
                    tokio::time::sleep(std::time::Duration::from_millis(60)).await;
                    c.event("pauses");
                }
                tokio::task::yield_now().await;
            }
        }
        check(c, &m, &format!("after {}", trail.last().cloned().unwrap_or_default()))?;
        c.seen("pool", (m.held.len(), m.lost.len(), m.system.len(), m.ready().values().map(|v| v.len()).collect::<Vec<_>>(), height));
    }
    // once all is committed, the pool is as new
    for _ in 0..60 {
        let got = p.package(x(), U256::from(30_000_000u64), 1000).await.map_err(|e| ("package", e.to_string()))?;
        let list = judge(c, &m, &got, 1000)?;
        height += 1;
        commit(&p, &mock, &mut m, &list, height).await?;
        if m.len() == 0 {
            break;
        }
    }
    check(c, &m, "at the end")?;
    if m.len() == 0 {
        c.event("emptied");
        for i in 0..cap.min(12) {
            let s = sender(i % senders);
            let at = m.nonces.get(&s).copied().unwrap_or(0);
            if at > u64::MAX - 20 {
                continue;
            }
            let t = make(r, s, at + (i / senders) as u64, 1);
            p.insert(x(), t.clone()).await.map_err(|e| ("refused", format!("an empty pool refuses {}: {e}", brief(&t))))?;
            m.add(&t);
        }
        let got = p.package(x(), U256::from(30_000_000u64), 1000).await.map_err(|e| ("package", e.to_string()))?;
        judge(c, &m, &got, 1000)?;
    }
    Ok(())
}
/// After a proposal went wrong, whatever was put into the pool of it is there by right only if it was asked for.
async fn m_sync(p: &MemPoolImpl<Mock>, m: &mut Model, txs: &[SignedTransaction], other: &SignedTransaction) {
    for t in txs.iter().chain([other]) {
        let here = p.contains(Context::new(), &hash(t)).await;
        if here && !m.held.contains_key(&hash(t)) && !m.system.contains_key(&hash(t)) {
            m.add(t);
        }
    }
}
fn brief(t: &SignedTransaction) -> String {
    if is_system(t) {
        return format!("system#{} {:x}", t.transaction.unsigned.data()[0], hash(t));
    }
    let n = nonce(t);
    format!("{}:{}@{}", t.sender.0[19], if n > 1 << 60 { format!("max-{}", u64::MAX - n) } else { n.to_string() }, price(t))
}
async fn commit(p: &MemPoolImpl<Mock>, mock: &Mock, m: &mut Model, block: &[SignedTransaction], height: u64) -> Result<(), Bad> {
    {
        let mut a = mock.0.lock().unwrap();
        for t in block {
            a.committed.insert(hash(t), t.clone());
            if !is_system(t) {
                let n = a.nonces.entry(t.sender).or_insert(0);
                *n = (*n).max(nonce(t).saturating_add(1));
            }
        }
    }
    let hs: Vec<Hash> = block.iter().map(hash).collect();
    p.flush(Context::new(), &hs, height).await.map_err(|e| ("flush", e.to_string()))?;
    m.flush(block, height);
    Ok(())
}

/// What was packaged, judged by what the pool holds.
fn judge(c: &mut Ctx, m: &Model, got: &PackedTxHashes, limit: usize) -> Result<Vec<SignedTransaction>, Bad> {
    c.event("packages");
    c.event("oracle.judgements");
    let k = got.call_system_script_count as usize;
    if k > got.hashes.len() {
        return Err(("package/count", format!("{k} system transactions of {} in all", got.hashes.len())));
    }
    let (sys, rest) = got.hashes.split_at(k);
    if got.hashes.iter().collect::<HashSet<_>>().len() != got.hashes.len() {
        return Err(("package/twice", "a transaction is packaged twice".into()));
    }
    let mut list = vec![];
    let mut data = BTreeSet::new();
    for h in sys {
        let Some(t) = m.system.get(h) else { return Err(("package/strange", "a system transaction is packaged that is not in the pool".into())) };
        if !data.insert(t.transaction.unsigned.data().to_vec()) {
            return Err(("package/system-twice", "two system transactions that do the same are packaged".into()));
        }
        list.push(t.clone());
    }
    let want: BTreeSet<Vec<u8>> = m.system.values().map(|t| t.transaction.unsigned.data().to_vec()).collect();
    if data != want {
        return Err(("package/system", format!("{} of {} kinds of system transactions are packaged", data.len(), want.len())));
    }
    let mut ready = m.ready();
    let total: usize = ready.values().map(|v| v.len()).sum();
    if rest.len() > limit {
        return Err(("package/limit", format!("{} transactions are packaged, the limit is {limit}", rest.len())));
    }
    if rest.len() != total.min(limit) {
        return Err(("package/left-out", format!("{} transactions are packaged where {total} could be (limit {limit}); waiting: {:?}", rest.len(), ready.values().map(|v| v.iter().map(brief).collect::<Vec<_>>()).collect::<Vec<_>>())));
    }
    for h in rest {
        let Some(t) = m.held.get(h) else { return Err(("package/strange", format!("{h:?} is packaged and not in the pool"))) };
        let best = ready.values().filter_map(|v| v.first()).map(price).max().unwrap_or(0);
        let next = ready.get(&t.sender).and_then(|v| v.first().cloned());
        match next {
            Some(x) if hash(&x) == *h => {}
            x => {
                return Err(("package/order", format!("{} is packaged where {:?} is next of its sender", brief(t), x.as_ref().map(brief))));
            }
        }
        if price(t) < best {
            return Err(("package/price", format!("{} goes before one that offers {best}", brief(t))));
        }
        ready.get_mut(&t.sender).unwrap().remove(0);
        list.push(t.clone());
    }
    Ok(list)
}
