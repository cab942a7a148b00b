//! P81 and P82: the life of a node across stops, crashes and restarts, and the hardfork command.
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

use core_executor::system_contract::metadata::MetadataHandle;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use serde_json::{json, Value};
use vlib::{hex, Ctx, Rng};
use world::wait;

use crate::dir::{Dir, NoReply, Node};
use crate::genesis::{self, keys, read, Keys, Spec};

/// Judgements and observations of one history, made on a thread of its own.
#[derive(Default)]
pub struct Rec {
    events: BTreeMap<String, u64>,
    seen: Vec<(&'static str, String)>,
    bad: Vec<(String, String, Value)>,
    notes: Vec<String>,
    log: Vec<String>,
}
impl Rec {
    fn event(&mut self, n: &str) {
        self.add(n, 1);
    }
    fn add(&mut self, n: &str, k: u64) {
        *self.events.entry(n.into()).or_default() += k;
    }
    fn seen(&mut self, k: &'static str, v: impl std::fmt::Debug) {
        self.seen.push((k, format!("{v:?}")));
    }
    fn step(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }
    fn ensure(&mut self, ok: bool, key: &str, what: impl FnOnce() -> (String, Value)) -> bool {
        self.event("oracle.judgements");
        if !ok {
            let (w, mut d) = what();
            d["history"] = json!(self.log);
            self.bad.push((key.into(), w, d));
        }
        ok
    }
    pub fn into(self, c: &mut Ctx) {
        for (k, n) in self.events {
            c.add(&k, n);
        }
        for (k, v) in self.seen {
            c.seen(k, v);
        }
        for n in self.notes {
            c.note(n);
        }
        for (k, w, d) in self.bad {
            c.violate(k, w, d);
        }
    }
}

/// What has been seen of a chain: never to change again.
#[derive(Default)]
struct Seen {
    blocks: BTreeMap<u64, String>,
    top: u64,
    /// transactions with a receipt: hash -> (block number, block hash, status, gas used)
    receipts: BTreeMap<String, (String, String, String, String)>,
}

pub struct Life {
    d: Dir,
    spec: Spec,
    keys: Keys,
    senders: Vec<gen::Key>,
    to: Vec<H160>,
    nonces: Vec<u64>,
    sent: Vec<(String, usize, u64)>,
    ever: std::collections::BTreeSet<String>,
    seen: Seen,
    r: Rng,
    rec: Rec,
}

fn num(v: &Value) -> Option<u64> {
    u64::from_str_radix(v.as_str()?.strip_prefix("0x")?, 16).ok()
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Stop {
    Blocks(u64),
    Height(u64),
    Term,
    Int,
    Kill,
    /// killed at a write to the database
    At(u64),
}

impl Life {
    fn new(d: Dir, spec: Spec, keys: Keys, senders: Vec<gen::Key>, r: Rng) -> Life {
        let to = (0..3).map(|i| H160([0x40 + i; 20])).collect();
        Life { d, spec, keys, nonces: vec![0; senders.len()], senders, to, sent: vec![], ever: Default::default(), seen: Seen::default(), r, rec: Rec::default() }
    }

    fn send(&mut self, n: &mut Node) -> Result<(), NoReply> {
        let i = self.r.below(self.senders.len());
        let nonce = self.nonces[i];
        let u = UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: nonce.into(),
            max_priority_fee_per_gas: U64::from(0x539u64),
            gas_price: U64::from(0x539u64),
            gas_limit: U64::from(21_000u64),
            action: TransactionAction::Call(self.to[nonce as usize % self.to.len()]),
            value: U256::from(nonce + 1),
            data: Bytes::new(),
            access_list: vec![],
        });
        let (raw, hash, _) = self.senders[i].sign_raw(&u, Some(self.spec.chain_id));
        let want = format!("0x{}", hex(hash));
        // also one that is not acknowledged may have been taken
        self.ever.insert(want.clone());
        let v = n.rpc("eth_sendRawTransaction", json!([format!("0x{}", hex_all(&raw))]))?;
        if let Some(h) = v["result"].as_str() {
            self.rec.ensure(h == want, "sent-hash", || (format!("a transaction is acknowledged as {h}, not {want}"), json!({})));
            self.rec.event("observed.sent");
            self.sent.push((want, i, nonce));
            self.nonces[i] += 1;
        } else {
            self.rec.event("observed.not-sent");
            self.rec.seen("refusal", v["error"]["message"].as_str().map(|s| s.chars().filter(|c| !c.is_ascii_hexdigit()).take(60).collect::<String>()));
        }
        Ok(())
    }

    /// Looks at the chain through the running node.
    fn look(&mut self, n: &mut Node) -> Result<u64, NoReply> {
        let v = n.rpc("eth_blockNumber", json!([]))?;
        let Some(head) = num(&v["result"]) else { return Ok(self.seen.top) };
        let top = self.seen.top;
        self.rec.ensure(head >= top, "head-back", || (format!("the head went back from {top} to {head}"), json!({})));
        for b in [head, self.r.below(head as usize + 1) as u64] {
            let v = n.rpc("eth_getBlockByNumber", json!([format!("{b:#x}"), false]))?;
            let (Some(h), Some(p)) = (v["result"]["hash"].as_str(), v["result"]["parentHash"].as_str()) else { continue };
            self.note_block(b, h);
            if b > 0 {
                let p = p.to_owned();
                self.note_block(b - 1, &p);
            }
        }
        self.seen.top = self.seen.top.max(head);
        if !self.sent.is_empty() {
            let (h, ..) = self.r.pick(&self.sent).clone();
            let v = n.rpc("eth_getTransactionReceipt", json!([h]))?;
            let r = &v["result"];
            if r.is_object() {
                self.note_receipt(&h, r);
            }
            let was = self.seen.receipts.contains_key(&h);
            self.rec.ensure(r.is_object() || !was, "receipt-gone", || (format!("transaction {h} had a receipt and has none any more"), json!({ "reply": v })));
        }
        Ok(head)
    }
    fn note_receipt(&mut self, h: &str, r: &Value) {
        let s = |k: &str| r[k].as_str().unwrap_or_default().to_owned();
        let got = (s("blockNumber"), s("blockHash"), s("status"), s("gasUsed"));
        self.rec.event("observed.receipt");
        let was = self.seen.receipts.entry(h.into()).or_insert_with(|| got.clone()).clone();
        self.rec.ensure(was == got, "receipt-changed", || (format!("the receipt of {h} changed from {was:?} to {got:?}"), json!({})));
    }
    fn note_block(&mut self, n: u64, h: &str) {
        self.rec.event("observed.block");
        let was = self.seen.blocks.entry(n).or_insert_with(|| h.to_owned()).clone();
        self.rec.ensure(was == h, "block-changed", || (format!("block {n} was {was} and is {h}"), json!({})));
    }

    /// The stopped node's database: everything seen is in it, the chain is whole, and accounts agree with it.
    fn audit(&mut self) -> u64 {
        let spec = self.spec.clone();
        let Some(w) = read(&self.d, spec.chain_id) else {
            self.rec.ensure(false, "data-lost", || ("the stopped node's database has no latest block".into(), json!({})));
            return 0;
        };
        let head = w.head().clone();
        self.rec.event("observed.audit");
        let top = self.seen.top;
        self.rec.ensure(head.number >= top, "head-lost", || (format!("a node that served block {top} stopped with block {}", head.number), json!({})));
        let mut nonces = vec![0u64; self.senders.len()];
        let mut value: BTreeMap<H160, U256> = BTreeMap::new();
        let mut prev: Option<Header> = None;
        for n in 0..=head.number {
            let Some(b) = genesis::block(&w, n) else {
                self.rec.ensure(false, "block-missing", || (format!("block {n} of {} is missing", head.number), json!({})));
                return head.number;
            };
            let h = format!("{:?}", b.hash());
            self.note_block(n, &h);
            if let Some(p) = &prev {
                let parent = self.seen.blocks[&(n - 1)].clone();
                self.rec.ensure(format!("{:?}", b.header.prev_hash) == parent, "chain-broken", || (format!("block {n} has parent {:?}, block {} is {parent}", b.header.prev_hash, n - 1), json!({})));
                let follows = b.header.timestamp >= p.timestamp && b.header.proof.number == n - 1;
                self.rec.ensure(follows, "chain-broken", || (format!("block {n} is older than its parent, or its proof is not its parent's"), json!({ "block": format!("{b:?}") })));
                let own = self.keys.net.addr;
                self.rec.ensure(b.header.proposer == own, "proposer", || (format!("block {n} names another proposer"), json!({})));
            }
            for t in &b.tx_hashes {
                let name = format!("{t:?}");
                let st = std::sync::Arc::clone(&w.storage);
                let t = *t;
                let (tx, receipt) = wait(async move {
                    (st.get_transaction_by_hash(Context::new(), &t).await, st.get_receipt_by_hash(Context::new(), &t).await)
                });
                self.rec.event("observed.committed");
                let found = match (&tx, &receipt) {
                    (Ok(Some(x)), Ok(Some(r))) => {
                        let sender = self.senders.iter().position(|k| k.addr == x.sender);
                        let ok = r.tx_hash == t && r.block_number == n && sender.is_some();
                        if let (true, Some(i)) = (ok, sender) {
                            let nonce = x.transaction.unsigned.nonce().low_u64();
                            let next = nonces[i];
                            self.rec.ensure(nonce == next, "nonce-order", || (format!("block {n} takes sender {i}'s transaction {nonce}, {next} is next"), json!({})));
                            nonces[i] = nonce + 1;
                            if let Some(to) = x.transaction.unsigned.to() {
                                let e = value.entry(to).or_default();
                                *e += *x.transaction.unsigned.value();
                            }
                        }
                        ok
                    }
                    _ => false,
                };
                self.rec.ensure(found, "tx-missing", || (format!("transaction {name} of block {n} or its receipt is missing"), json!({ "tx": format!("{tx:?}"), "receipt": format!("{receipt:?}") })));
                let known = self.ever.contains(&name);
                self.rec.ensure(known || self.spec.accounts.is_empty(), "tx-unknown", || (format!("block {n} has transaction {name} nobody sent"), json!({})));
            }
            prev = Some(b.header);
        }
        self.rec.add("observed.audited-block", head.number);
        // what had a receipt is on the chain where the receipt said
        let missing: Vec<_> = self.seen.receipts.iter().filter(|(_, r)| num(&json!(r.0)).map_or(true, |n| self.seen.blocks.get(&n) != Some(&r.1))).map(|(h, _)| h.clone()).collect();
        self.rec.ensure(missing.is_empty(), "receipt-lost", || ("transactions had receipts in blocks that are not the chain's".into(), json!({ "transactions": missing })));
        // accounts
        for (i, k) in self.senders.iter().enumerate() {
            let a = w.account(&k.addr).map(|a| a.nonce).unwrap_or_default();
            self.rec.ensure(a == nonces[i].into(), "account-nonce", || (format!("sender {i} has nonce {a} after {} transactions on the chain", nonces[i]), json!({})));
        }
        for to in &self.to {
            let a = w.account(to).map(|a| a.balance).unwrap_or_default();
            let want = value.get(to).copied().unwrap_or_default();
            self.rec.ensure(a == want, "account-balance", || (format!("{to:?} has {a}, the chain's transactions gave it {want}"), json!({})));
        }
        // what was in the pool and is not on the chain is forgotten with the process
        for (i, n) in nonces.iter().enumerate() {
            self.nonces[i] = *n;
            self.sent.retain(|(_, s, k)| *s != i || k < n);
        }
        head.number
    }

    /// One start of the node, until `stop`. False when the history cannot go on.
    fn phase(&mut self, stop: Stop, from: u64, load: bool) -> bool {
        let mut args: Vec<String> = vec![];
        let target = match stop {
            Stop::Blocks(n) => {
                args.extend(["--mine-blocks".into(), n.to_string()]);
                Some(from + n)
            }
            Stop::Height(h) => {
                args.extend(["--mine-to-height".into(), h.to_string()]);
                Some(h)
            }
            _ => None,
        };
        let at = match stop {
            Stop::At(n) => n.to_string(),
            _ => String::new(),
        };
        let env: Vec<(&str, &str)> = Some(("ROCKS_KILL_AT", at.as_str())).filter(|_| !at.is_empty()).into_iter().collect();
        self.rec.step(format!("from block {from}: {stop:?}"));
        self.rec.seen("stop", stop);
        let mut n = self.d.run_with(&args.iter().map(String::as_str).collect::<Vec<_>>(), &env);
        let t = Instant::now();
        let until = match stop {
            Stop::Term | Stop::Int | Stop::Kill => Duration::from_millis(self.r.range(0, 1500)),
            _ => Duration::from_secs(3600),
        };
        if !matches!(stop, Stop::Kill) || self.r.bool() {
            n.up();
        }
        let mut progress = (Instant::now(), self.seen.top, 0u32);
        let mut ended = None;
        while t.elapsed() < until {
            if let Some(s) = n.ended() {
                ended = Some(s);
                break;
            }
            if load && self.r.bool() {
                if let Err(NoReply::Slow) = self.send(&mut n) {
                    break;
                }
            }
            match self.look(&mut n) {
                Ok(h) => {
                    progress.2 += 1;
                    if h != progress.1 {
                        progress = (Instant::now(), h, 0);
                    }
                }
                Err(NoReply::Slow) => {
                    self.rec.notes.push("a node did not answer within a minute".into());
                    return false;
                }
                Err(_) => {}
            }
            // a chain that stands still while the node answers hundreds of requests
            let still = progress.0.elapsed() > Duration::from_secs(60) && progress.2 > 300;
            if still {
                let tail = self.log_tail();
                let h = progress.1;
                self.rec.ensure(false, "stands-still", || (format!("the only validator stays at block {h} for a minute (its block interval is {} ms)", self.spec.consensus[7]), json!({ "log": tail })));
                return false;
            }
            std::thread::sleep(Duration::from_millis(self.r.range(1, 25)));
        }
        match stop {
            Stop::Term => n.signal(libc::SIGTERM),
            Stop::Int => n.signal(libc::SIGINT),
            Stop::Kill => n.signal(libc::SIGKILL),
            _ => {}
        }
        let early = ended.is_some();
        let Some((status, text)) = n.end(Duration::from_secs(120)) else {
            self.rec.notes.push(format!("a node did not end within two minutes of {stop:?}"));
            return false;
        };
        self.rec.event("observed.stop");
        let head = self.audit();
        let detail = |s: &Self| json!({ "status": format!("{status:?}"), "text": text.chars().take(1500).collect::<String>(), "log": s.log_tail() });
        match stop {
            // a stop while the node is still starting ends it by the signal itself
            Stop::Term | Stop::Int => {
                let ok = !early && (status.success() || std::os::unix::process::ExitStatusExt::signal(&status).is_some());
                let d = detail(self);
                self.rec.ensure(ok, "stop-status", || (format!("{stop:?}: the node ended {}with {status:?}", if early { "by itself " } else { "" }), d));
            }
            Stop::Kill => {
                let d = detail(self);
                self.rec.ensure(!early, "quits", || ("the node ended by itself".into(), d));
            }
            Stop::At(_) => {
                // the write at which it dies may never come: then it is stopped from outside
                let killed = std::os::unix::process::ExitStatusExt::signal(&status) == Some(9);
                let d = detail(self);
                self.rec.ensure(killed, "quits", || ("the node ended by itself".into(), d));
                self.rec.event("observed.crash-at-write");
            }
            _ => {
                let d = detail(self);
                let t = target.unwrap();
                self.rec.ensure(status.success() && head == t, "stop-height", || (format!("{stop:?} from block {from}: the node ended with {status:?} at block {head}"), d));
            }
        }
        // a panic before the stop ends the node, which is judged above; one while it stops is not its users' concern
        let _ = std::fs::remove_file(self.d.file("logs/axon.log"));
        true
    }
    fn log(&self) -> String {
        std::fs::read_to_string(self.d.file("logs/axon.log")).unwrap_or_default()
    }
    fn log_tail(&self) -> Vec<String> {
        let l = self.log();
        let mut v: Vec<_> = l.lines().rev().filter(|l| l.contains("\"target\":\"panic\"")).chain(l.lines().rev().take(40)).map(|l| l.chars().take(400).collect()).collect();
        v.reverse();
        v
    }
}

fn hex_all(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn history(dir: std::path::PathBuf, mut r: Rng, phases: u64, more: impl Fn() -> bool) -> Rec {
    let k = keys(r.below(1 << 20) as u64);
    let senders: Vec<_> = (0..2).map(|i| gen::key(90_000 + i)).collect();
    let mut s = Spec::single(&k, r.range(20, 120));
    s.accounts = senders.iter().map(|k| (k.addr, U256::from(10).pow(30.into()))).collect();
    // short epochs now and then
    if r.bool() {
        s.epoch_len = r.range(2, 12);
    }
    let d = Dir::new(dir);
    d.put("net.key", k.net.sk.to_bytes());
    d.put("bls.key", &k.bls);
    d.put("spec.toml", s.toml());
    let mut l = Life::new(d, s, k, senders, r);
    if !l.d.init().is_some_and(|r| r.ok()) {
        l.rec.notes.push("init failed".into());
        return l.rec;
    }
    let limit = if l.spec.epoch_len < 1000 { l.spec.epoch_len * 2 - 1 } else { u64::MAX };
    for i in 0..phases {
        let from = l.seen.top;
        if i > 2 && !more() {
            break;
        }
        let stop = match l.r.below(10) {
            0 | 1 => Stop::Blocks(l.r.range(1, 4)),
            2 => Stop::Height(from + l.r.range(1, 4)),
            3 | 4 => Stop::Term,
            5 => Stop::Int,
            6 | 7 => Stop::Kill,
            _ => Stop::At(l.r.range(0, 60)),
        };
        // the chain described ends with its second epoch: nobody appended another
        if limit != u64::MAX && from + 12 > limit {
            break;
        }
        let load = l.r.chance(3, 4);
        if !l.phase(stop, from, load) {
            return l.rec;
        }
        l.seen.top = l.seen.blocks.keys().last().copied().unwrap_or(0);
    }
    // in the end it still mines
    let from = l.seen.top;
    if limit == u64::MAX || from + 3 < limit {
        l.rec.event("observed.final");
        l.phase(Stop::Blocks(2), from, true);
    }
    let _ = std::fs::remove_dir_all(&l.d.path);
    l.rec
}

pub fn p81(c: &mut Ctx) {
    c.stage("lives");
    let mut round = 0;
    while round < c.scale(3, 60) && (round < 1 || c.within(0.6)) {
        round += 1;
        let jobs: Vec<_> = (0..4).map(|i| (c.scratch.join(format!("l{round}-{i}")), c.rng.fork())).collect();
        let phases = c.scale(6, 12);
        let t = Instant::now();
        let limit = Duration::from_secs(c.scale(14, 60));
        let recs: Vec<Rec> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs.into_iter().map(|(d, r)| s.spawn(move || history(d, r, phases, move || t.elapsed() < limit))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in recs {
            r.into(c);
        }
    }
}

pub fn p82(c: &mut Ctx) {
    c.stage("hardfork");
    let mut round = 0;
    while round < c.scale(4, 60) && (round < 1 || c.within(0.7)) {
        round += 1;
        let jobs: Vec<_> = (0..4).map(|i| (c.scratch.join(format!("f{round}-{i}")), c.rng.fork())).collect();
        let recs: Vec<Rec> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs.into_iter().map(|(d, r)| s.spawn(move || forks(d, r))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in recs {
            r.into(c);
        }
    }
}

/// The hardforks recorded on the chain, the blocks that carried a proposal, and the proposal waiting.
fn fork_state(d: &Dir, chain_id: u64) -> Option<(u64, Vec<(u64, H256)>, Vec<(u64, Option<(u64, H256)>)>, Option<(u64, H256)>)> {
    // the metadata database is a global of the process
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap();
    let w = read(d, chain_id)?;
    let head = w.head().number;
    let infos = vlib::fresh(|| {
        w.activate();
        MetadataHandle::new(w.metadata_root()).hardfork_infos().map(|h| h.inner.into_iter().map(|i| (i.block_number, i.flags)).collect())
    })
    .ok()?;
    let carried = (1..=head)
        .filter_map(|n| {
            let extra = genesis::block(&w, n)?.header.extra_data;
            let first = extra.first()?;
            let info = HardforkInfoInner::decode(&first.inner).ok().filter(|_| extra.len() == 1);
            Some((n, info.map(|i| (i.block_number, i.flags))))
        })
        .collect();
    let st = std::sync::Arc::clone(&w.storage);
    let waiting = wait(async move { st.hardfork_proposal(Context::new()).await }).ok()?.map(|i| (i.block_number, i.flags));
    Some((head, infos, carried, waiting))
}

fn forks(dir: std::path::PathBuf, mut r: Rng) -> Rec {
    let k = keys(r.below(1 << 20) as u64);
    let mut s = Spec::single(&k, r.range(20, 80));
    let active = r.chance(1, 4);
    s.hardforks = vec![if active { genesis::ANDROMEDA } else { "None" }];
    let d = Dir::new(dir);
    d.put("net.key", k.net.sk.to_bytes());
    d.put("bls.key", &k.bls);
    d.put("spec.toml", s.toml());
    let one = H256::from_low_u64_be(1u64.to_be());
    let mut l = Life::new(d, s, k, vec![gen::key(90_000)], r);
    if !l.d.init().is_some_and(|r| r.ok()) {
        return l.rec;
    }
    let mut recorded = vec![(0u64, if active { one } else { H256::zero() })];
    // the proposal waiting, and the block it was made at
    let mut waiting: Option<((u64, H256), u64)> = None;
    let mut head = 0;
    for _ in 0..l.r.range(2, 5) {
        // a proposal that another took the place of: the block under way may carry it
        let mut replaced = None;
        // a command while the node is stopped
        let at = match l.r.below(6) {
            0 => 0,
            1 => head,
            2 => l.r.range(0, head + 1),
            3 => head + 1,
            _ => head + l.r.range(2, 6),
        };
        let features: &[&str] = *l.r.pick(&[&["andromeda"][..], &["andromeda"], &["none"], &["none", "andromeda"], &[]]);
        let mut args = vec!["hardfork".to_owned(), "-c".into(), "config.toml".into()];
        let given = l.r.chance(9, 10);
        if given {
            args.extend(["--hardfork-start-number".into(), at.to_string()]);
            for f in features {
                args.extend(["--feature".into(), (*f).into()]);
            }
        }
        let before = fork_state(&l.d, l.spec.chain_id);
        let Some(done) = l.d.command_to_end(&args.iter().map(String::as_str).collect::<Vec<_>>()) else { break };
        let after = fork_state(&l.d, l.spec.chain_id);
        l.rec.step(format!("at block {head}: {} -> {:?}", args[3..].join(" "), done.code));
        l.rec.event("observed.command");
        l.rec.seen("command", (at > head, at.saturating_sub(head).min(3), features, given, recorded.len()));
        let (Some(before), Some(after)) = (before, after) else {
            l.rec.ensure(false, "hardfork-data", || ("the database cannot be read around the hardfork command".into(), done.brief()));
            break;
        };
        let flags = if features.contains(&"andromeda") { one } else { H256::zero() };
        let same = (before.0, &before.1, &before.2) == (after.0, &after.1, &after.2);
        l.rec.ensure(same, "hardfork-changes-chain", || (format!("the hardfork command changed the chain itself: {before:?} to {after:?}"), done.brief()));
        if !given {
            l.rec.ensure(done.ok() && after.3 == waiting.map(|w| w.0), "hardfork-none", || (format!("hardfork without arguments fails or changes the proposal to {:?}", after.3), done.brief()));
        } else if features.is_empty() {
            // the start number needs features: refused by the command line
            l.rec.ensure(done.refused() && after.3 == waiting.map(|w| w.0), "hardfork-usage", || ("a start number without a feature is not refused".into(), done.brief()));
        } else if at <= head {
            l.rec.ensure(done.refused() && after.3 == waiting.map(|w| w.0), "hardfork-past", || (format!("a hardfork at block {at} is accepted at block {head}, or changes the proposal to {:?}", after.3), done.brief()));
        } else if flags.is_zero() || recorded.last().is_some_and(|x| x.1 & flags == flags) {
            l.rec.ensure(done.ok() && after.3 == waiting.map(|w| w.0), "hardfork-noop", || (format!("a hardfork without effect fails or changes the proposal to {:?}", after.3), done.brief()));
        } else {
            l.rec.ensure(done.ok() && after.3 == Some((at, flags)), "hardfork-set", || (format!("after the command the proposal is {:?}, not block {at} with {flags:?}", after.3), done.brief()));
            replaced = waiting.map(|w| w.0);
            waiting = Some(((at, flags), head));
        }
        // the chain goes on, past the start or not, with restarts
        for _ in 0..l.r.range(1, 3) {
            let n = l.r.range(1, 5);
            if !l.phase(Stop::Blocks(n), head, false) {
                return l.rec;
            }
            let from = head;
            head += n;
            l.seen.top = head;
            let Some(now) = fork_state(&l.d, l.spec.chain_id) else { break };
            l.rec.event("observed.fork-state");
            for (n, what) in now.2.iter().filter(|x| x.0 > from) {
                l.rec.event("observed.carried");
                l.rec.seen("carried-at", (n - from, replaced.is_some()));
                let asked = what.is_some() && (*what == waiting.map(|w| w.0) || (*what == replaced && *n == from + 1));
                let ahead = what.is_some_and(|w| w.0 > *n);
                l.rec.ensure(asked && ahead, "hardfork-carried", || (format!("block {n} carries {what:?}, while {waiting:?} waits"), json!({ "replaced": format!("{replaced:?}") })));
                recorded.extend(*what);
                // what is recorded does not wait any more, with this start or another
                if waiting.is_some_and(|w| what.is_some_and(|x| x.1 & w.0 .1 == w.0 .1)) {
                    waiting = None;
                }
            }
            replaced = None;
            // a block proposed before the node stopped goes without; the next one carries the proposal,
            // which by then has to lie ahead of it
            if let Some(((at, _), since)) = waiting {
                if head >= since + 2 {
                    l.rec.event("observed.dropped");
                    l.rec.ensure(at <= since + 2, "hardfork-block", || (format!("neither block {} nor {} carries the proposal for block {at}", since + 1, since + 2), json!({ "carried": format!("{:?}", now.2) })));
                    waiting = None;
                }
            }
            l.rec.ensure(now.1 == recorded, "hardfork-record", || (format!("the chain records the hardforks {:?}, not {recorded:?}", now.1), json!({ "carried": format!("{:?}", now.2) })));
            let stays = now.3.is_some() && now.3 != waiting.map(|w| w.0);
            l.rec.ensure(!stays, "hardfork-stays", || (format!("{:?} waits, while {waiting:?} does by the commands given", now.3), json!({})));
            if now.3.is_none() {
                // passed by the block proposed when the node stopped
                if let Some(((at, _), since)) = waiting.take() {
                    l.rec.ensure(at <= since + 2, "hardfork-lost", || (format!("the proposal for block {at} is gone at block {head}, and not carried"), json!({})));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&l.d.path);
    l.rec
}
