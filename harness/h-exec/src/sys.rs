//! P25: the metadata contract.  P26: CKB headers and cells.
use crate::abi::{self, addr, h, u, A};
use crate::ledger::genesis;
use core_executor::system_contract::metadata::MetadataHandle;
use core_executor::system_contract::METADATA_CONTRACT_ADDRESS;
use protocol::types::*;
use std::collections::BTreeMap;
use vlib::{guard, json, Ctx, Rng};
use world::{rt, unsigned_from, validator, BlockSpec, World};

fn tx_to(w: &World, from: H160, to: H160, data: Vec<u8>) -> SignedTransaction {
    let u = UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: U64::zero(),
        gas_price: U64::zero(),
        gas_limit: U64::from(20_000_000u64),
        action: TransactionAction::Call(to),
        value: U256::zero(),
        data: Bytes::from(data),
    });
    unsigned_from(from, u, w.chain_id)
}
fn next_block(w: &World, proposer: H160, txs: Vec<SignedTransaction>) -> BlockSpec {
    BlockSpec { proposer, timestamp: w.head().timestamp + 3000, gas_limit: 30_000_000, base_fee: 1337, txs, validators: vec![], extra: vec![] }
}

// ---------------------------------------------------------------- metadata

#[derive(Clone, Debug, PartialEq)]
struct Epoch {
    start: u64,
    end: u64,
    vals: Vec<ValidatorExtend>,
    count: BTreeMap<H160, u64>,
}
#[derive(Clone)]
struct Meta {
    epochs: Vec<Epoch>,
    config: ConsensusConfig,
    info: Option<CkbRelatedInfo>,
    forks: Vec<(u64, H256)>,
}
const ANDROMEDA: u64 = 0b1;
fn flag(bits: u64) -> H256 {
    H256::from_low_u64_be(bits.to_be())
}
impl Meta {
    fn flags_at(&self, n: u64) -> H256 {
        self.forks.iter().filter(|f| f.0 <= n).last().map_or(H256::zero(), |f| f.1)
    }
    fn push_fork(&mut self, n: u64, f: H256) {
        let (ln, lf) = self.forks.last().copied().unwrap_or((0, H256::zero()));
        let f = f | lf;
        if f == lf || n < ln {
            return;
        }
        if n == ln {
            self.forks.last_mut().unwrap().1 = f;
        } else {
            self.forks.push((n, f));
        }
    }
    /// the configuration as the format in force at the time keeps it
    fn keep(&self, active: H256, mut c: ConsensusConfig) -> ConsensusConfig {
        if active & flag(ANDROMEDA) != flag(ANDROMEDA) {
            c.max_contract_limit = 0x6000;
        }
        c
    }
    fn epoch_of(&self, n: u64) -> Option<usize> {
        if n == 0 {
            return Some(0);
        }
        self.epochs.iter().position(|e| e.start <= n && n <= e.end)
    }
    fn end(&self) -> u64 {
        self.epochs.last().unwrap().end
    }
    fn append(&mut self, active: H256, m: &Metadata) -> bool {
        if m.epoch != self.epochs.len() as u64 || m.version.start != self.end() + 1 || m.version.end <= self.end() {
            return false;
        }
        self.epochs.push(Epoch {
            start: m.version.start,
            end: m.version.end,
            vals: m.verifier_list.clone(),
            count: m.verifier_list.iter().map(|v| (v.address, 0)).collect(),
        });
        self.config = self.keep(active, m.consensus_config.clone());
        true
    }
}
fn gen_config(r: &mut Rng) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: r.range(20_000_000, 40_000_000),
        interval: r.edge_u64(),
        propose_ratio: r.below(100) as u64,
        prevote_ratio: r.edge_u64(),
        precommit_ratio: r.below(100) as u64,
        brake_ratio: r.below(100) as u64,
        tx_num_limit: r.edge_u64(),
        max_tx_size: r.edge_u64(),
        max_contract_limit: *r.pick(&[0x6000, 0x100, 0x400, 0x8000, 0x20]),
    }
}
fn gen_vals(r: &mut Rng, people: &[H160]) -> Vec<ValidatorExtend> {
    (0..1 + r.below(4))
        .map(|_| {
            let mut v = validator(*r.pick(people), r.u64() as u32, r.u64() as u32);
            v.bls_pub_key = Hex::encode(r.arr::<48>());
            v.pub_key = Hex::encode(r.arr::<33>());
            v
        })
        .collect()
}
fn a_config(c: &ConsensusConfig) -> A {
    A::T(
        [
            c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size, c.gas_limit, c.interval,
            c.max_contract_limit,
        ]
        .iter()
        .map(|x| u(*x as u128))
        .collect(),
    )
}
const CONFIG_T: &str = "(uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64)";
fn a_metadata(m: &Metadata) -> Vec<u8> {
    let vals = m
        .verifier_list
        .iter()
        .map(|v| {
            A::T(vec![
                A::B(v.bls_pub_key.as_bytes().to_vec()),
                A::B(v.pub_key.as_bytes().to_vec()),
                addr(&v.address),
                u(v.propose_weight as u128),
                u(v.vote_weight as u128),
            ])
        })
        .collect();
    let counts = m.propose_counter.iter().map(|p| A::T(vec![addr(&p.address), u(p.count as u128)])).collect();
    abi::call(
        &format!("appendMetadata(((uint64,uint64),uint64,(bytes,bytes,address,uint32,uint32)[],(address,uint64)[],{CONFIG_T}))"),
        &[A::T(vec![
            A::T(vec![u(m.version.start as u128), u(m.version.end as u128)]),
            u(m.epoch as u128),
            A::L(vals),
            A::L(counts),
            a_config(&m.consensus_config),
        ])],
    )
}
enum Act {
    Append(Metadata),
    Config(ConsensusConfig),
    Info(CkbRelatedInfo),
    Junk,
}

pub fn p25(c: &mut Ctx) {
    c.stage("histories");
    for n in 0..c.scale(60, 5000) {
        if !c.within(0.8) {
            break;
        }
        metadata_history(c, n);
    }
    c.stage("segments");
    segments(c);
}

fn metadata_history(c: &mut Ctx, n: u64) {
    let mut r = c.rng.fork();
    let r = &mut r;
    let people: Vec<H160> = (1..8).map(|i| H160::repeat_byte(i)).collect();
    let mut g = genesis(&people, |_| U256::from(crate::ledger::E18), vec![], 5, 0);
    let e1 = r.range(1, 6);
    let e2 = e1 + r.range(1, 6);
    for (i, (s, e)) in [(1, e1), (e1 + 1, e2)].into_iter().enumerate() {
        g.metadata[i].version = MetadataVersion::new(s, e);
        g.metadata[i].verifier_list = gen_vals(r, &people);
        g.metadata[i].consensus_config = gen_config(r);
    }
    g.hardfork.flags = flag(if r.bool() { ANDROMEDA } else { 0 });
    let dir = c.scratch.join(format!("m{n}"));
    let (mut w, _) = match guard(|| World::genesis(&dir, 50, &g, vec![])) {
        Ok(x) => x,
        Err(p) => return c.violate("genesis/panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({})),
    };
    let spec = g.metadata[1].consensus_config.clone();
    let mut m = Meta { epochs: vec![], config: spec.clone(), info: None, forks: vec![(0, g.hardfork.flags)] };
    for x in &g.metadata {
        m.epochs.push(Epoch {
            start: x.version.start,
            end: x.version.end,
            vals: x.verifier_list.clone(),
            count: x.verifier_list.iter().map(|v| (v.address, 0)).collect(),
        });
    }
    // the genesis configuration, as the specification says it
    m.config = m.keep(m.flags_at(0), spec.clone());
    {
        let got = MetadataHandle::new(w.metadata_root()).get_consensus_config();
        let Ok(got) = got else { return c.violate("config", "the genesis has no consensus configuration", json!({})) };
        if got != m.config && got == m.keep(H256::zero(), spec) {
            c.ensure(false, "genesis-drops-contract-limit", || {
                ("the contract size limit given in the specification is dropped although its hardfork is active from the start".into(), json!({"specified": m.config.max_contract_limit, "stored": got.max_contract_limit}))
            });
            m.config = got;
        }
    }
    let mut old: Vec<(H256, Meta, u64)> = vec![];
    let blocks = 6 + r.below(14) as u64;
    for _ in 0..blocks {
        let number = w.head().number + 1;
        // the hardforks in force are those announced up to the end of the previous block
        let active = m.flags_at(number - 1);
        let Some(cur) = m.epoch_of(number) else { break };
        let vals: Vec<H160> = m.epochs[cur].vals.iter().map(|v| v.address).collect();
        let proposer = if r.chance(1, 6) { *r.pick(&people) } else { *r.pick(&vals) };
        let mut txs = vec![];
        let mut acts: Vec<(H160, Act)> = vec![];
        let must = m.end() < number + 2;
        for k in 0..r.below(4) + must as usize {
            // a guess at what the model will be by then: earlier ones may have failed
            let sender = if (must && k == 0) || r.chance(3, 4) { *r.pick(&vals) } else { *r.pick(&people) };
            let pending = acts.iter().filter(|a| matches!(a.1, Act::Append(_))).count() as u64;
            let act = match if must && k == 0 { 0 } else { r.below(6) } {
                0 | 1 => {
                    let guess = if pending > 0 && r.bool() { pending } else { 0 };
                    let mut end = m.end();
                    if guess > 0 {
                        if let Some((_, Act::Append(p))) = acts.iter().filter(|a| matches!(a.1, Act::Append(_))).last() {
                            end = p.version.end;
                        }
                    }
                    let mut x = Metadata {
                        version: MetadataVersion::new(end + 1, end + 1 + r.below(5) as u64),
                        epoch: m.epochs.len() as u64 + guess,
                        verifier_list: gen_vals(r, &people),
                        propose_counter: vec![ProposeCount::from((people[0], 77))],
                        consensus_config: gen_config(r),
                    };
                    if must && k == 0 {
                    } else {
                        match r.below(10) {
                            0 => x.epoch = r.below(20) as u64,
                            1 => x.version.start = r.range(0, end + 3),
                            2 => x.version.end = r.range(0, end + 1),
                            3 => x.version.start += 1,
                            _ => {}
                        }
                    }
                    Act::Append(x)
                }
                2 | 3 => Act::Config(gen_config(r)),
                4 => Act::Info(CkbRelatedInfo {
                    metadata_type_id: H256(r.arr()),
                    checkpoint_type_id: H256(r.arr()),
                    xudt_args: H256(r.arr()),
                    stake_smt_type_id: H256(r.arr()),
                    delegate_smt_type_id: H256(r.arr()),
                    reward_smt_type_id: H256(r.arr()),
                }),
                _ => Act::Junk,
            };
            let data = match &act {
                Act::Append(x) => a_metadata(x),
                Act::Config(x) => abi::call(&format!("updateConsensusConfig({CONFIG_T})"), &[a_config(x)]),
                Act::Info(i) => abi::call(
                    "setCkbRelatedInfo((bytes32,bytes32,bytes32,bytes32,bytes32,bytes32))",
                    &[A::T(
                        [i.metadata_type_id, i.checkpoint_type_id, i.xudt_args, i.stake_smt_type_id, i.delegate_smt_type_id, i.reward_smt_type_id]
                            .iter()
                            .map(h)
                            .collect(),
                    )],
                ),
                Act::Junk => match r.below(3) {
                    0 => r.edge_bytes(100),
                    1 => {
                        let d = abi::call(&format!("updateConsensusConfig({CONFIG_T})"), &[a_config(&gen_config(r))]);
                        d[..r.below(d.len())].to_vec()
                    }
                    _ => abi::call("appendMetadata()", &[]),
                },
            };
            txs.push(tx_to(&w, sender, METADATA_CONTRACT_ADDRESS, data));
            acts.push((sender, act));
        }
        let mut last_sender = acts.last().map(|a| a.0);
        // a contract as large as the limit, and one larger
        let limit = if active & flag(ANDROMEDA) == flag(ANDROMEDA) { Some(()) } else { None };
        let create = r.chance(1, 3).then(|| {
            // the limit as of the beginning of the block
            let l = if limit.is_some() { m.config.max_contract_limit } else { 0x6000 };
            let size = *r.pick(&[l, l + 1, l.saturating_sub(1), 0x6000, 0x6001, 1]);
            let code = [&[0x62][..], &(size as u32).to_be_bytes()[1..], &[0x60, 0, 0xf3]].concat(); // returns `size` zero bytes
            let sender = *r.pick(&people);
            last_sender = Some(sender);
            let u = UnsignedTransaction::Legacy(LegacyTransaction {
                nonce: U64::zero(),
                gas_price: U64::zero(),
                gas_limit: U64::from(25_000_000u64),
                action: TransactionAction::Create,
                value: U256::zero(),
                data: Bytes::from(code),
            });
            txs.push(unsigned_from(sender, u, w.chain_id));
            (size, l)
        });
        let mut b = next_block(&w, proposer, txs);
        let before = m.clone();
        if r.chance(1, 3) {
            let at = match r.below(3) { 0 => number, 1 => number + r.below(4) as u64, _ => number.saturating_sub(r.below(3) as u64) };
            let f = flag(1 << r.below(3));
            let raw = protocol::codec::ProtocolCodec::encode(&HardforkInfoInner { block_number: at, flags: f }).unwrap();
            let junk = r.chance(1, 5);
            b.extra = vec![ExtraData { inner: if junk { Bytes::from(r.bytes(9)) } else { raw } }];
            if !junk {
                c.event("hardfork announced");
                m.push_fork(at, f);
            }
        }
        let root_before = w.metadata_root();
        let resp = match guard(|| w.exec(&b)) {
            Ok(x) => x,
            Err(p) => {
                return c.violate("panic", format!("executing a block panicked: {} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"number": number}));
            }
        };
        c.event("blocks");
        for (i, (sender, act)) in acts.iter().enumerate() {
            let ok = resp.tx_resp[i].exit_reason.is_succeed();
            let allowed = vals.contains(sender);
            let (name, want) = match act {
                Act::Append(x) => ("append", allowed && m.append(active, x)),
                Act::Config(x) => ("config", allowed && {
                    m.config = m.keep(active, x.clone());
                    true
                }),
                Act::Info(x) => ("info", allowed && {
                    m.info = Some(x.clone());
                    true
                }),
                Act::Junk => ("junk", false),
            };
            c.event(&format!("{name}.{}", if want { "accepted" } else { "refused" }));
            c.ensure(ok == want, &format!("{name}/{}", if ok { "accepted" } else { "refused" }), || {
                (
                    format!("a metadata call that must {} was {}", if want { "succeed" } else { "be refused" }, if ok { "accepted" } else { "refused" }),
                    json!({"number": number, "validator": allowed, "epochs": before.epochs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>(),
                           "append": if let Act::Append(x) = act { json!([x.epoch, x.version.start, x.version.end]) } else { json!(null) }}),
                )
            });
            if ok != want {
                return;
            }
        }
        if let Some((size, l)) = create {
            let e = &resp.tx_resp.last().unwrap().exit_reason;
            // the limit is read before the first transaction of the block
            c.event(if size <= l { "contract.within" } else { "contract.beyond" });
            c.ensure(e.is_succeed() == (size <= l), "contract-limit", || {
                (format!("a contract of {size} bytes under a limit of {l} ended with {e:?}"), json!({"number": number, "andromeda": limit.is_some()}))
            });
        }
        // who proposed this block
        let e = &mut m.epochs[cur];
        let mut credited = e.count.clone();
        credited.entry(proposer).and_modify(|x| *x += 1);
        let _g = rt().enter();
        let handle = MetadataHandle::new(w.metadata_root());
        let got: BTreeMap<H160, u64> = match handle.get_metadata_by_epoch(cur as u64) {
            Ok(x) => x.propose_counter.iter().map(|p| (p.address, p.count)).collect(),
            Err(_) => Default::default(),
        };
        if got != credited {
            let mut wrong = e.count.clone();
            if let Some(s) = last_sender {
                wrong.entry(s).and_modify(|x| *x += 1);
            }
            let known = last_sender.is_some() && got == wrong;
            c.ensure(false, if known { "propose-count-credits-last-sender" } else { "propose-count" }, || {
                ("the proposal is not counted for the block's proposer".into(), json!({"number": number, "proposer": format!("{proposer:?}"), "counted": format!("{got:?}"), "want": format!("{credited:?}")}))
            });
            if !known {
                return;
            }
            credited = wrong;
        }
        m.epochs[cur].count = credited;
        compare(c, &w, &handle, &m, number, "now");
        old.push((root_before, before, number - 1));
        // earlier states still answer as they did
        if r.chance(1, 3) {
            let (root, mm, n) = r.pick(&old).clone();
            if n > 0 {
                c.event("old roots");
                compare(c, &w, &MetadataHandle::new(root), &mm, n, "old");
            }
        }
        if r.chance(1, 5) {
            c.event("restarts");
            w = w.reopen(1 + r.below(50));
            w.activate();
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    ckb_rocksdb::shim::destroy(&dir);
}

fn compare(c: &mut Ctx, w: &World, handle: &MetadataHandle, m: &Meta, number: u64, when: &str) {
    let _ = w;
    c.seen("metadata", format!("{:?}{:?}", m.epochs, m.config));
    let to = |i: usize| Metadata {
        version: MetadataVersion::new(m.epochs[i].start, m.epochs[i].end),
        epoch: i as u64,
        verifier_list: m.epochs[i].vals.clone(),
        propose_counter: m.epochs[i].count.iter().map(|(a, n)| ProposeCount::from((*a, *n))).collect(),
        consensus_config: m.config.clone(),
    };
    for i in 0..m.epochs.len() + 2 {
        let got = guard(|| handle.get_metadata_by_epoch(i as u64).ok());
        let want = (i < m.epochs.len()).then(|| to(i));
        c.ensure(matches!(&got, Ok(g) if *g == want), "by-epoch", || {
            (format!("epoch {i} ({when}) reads as {got:?}"), json!({"number": number, "want": format!("{want:?}")}))
        });
    }
    for n in 0..m.end() + 3 {
        let got = guard(|| handle.get_metadata_by_block_number(n).ok());
        let want = m.epoch_of(n).map(to);
        c.ensure(matches!(&got, Ok(g) if *g == want), "by-number", || {
            (format!("the metadata of block {n} ({when}) reads as {:?}", got.map(|g| g.map(|g| g.epoch))), json!({"head": number, "want": want.as_ref().map(|x| x.epoch), "epochs": m.epochs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>()}))
        });
        if n > 0 {
            let last = guard(|| handle.is_last_block_in_current_epoch(n).ok());
            let want = m.epochs.iter().any(|e| e.end == n);
            c.ensure(matches!(last, Ok(Some(l)) if l == want), "last-in-epoch", || {
                (format!("block {n} is said to be the last of its epoch: {last:?}"), json!({"epochs": m.epochs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>()}))
            });
            for p in 1..9 {
                let a = H160::repeat_byte(p);
                let want = m.epoch_of(n).map(|e| m.epochs[e].vals.iter().any(|v| v.address == a));
                let got = guard(|| handle.is_validator(n, a).ok());
                c.ensure(matches!(got, Ok(g) if g == want), "is-validator", || (format!("{a:?} at {n}: {got:?}"), json!({"want": want})));
            }
        }
    }
    let info = guard(|| handle.get_ckb_related_info().ok());
    c.ensure(matches!(&info, Ok(i) if *i == m.info), "ckb-info", || (format!("CKB information reads as {info:?}"), json!({"when": when})));
    let cfg = guard(|| handle.get_consensus_config().ok());
    c.ensure(matches!(&cfg, Ok(Some(x)) if *x == m.config), "config", || (format!("the configuration reads as {cfg:?}"), json!({"when": when, "want": format!("{:?}", m.config)})));
    let forks = guard(|| handle.hardfork_infos().ok().map(|i| i.inner.iter().map(|x| (x.block_number, x.flags)).collect::<Vec<_>>()));
    c.ensure(matches!(&forks, Ok(Some(f)) if *f == m.forks), "hardforks", || (format!("the announced hardforks read as {forks:?}"), json!({"when": when, "want": format!("{:?}", m.forks)})));
}

/// the epoch table by itself
fn segments(c: &mut Ctx) {
    use core_executor::system_contract::metadata::segment::EpochSegment;
    for _ in 0..c.scale(2000, 100_000) {
        let mut r = c.rng.fork();
        let mut s = EpochSegment::new();
        let mut ends = vec![0u64];
        for _ in 0..r.below(12) {
            let last = *ends.last().unwrap();
            let e = match r.below(6) {
                0 => last,
                1 => last.saturating_sub(r.below(9) as u64),
                2 => r.edge_u64(),
                _ => last.saturating_add(r.range(1, 50)),
            };
            let ok = s.append_endpoint(e).is_ok();
            c.ensure(ok == (e > last), "segment/append", || (format!("appending {e} after {last}: {ok}"), json!({})));
            if e > last {
                ends.push(e);
            }
        }
        c.event("segments");
        c.seen("segment", ends.clone());
        for k in 0..ends.len() {
            for d in [0u64, 1, 2] {
                for n in [ends[k].saturating_sub(d), ends[k].saturating_add(d)] {
                    let want = (1..ends.len()).find(|i| ends[i - 1] < n && n <= ends[*i]).map(|i| i as u64 - 1);
                    let got = s.get_epoch_number(n).ok();
                    c.ensure(got == want, "segment/lookup", || (format!("block {n} is in epoch {got:?}"), json!({"ends": ends, "want": want})));
                }
            }
        }
        c.ensure(s.last_block_number() == *ends.last().unwrap() && s.is_empty() == (ends.len() == 1) && s.get_latest_epoch_number() == ends.len().saturating_sub(2) as u64, "segment/last", || ("the last epoch is misreported".into(), json!({"ends": ends})));
        let raw = s.as_bytes();
        let back = guard(|| EpochSegment::from_raw(raw.clone()).ok());
        let small = ends.iter().all(|e| *e >> 56 == 0 || *e != ends[0]);
        c.ensure(!small || matches!(&back, Ok(Some(b)) if *b == s), "segment/round-trip", || ("an epoch table does not survive being stored".into(), json!({"ends": ends})));
        let mut bad = raw;
        match r.below(3) {
            0 => bad.truncate(bad.len() - 1 - r.below(7)),
            1 => bad.push(1),
            _ => bad[0] = 1 + r.below(255) as u8,
        }
        let got = guard(|| EpochSegment::from_raw(bad).is_err());
        c.ensure(matches!(got, Ok(true)), "segment/malformed", || ("a malformed epoch table is accepted".into(), json!({"ends": ends})));
    }
}
