//! P80: what `axon init` makes of a configuration and a chain specification, and when the commands refuse.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

use common_crypto::{BlsPrivateKey, PublicKey, ToBlsPublicKey};
use core_executor::system_contract::metadata::MetadataHandle;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use serde_json::json;
use vlib::oracle::keccak256;
use vlib::{Ctx, Rng};
use world::{wait, World};

use crate::dir::Dir;

pub const ANDROMEDA: &str = "Andromeda";

#[derive(Clone)]
pub struct Keys {
    pub net: gen::Key,
    pub bls: Vec<u8>,
}
pub fn keys(seed: u64) -> Keys {
    let mut bls = keccak256(&[&b"bls"[..], &seed.to_be_bytes()].concat());
    bls[0] &= 0x3f;
    Keys { net: gen::key(seed), bls: bls.to_vec() }
}
impl Keys {
    pub fn pub_key(&self) -> Vec<u8> {
        self.net.sk.verifying_key().to_encoded_point(true).as_bytes().to_vec()
    }
    pub fn bls_pub(&self) -> Vec<u8> {
        BlsPrivateKey::try_from(self.bls.as_ref()).unwrap().pub_key(&String::new()).to_bytes().to_vec()
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub timestamp: u64,
    pub base_fee: u64,
    pub chain_id: u64,
    pub hardforks: Vec<&'static str>,
    pub accounts: Vec<(H160, U256)>,
    pub epoch_len: u64,
    /// propose, prevote, precommit, brake, tx_num_limit, max_tx_size, gas_limit, interval
    pub consensus: [u64; 8],
    pub max_contract_limit: Option<u64>,
    /// network key, bls key, propose weight, vote weight
    pub validators: Vec<(Vec<u8>, Vec<u8>, u32, u32)>,
}

impl Spec {
    pub fn single(k: &Keys, interval: u64) -> Spec {
        Spec {
            timestamp: 1_679_656_015,
            base_fee: 0x539,
            chain_id: 0x41786f6e,
            hardforks: vec!["None"],
            accounts: vec![],
            epoch_len: 100_000_000,
            consensus: [15, 10, 10, 10, 20000, 409_600_000, 4_294_967_295_000, interval],
            max_contract_limit: None,
            validators: vec![(k.pub_key(), k.bls_pub(), 1, 1)],
        }
    }
    pub fn random(r: &mut Rng) -> Spec {
        let k = keys(r.below(1 << 20) as u64);
        let mut s = Spec::single(&k, r.range(1, 5000));
        s.timestamp = *r.pick(&[0, 1, 1_679_656_015, u32::MAX as u64, i64::MAX as u64]);
        s.base_fee = *r.pick(&[0, 1, 0x539, u32::MAX as u64, i64::MAX as u64]);
        s.chain_id = *r.pick(&[0, 1, 0x41786f6e, 2022, u32::MAX as u64, 1 << 40]);
        s.hardforks = r.pick(&[vec![], vec!["None"], vec![ANDROMEDA], vec!["None", ANDROMEDA], vec![ANDROMEDA, ANDROMEDA]]).clone();
        for _ in 0..r.below(12) {
            let a = if r.chance(1, 6) && !s.accounts.is_empty() { r.pick(&s.accounts).0 } else { H160(r.arr()) };
            let b = match r.below(6) {
                0 => U256::zero(),
                1 => U256::one(),
                2 => U256::MAX,
                _ => {
                    let n = 1 + r.below(32);
                    U256::from_big_endian(&r.bytes(n))
                }
            };
            s.accounts.push((a, b));
        }
        s.epoch_len = *r.pick(&[1, 2, 10, 100, 100_000_000]);
        for (i, c) in s.consensus.iter_mut().enumerate() {
            if r.bool() {
                *c = if i < 4 { r.range(1, 30) } else { r.range(1, 1 << 40) };
            }
        }
        s.max_contract_limit = r.bool().then(|| r.range(1, 1 << 20));
        for _ in 0..r.below(4) {
            let k = keys(r.below(1 << 20) as u64);
            s.validators.push((k.pub_key(), k.bls_pub(), r.range(0, 9) as u32, r.range(1, 9) as u32));
        }
        s
    }
    pub fn toml(&self) -> String {
        use std::fmt::Write;
        let mut t = String::new();
        let _ = writeln!(
            t,
            "[genesis]\ntimestamp = {}\nbase_fee_per_gas = \"{:#x}\"\nchain_id = {}\nhardforks = {:?}",
            self.timestamp, self.base_fee, self.chain_id, self.hardforks
        );
        if self.accounts.is_empty() {
            t.insert_str(0, "accounts = []\n");
        }
        for (a, b) in &self.accounts {
            let a = crate::keys::checksum(a.as_bytes());
            let _ = writeln!(t, "[[accounts]]\naddress = \"{a}\"\nbalance = \"{b:x}\"");
        }
        let c = &self.consensus;
        let _ = writeln!(
            t,
            "[params]\nepoch = 0\n[params.version]\nstart = 1\nend = {}\n[params.consensus_config]\npropose_ratio = {}\nprevote_ratio = {}\nprecommit_ratio = {}\nbrake_ratio = {}\ntx_num_limit = {}\nmax_tx_size = {}\ngas_limit = {}\ninterval = {}",
            self.epoch_len, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]
        );
        if let Some(m) = self.max_contract_limit {
            let _ = writeln!(t, "max_contract_limit = {m}");
        }
        for (p, b, pw, vw) in &self.validators {
            let _ = writeln!(
                t,
                "[[params.verifier_list]]\nbls_pub_key = \"0x{}\"\npub_key = \"0x{}\"\npropose_weight = {pw}\nvote_weight = {vw}",
                vlib::hex(b),
                vlib::hex(p)
            );
        }
        t
    }
    /// Hardfork flags as written into the chain: the first feature is the lowest bit of the first of the last eight
    /// bytes; no feature named means all of them.
    pub fn flags(&self) -> H256 {
        let on = self.hardforks.is_empty() || self.hardforks.contains(&ANDROMEDA);
        H256::from_low_u64_be(if on { 1u64.to_be() } else { 0 })
    }
}

pub fn node_dir(c: &Ctx, name: &str, k: &Keys, s: &Spec) -> Dir {
    let d = Dir::new(c.scratch.join(name));
    d.put("net.key", k.net.sk.to_bytes());
    d.put("bls.key", &k.bls);
    d.put("spec.toml", s.toml());
    d
}

/// The database a node left behind, as this process reads it.
pub fn read(d: &Dir, chain_id: u64) -> Option<World> {
    ckb_rocksdb::shim::destroy(d.db());
    if !d.db().join("journal").exists() {
        return None;
    }
    let mut w = World::open(&d.db(), 50, chain_id);
    let st = Arc::clone(&w.storage);
    let head = wait(async move { st.get_latest_block(Context::new()).await }).ok()?;
    w.headers = vec![head.header];
    Some(w)
}
pub fn block(w: &World, n: u64) -> Option<Block> {
    let st = Arc::clone(&w.storage);
    wait(async move { st.get_block(Context::new(), n).await }).ok().flatten()
}

/// The addresses whose accounts the chain itself creates.
fn is_system(k: &[u8]) -> bool {
    (0..16u8).any(|i| {
        let mut a = [0xff; 20];
        a[19] = i;
        keccak256(&a) == k
    })
}

fn judge_genesis(c: &mut Ctx, d: &Dir, s: &Spec, tag: &str) -> Option<H256> {
    let Some(w) = read(d, s.chain_id) else {
        c.ensure(false, "genesis-missing", || ("after a successful init the database has no latest block".into(), json!({ "spec": s.toml() })));
        return None;
    };
    let detail = |what: String| (format!("{tag}: {what}"), json!({ "spec": s.toml() }));
    let h = w.head().clone();
    c.event("observed.genesis");
    c.ensure(h.number == 0, "genesis-number", || detail(format!("latest block is {}", h.number)));
    let expect = (s.timestamp, U64::from(s.base_fee), s.chain_id, H256::zero(), H160::zero(), U64::zero(), 0usize);
    let got = (h.timestamp, h.base_fee_per_gas, h.chain_id, h.prev_hash, h.proposer, h.gas_used, block(&w, 0).map_or(9, |b| b.tx_hashes.len()));
    c.ensure(got == expect, "genesis-header", || detail(format!("genesis has {got:?}, the specification says {expect:?}")));

    // accounts: exactly those of the specification (the last entry counts) besides the chain's own
    let want: BTreeMap<Vec<u8>, U256> = s.accounts.iter().map(|(a, b)| (keccak256(a.as_bytes()).to_vec(), *b)).collect();
    let leaves = world::leaves(&w.trie, h.state_root).unwrap_or_default();
    let mut got = BTreeMap::new();
    for (k, v) in leaves {
        if is_system(&k) {
            c.event("observed.system-account");
            continue;
        }
        match Account::decode(&v) {
            Ok(a) => {
                let plain = a.nonce.is_zero() && a.storage_root == RLP_NULL && a.code_hash == NIL_DATA;
                c.ensure(plain, "genesis-account", || detail(format!("account {} is {a:?}", vlib::hex(&k))));
                got.insert(k, a.balance);
            }
            Err(e) => {
                c.ensure(false, "genesis-account", || detail(format!("account {} does not decode: {e}", vlib::hex(&k))));
            }
        }
    }
    c.add("observed.account", got.len() as u64);
    c.ensure(got == want, "genesis-accounts", || {
        let show = |m: &BTreeMap<Vec<u8>, U256>| m.iter().map(|(k, v)| format!("{}={v:#x}", vlib::hex(k))).collect::<Vec<_>>();
        (format!("{tag}: the accounts at genesis are not those of the specification"), json!({ "got": show(&got), "want": show(&want), "spec": s.toml() }))
    });

    // metadata: the epoch described, and the next one with the same length and content
    let meta = vlib::fresh(|| {
        w.activate();
        let m = MetadataHandle::new(w.metadata_root());
        let by = |n| m.get_metadata_by_block_number(n).map_err(|e| e.to_string());
        (
            by(1),
            by(s.epoch_len),
            by(s.epoch_len + 1),
            m.get_metadata_by_epoch(2).is_ok(),
            m.hardfork_infos().map_err(|e| e.to_string()),
        )
    });
    for (i, (m, epoch)) in [(&meta.0, 0), (&meta.1, 0), (&meta.2, 1)].into_iter().enumerate() {
        match m {
            Err(e) => {
                c.ensure(false, "genesis-metadata", || detail(format!("no metadata ({i}): {e}")));
            }
            Ok(m) => {
                let start = 1 + epoch * s.epoch_len;
                let cc = &m.consensus_config;
                let got = [cc.propose_ratio, cc.prevote_ratio, cc.precommit_ratio, cc.brake_ratio, cc.tx_num_limit, cc.max_tx_size, cc.gas_limit, cc.interval];
                let vs: Vec<_> = m.verifier_list.iter().map(|v| (v.pub_key.as_bytes().to_vec(), v.bls_pub_key.as_bytes().to_vec(), v.propose_weight, v.vote_weight)).collect();
                let range = (m.epoch, m.version.start, m.version.end);
                let want_range = (epoch, start, start + s.epoch_len - 1);
                c.ensure(range == want_range, "genesis-epochs", || detail(format!("epoch, first and last block are {range:?}, not {want_range:?}")));
                c.ensure(got == s.consensus, "genesis-consensus", || detail(format!("epoch {epoch} has {got:?}")));
                // 24576 bytes is the code size limit of EIP-170; another takes Andromeda
                let (limit, stored) = (s.max_contract_limit.filter(|_| !s.flags().is_zero()).unwrap_or(0x6000), cc.max_contract_limit);
                let key = if stored == 0x6000 { "code-limit-dropped" } else { "genesis-code-limit" };
                c.ensure(stored == limit, key, || detail(format!("epoch {epoch} has the code size limit {stored} and not {limit}, as specified with Andromeda active since the genesis")));
                c.ensure(vs == s.validators, "genesis-validators", || detail(format!("epoch {epoch} has other validators than the specification: {m:?}")));
                for v in &m.verifier_list {
                    let p = k_point(v.pub_key.as_bytes().as_ref());
                    c.ensure(p.as_deref() == Some(v.address.as_bytes()), "genesis-validator-address", || detail(format!("validator {v:?} has another key's address")));
                }
            }
        }
    }
    c.ensure(!meta.3, "genesis-epochs", || detail("there is a third epoch".into()));
    let want_fork = vec![(0u64, s.flags())];
    let got_fork = meta.4.map(|h| h.inner.into_iter().map(|i| (i.block_number, i.flags)).collect::<Vec<_>>());
    c.ensure(got_fork.as_ref() == Ok(&want_fork), "genesis-hardfork", || detail(format!("hardforks are {got_fork:?}, not {want_fork:?}")));
    Some(block(&w, 0)?.hash())
}

/// Address of a compressed public key, without the repository's code.
pub fn k_point(compressed: &[u8]) -> Option<Vec<u8>> {
    let p = gen::k256_point(compressed)?;
    Some(keccak256(&p)[12..].to_vec())
}

/// One change to a specification that makes another chain.
fn vary(r: &mut Rng, s: &Spec) -> Option<(Spec, &'static str)> {
    let mut t = s.clone();
    let what = match r.below(10) {
        0 => {
            t.timestamp ^= 1;
            "timestamp"
        }
        1 => {
            t.base_fee ^= 1;
            "base fee"
        }
        2 => {
            t.chain_id ^= 1;
            "chain id"
        }
        3 if !t.accounts.is_empty() => {
            let a = t.accounts.last_mut().unwrap();
            a.1 ^= U256::one() << r.below(256);
            "a balance"
        }
        4 => {
            t.accounts.push((H160(r.arr()), U256::one()));
            "an account"
        }
        5 => {
            t.consensus[r.below(8)] += 1;
            "a consensus parameter"
        }
        6 => {
            t.validators[0].3 += 1;
            "a vote weight"
        }
        7 => {
            t.epoch_len += 1;
            "the epoch's length"
        }
        8 => {
            t.hardforks = if t.flags().is_zero() { vec![ANDROMEDA] } else { vec!["None"] };
            "hardforks"
        }
        9 => {
            if t.flags().is_zero() {
                return None;
            }
            t.max_contract_limit = Some(t.max_contract_limit.unwrap_or(0x6000) + 1);
            "the code size limit"
        }
        _ => return None,
    };
    Some((t, what))
}

pub fn p80(c: &mut Ctx) {
    c.stage("genesis");
    let mut i = 0;
    while i < c.scale(40, 600) && (i < 3 || c.within(0.4)) {
        i += 1;
        let s = Spec::random(&mut c.rng);
        let k = keys(i);
        let d = node_dir(c, &format!("g{i}"), &k, &s);
        let Some(r) = d.init() else {
            c.note("an init did not end within two minutes");
            continue;
        };
        c.event("observed.init");
        if !c.ensure(r.ok(), "init-fails", || ("init refuses a valid specification".into(), json!({ "spec": s.toml(), "run": r.brief() }))) {
            continue;
        }
        let Some(hash) = judge_genesis(c, &d, &s, "init") else { continue };
        c.seen("genesis", hash);

        // another node's keys, directory, ports and settings make the same chain
        let e = node_dir(c, &format!("h{i}"), &keys(1000 + i), &s);
        e.put("config.toml", crate::dir::toml_config(e.file("data").to_str().unwrap(), e.file("l").to_str().unwrap(), "/ip4/127.0.0.1/tcp/19999").replace("triedb_cache_size = 200", "triedb_cache_size = 7"));
        if let Some(r) = e.init() {
            let h = read(&e, s.chain_id).and_then(|w| block(&w, 0)).map(|b| b.hash());
            c.ensure(r.ok() && h == Some(hash), "genesis-differs", || (format!("two nodes make different chains of one specification: {h:?} and {hash:?}"), json!({ "spec": s.toml(), "run": r.brief() })));
        }
        // another specification makes another chain
        if let Some((t, what)) = vary(&mut c.rng, &s) {
            let f = node_dir(c, &format!("v{i}"), &k, &t);
            if let Some(r) = f.init() {
                if c.ensure(r.ok(), "init-fails", || ("init refuses a valid specification".into(), json!({ "spec": t.toml(), "run": r.brief() }))) {
                    let h = read(&f, t.chain_id).and_then(|w| block(&w, 0)).map(|b| b.hash());
                    c.seen("varied", what);
                    c.ensure(h != Some(hash), if what.contains("code size") { "code-limit-dropped" } else { "genesis-same" }, || (format!("specifications that differ in {what} make one chain"), json!({ "a": s.toml(), "b": t.toml() })));
                }
            }
        }
        // a second init is refused and changes nothing
        if i % 2 == 0 {
            d.put("spec.toml", Spec::random(&mut c.rng).toml());
        }
        let before = d.image();
        if let Some(r) = d.init() {
            let after = d.image();
            c.event("observed.second-init");
            c.ensure(r.refused(), "second-init", || ("a second init is not refused".into(), r.brief()));
            c.ensure(before == after, "second-init-writes", || ("a refused second init changed the data".into(), json!({ "files": changed(&before, &after) })));
        }
        let _ = std::fs::remove_dir_all(&d.path);
        let _ = std::fs::remove_dir_all(&e.path);
    }

    c.stage("refusals");
    let k = keys(5);
    let good = Spec { accounts: vec![(k.net.addr, U256::one())], ..Spec::single(&k, 100) };
    let mut i = 0;
    while i < c.scale(150, 2500) && (i < 8 || c.within(0.7)) {
        i += 1;
        let d = node_dir(c, &format!("r{i}"), &k, &good);
        let what = spoil(&mut c.rng, &d, &good);
        let Some(r) = d.init() else { continue };
        c.event("observed.spoilt-init");
        let made = d.db().exists();
        let Some(what) = what else {
            // harmless or unclear: whatever happens, it is decided before anything is created
            c.ensure(r.ok() == made, "init-half", || ("init created a database and failed, or succeeded without one".into(), json!({ "spec": std::fs::read_to_string(d.file("spec.toml")).ok(), "config": std::fs::read_to_string(d.file("config.toml")).ok(), "run": r.brief() })));
            c.event(if made { "observed.accepted" } else { "observed.refused" });
            let _ = std::fs::remove_dir_all(&d.path);
            continue;
        };
        c.seen("refused", what);
        c.ensure(!r.ok() && !made, "init-accepts", || (format!("init with {what} is not refused, or creates a database all the same"), json!({ "spec": std::fs::read_to_string(d.file("spec.toml")).ok(), "run": r.brief() })));
        let _ = std::fs::remove_dir_all(&d.path);
    }

    c.stage("order");
    for i in 0..c.scale(2, 12) {
        // without an init nothing runs, and nothing is created that would stop a later init
        let d = node_dir(c, &format!("o{i}"), &k, &good);
        for args in [&["run", "-c", "config.toml"][..], &["hardfork", "-c", "config.toml", "--hardfork-start-number", "5", "--feature", "andromeda"]] {
            if let Some(r) = d.command_to_end(args) {
                c.event("observed.no-init");
                c.ensure(r.refused() && !d.db().exists(), "no-init", || (format!("{args:?} before init is not refused"), r.brief()));
            }
        }
        if let Some(r) = d.init() {
            c.ensure(r.ok(), "init-fails", || ("init fails after a refused run".into(), r.brief()));
            judge_genesis(c, &d, &good, "init after a refused run");
        }
    }

    // an init that is killed leaves either nothing that runs or the whole genesis
    c.stage("killed");
    let want = {
        let d = node_dir(c, "k-ref", &k, &good);
        d.init();
        read(&d, good.chain_id).and_then(|w| block(&w, 0)).map(|b| b.hash())
    };
    let writes = std::fs::read_dir(&c.scratch).map(|_| 40).unwrap_or(40);
    for i in 0..c.scale(16, 120) {
        if !c.within(0.9) && i > 3 {
            break;
        }
        let d = node_dir(c, &format!("k{i}"), &k, &good);
        if i % 4 == 3 {
            let us = c.rng.below(60_000) as u64;
            d.command_killed(&["init", "-c", "config.toml", "-s", "spec.toml"], Duration::from_micros(us));
        } else {
            let n = if i < 6 { i } else { c.rng.below(writes) as u64 };
            d.command_with(&["init", "-c", "config.toml", "-s", "spec.toml"], &[("ROCKS_KILL_AT", &n.to_string())]);
        }
        c.event("observed.killed-init");
        let left = read(&d, good.chain_id).is_some();
        c.event(if left { "observed.killed-init-complete" } else { "observed.killed-init-partial" });
        // the node either refuses to run or runs the whole chain
        let mut n = d.run(&["--mine-blocks", "1"]);
        let up = n.up();
        let got = up.then(|| n.rpc("eth_getBlockByNumber", json!(["0x0", false])).ok()).flatten().map(|v| v["result"]["hash"].clone());
        n.signal(libc::SIGTERM);
        let end = n.end(Duration::from_secs(60));
        if up {
            if let Some(got) = got {
                let want = want.map(|h| json!(format!("{h:?}")));
                c.ensure(Some(&got) == want.as_ref(), "killed-init-chain", || (format!("after a killed init the node runs another chain: {got} instead of {want:?}"), json!({})));
            }
            if let Some(w) = read(&d, good.chain_id) {
                let root = block(&w, 0).map(|b| b.header.state_root).unwrap_or_default();
                c.ensure(world::leaves(&w.trie, root).is_some(), "killed-init-state", || ("after a killed init the node runs without its whole genesis state".into(), json!({})));
            }
        }
        c.event("oracle.judgements");
        let _ = (end, std::fs::remove_dir_all(&d.path));
    }

    versions(c, &k, &good);
}

fn changed(a: &BTreeMap<std::path::PathBuf, Vec<u8>>, b: &BTreeMap<std::path::PathBuf, Vec<u8>>) -> Vec<String> {
    let all: BTreeSet<_> = a.keys().chain(b.keys()).collect();
    all.into_iter().filter(|k| a.get(*k) != b.get(*k)).map(|k| k.display().to_string()).collect()
}

/// Makes one of the files unusable (the name of the defect) or changes it at random (None).
fn spoil(r: &mut Rng, d: &Dir, good: &Spec) -> Option<&'static str> {
    let spec = good.toml();
    let config = std::fs::read_to_string(d.file("config.toml")).unwrap();
    let sub = |t: &str, a: &str, b: &str| {
        assert!(t.contains(a), "{a}");
        t.replacen(a, b, 1)
    };
    Some(match r.below(20) {
        0 => {
            let n = *r.pick(&[0, 1, 31, 33, 64]);
            let b = r.bytes(n);
            d.put(*r.pick(&["net.key", "bls.key"]), b);
            "a key of the wrong length"
        }
        1 => {
            let _ = std::fs::remove_file(d.file(*r.pick(&["net.key", "bls.key", "spec.toml", "config.toml"])));
            "a file missing"
        }
        2 => {
            d.put("spec.toml", sub(&spec, "chain_id = ", "chain_id = -"));
            "a negative chain id"
        }
        3 => {
            d.put("spec.toml", sub(&spec, "timestamp", "#"));
            "no timestamp"
        }
        4 => {
            let line = spec.lines().find(|l| l.starts_with("balance")).unwrap().to_owned();
            d.put("spec.toml", sub(&spec, &line, &format!("balance = \"1{}\"", "0".repeat(64))));
            "a balance of more than 256 bits"
        }
        5 => {
            d.put("spec.toml", sub(&spec, "address = \"0x", "address = \"0x00"));
            "an address of 21 bytes"
        }
        19 => {
            // one letter's case belongs to the checksum
            let at = spec.find("address = \"0x").unwrap() + 13;
            let mut t: Vec<char> = spec.chars().collect();
            let i = (at..at + 40).find(|i| t[*i].is_ascii_alphabetic()).unwrap();
            t[i] = if t[i].is_ascii_lowercase() { t[i].to_ascii_uppercase() } else { t[i].to_ascii_lowercase() };
            d.put("spec.toml", t.into_iter().collect::<String>());
            "an address with a wrong checksum"
        }
        6 => {
            d.put("spec.toml", sub(&spec, "hardforks = [\"None\"]", "hardforks = [\"Cassiopeia\"]"));
            "an unknown hardfork"
        }
        7 => {
            let key = *r.pick(&["propose_ratio", "interval", "gas_limit", "tx_num_limit", "max_tx_size"]);
            d.put("spec.toml", sub(&spec, key, "#"));
            "a consensus parameter missing"
        }
        8 => {
            d.put("config.toml", sub(&config, "[mempool]", "[nempool]"));
            "a section missing"
        }
        9 => {
            d.put("config.toml", sub(&config, "listening_address = \"/ip4", "listening_address = \"/ip5"));
            "an address that is none"
        }
        10 => {
            d.put("spec.toml", sub(&spec, "pub_key = \"0x0", "pub_key = \"0xz"));
            "a key that is no hex"
        }
        11..=13 => {
            // another point, or none, of the right length
            let mut s = good.clone();
            let mut p: [u8; 33] = r.arr();
            p[0] = *r.pick(&[2, 3, 4, 0]);
            let valid = k_point(&p).is_some();
            s.validators[0].0 = p.to_vec();
            if r.chance(1, 3) {
                s.validators[0].0.truncate(r.below(33));
            }
            let invalid = !valid || s.validators[0].0.len() != 33;
            d.put("spec.toml", s.toml());
            return invalid.then_some("a public key that is none");
        }
        _ => {
            // any change at all
            let f = *r.pick(&["spec.toml", "config.toml"]);
            let mut t: Vec<char> = if f == "spec.toml" { spec } else { config }.chars().collect();
            // the data path has to stay where it is
            let safe = t.iter().collect::<String>();
            let (a, b) = match safe.find("data_path") {
                Some(a) => (a, a + safe[a..].find('\n').unwrap()),
                None => (0, 0),
            };
            let log = safe.find("log_path").map_or((0, 0), |a| (a, a + safe[a..].find('\n').unwrap()));
            for _ in 0..1 + r.below(3) {
                let i = r.below(t.len());
                if (i >= a && i <= b) || (i >= log.0 && i <= log.1) {
                    continue;
                }
                t[i] = *r.pick(&['0', '9', '"', ' ', '\n', '[', '-', 'x', '=', '#', 'f']);
            }
            d.put(f, t.into_iter().collect::<String>());
            return None;
        }
    })
}

/// The version recorded with the data decides whether a node may use it.
fn versions(c: &mut Ctx, k: &Keys, good: &Spec) {
    c.stage("versions");
    // (recorded, usable)
    const OLD: &[(&str, Option<bool>)] = &[
        ("0.1.0-alpha.9", Some(false)),
        ("0.1.0-beta.0", Some(false)),
        ("0.1.0-alpha.10+unknown", Some(false)),
        ("0.0.9", Some(false)),
        ("0.1.0-beta.2", Some(true)),
        ("0.1.0-beta.10", Some(true)),
        ("0.1.0-rc.1", Some(true)),
        ("0.1.0", Some(true)),
        ("0.2.9+abcdef", Some(true)),
        ("0.10.0", Some(true)),
        ("10.0.0", Some(true)),
        ("", Some(true)),
        ("no version", None),
        ("0.3", None),
    ];
    let d = node_dir(c, "ver", k, good);
    d.init();
    for (i, (old, usable)) in OLD.iter().enumerate() {
        if !c.thorough && !c.within(1.0) && i > 8 {
            break;
        }
        let current = format!("0.{}.{}", 3 + i, c.rng.below(20));
        let d = Dir { path: d.path.clone(), version: current.clone() };
        d.put("data/axon.ver", old);
        let before = d.image();
        // init has to refuse in any case, run goes ahead when the version allows it
        let run = c.rng.bool() && usable.is_some();
        let (ok, end) = if run {
            let n = d.run(&["--mine-blocks", "1"]);
            let Some((st, text)) = n.end(Duration::from_secs(60)) else {
                c.note("a node did not mine a block within a minute");
                continue;
            };
            (st.success(), json!({ "code": st.code(), "text": text.chars().take(500).collect::<String>() }))
        } else {
            let Some(r) = d.init() else { continue };
            (r.err.contains("already exists"), r.brief())
        };
        let recorded = std::fs::read_to_string(d.file("data/axon.ver")).unwrap_or_default();
        c.event("observed.version");
        c.seen("version", (old, run));
        match usable {
            Some(true) => {
                c.ensure(ok && recorded == format!("{current}+unknown"), "version-refused", || (format!("data of version {old:?} is refused by {current}, or the version is not brought up to date ({recorded})"), end.clone()));
            }
            Some(false) => {
                c.ensure(!ok && before == d.image(), "version-accepted", || (format!("data of version {old:?} is accepted by {current}, or changed: {recorded}"), end.clone()));
            }
            None => {
                c.ensure(!ok && before == d.image(), "version-garbage", || (format!("a version file reading {old:?} is accepted or changed: {recorded}"), end.clone()));
            }
        }
    }
}
