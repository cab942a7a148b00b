//! P06: what the light-client library accepts as proof of a block, and of an account.
use axon_tools::types as at;
use blst::min_pk::{AggregateSignature, SecretKey};
use protocol::types::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use vlib::oracle::{keccak256, mpt_root, R};
use vlib::{guard, hex, json, Ctx, Must, Rng};

pub const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";

pub struct V {
    pub sk: SecretKey,
    pub pk: Vec<u8>,
    pub bls: Vec<u8>,
    pub weight: u32,
}
pub fn validators(r: &mut Rng, n: usize) -> Vec<V> {
    let mut v: Vec<V> = (0..n)
        .map(|_| {
            let sk = SecretKey::key_gen(&r.arr::<32>(), &[]).unwrap();
            let bls = sk.sk_to_pk().to_bytes().to_vec();
            let mut pk = vec![2 + r.below(2) as u8];
            pk.extend(r.bytes(32));
            let weight = match r.below(4) {
                0 => 1,
                1 => r.range(1, 5) as u32,
                2 => r.range(1, 1000) as u32,
                _ => u32::MAX - r.below(3) as u32,
            };
            V { sk, pk, bls, weight }
        })
        .collect();
    if r.bool() {
        let w = v[0].weight;
        v.iter_mut().for_each(|v| v.weight = w);
    }
    v.sort_by(|a, b| a.pk.cmp(&b.pk));
    v
}
pub fn bitmap(n: usize, set: &[usize]) -> Vec<u8> {
    let mut b = vec![0u8; (n + 7) / 8];
    set.iter().for_each(|i| b[i / 8] |= 0x80 >> (i % 8));
    b
}
pub fn vote_hash(height: u64, round: u64, kind: u8, hash: &[u8; 32]) -> [u8; 32] {
    keccak256(&R::L(vec![R::u(height), R::u(round), R::u(kind as u64), R::b(hash)]).enc())
}
pub fn aggregate(vs: &[V], set: &[usize], msg: &[u8; 32]) -> Vec<u8> {
    let sigs: Vec<_> = set.iter().map(|i| vs[*i].sk.sign(msg, DST, &[])).collect();
    let refs: Vec<_> = sigs.iter().collect();
    AggregateSignature::aggregate(&refs, false).unwrap().to_signature().to_bytes().to_vec()
}
fn list(vs: &[V]) -> Vec<at::ValidatorExtend> {
    vs.iter()
        .map(|v| at::ValidatorExtend {
            bls_pub_key: at::Hex::encode(&v.bls), pub_key: at::Hex::encode(&v.pk), address: H160::from_slice(&keccak256(&v.pk)[12..]),
            propose_weight: 1, vote_weight: v.weight,
        })
        .collect()
}
fn tools_block(b: &Block) -> at::Block {
    rlp::decode(&rlp::encode(b)).must("light/block-form")
}

struct Case {
    block: at::Block,
    prev: H256,
    vs: Vec<at::ValidatorExtend>,
    proof: at::Proof,
}
fn verdict(k: &Case) -> Result<bool, vlib::Panicked> {
    guard(|| axon_tools::verify_proof(k.block.clone(), k.prev, &mut k.vs.clone(), k.proof.clone()).is_ok())
}

/// One change to what the proof is about; each leaves a pair the validators never signed.
fn tamper(r: &mut Rng, k: &mut Case, vs: &[V], set: &[usize]) -> Option<&'static str> {
    let h = &mut k.block.header;
    Some(match r.below(27) {
        0 => { h.prev_hash.0[r.below(32)] ^= 1 << r.below(8); "prev_hash" }
        1 => { h.proposer.0[r.below(20)] ^= 1 << r.below(8); "proposer" }
        2 => { k.prev.0[r.below(32)] ^= 1 << r.below(8); "prev_state_root" }
        3 => { h.transactions_root.0[r.below(32)] ^= 1 << r.below(8); "transactions_root" }
        4 => { h.signed_txs_hash.0[r.below(32)] ^= 1 << r.below(8); "signed_txs_hash" }
        5 => { h.timestamp ^= 1 << r.below(64); "timestamp" }
        6 => { h.number ^= 1 << r.below(64); "number" }
        7 => { h.gas_limit = (h.gas_limit.as_u64() ^ (1 << r.below(64))).into(); "gas_limit" }
        8 => { h.extra_data.push(at::ExtraData { inner: r.bytes(3).into() }); "extra_data" }
        9 => { h.proof.round ^= 1 << r.below(64); "parent proof round" }
        10 => { h.proof.number ^= 1 << r.below(64); "parent proof number" }
        11 => { h.proof.signature = r.bytes(96).into(); "parent proof signature" }
        12 => { h.proof.bitmap = r.bytes(7).into(); "parent proof bitmap" }
        13 => { h.proof.proposal_hash.0[r.below(32)] ^= 1; "parent proof hash" }
        14 => { h.call_system_script_count ^= 1 << r.below(32); "call_system_script_count" }
        15 => { k.block.tx_hashes.push(H256(r.arr())); "extra transaction" }
        16 => { k.block.tx_hashes.pop()?; "missing transaction" }
        17 if k.block.tx_hashes.len() > 1 && k.block.tx_hashes[0] != k.block.tx_hashes[1] => { k.block.tx_hashes.swap(0, 1); "transaction order" }
        18 => { k.proof.number ^= 1 << r.below(64); "proof number" }
        19 => { k.proof.round ^= 1 << r.below(64); "proof round" }
        20 => { k.proof.proposal_hash.0[r.below(32)] ^= 1 << r.below(8); "proof hash" }
        21 => {
            let mut s = k.proof.signature.to_vec();
            let i = r.below(s.len());
            s[i] ^= 1 << r.below(8);
            k.proof.signature = s.into();
            "signature bits"
        }
        22 => {
            // claim one voter more (or less) than signed
            let i = r.below(vs.len());
            let mut other: Vec<usize> = set.iter().copied().filter(|x| *x != i).collect();
            if !set.contains(&i) { other.push(i) }
            k.proof.bitmap = bitmap(vs.len(), &other).into();
            "bitmap"
        }
        23 => { let i = *r.pick(set); k.vs[i].bls_pub_key = at::Hex::encode(&SecretKey::key_gen(&r.arr::<32>(), &[]).unwrap().sk_to_pk().to_bytes()); "voter key" }
        24 => {
            // signed as a prevote, or for another round, but presented as this precommit
            let m = match r.below(3) {
                0 => vote_hash(k.proof.number, k.proof.round, 1, &k.proof.proposal_hash.0),
                1 => vote_hash(k.proof.number, k.proof.round.wrapping_add(1), 2, &k.proof.proposal_hash.0),
                _ => vote_hash(k.proof.number.wrapping_sub(1), k.proof.round, 2, &k.proof.proposal_hash.0),
            };
            k.proof.signature = aggregate(vs, set, &m).into();
            "signature over another vote"
        }
        25 if set.len() > 1 => { k.proof.signature = aggregate(vs, &set[1..], &vote_hash(k.proof.number, k.proof.round, 2, &k.proof.proposal_hash.0)).into(); "one signature left out" }
        26 => {
            // a quorum signed this very proposal, but for another height
            k.proof.number = k.proof.number.wrapping_add(1);
            k.proof.signature = aggregate(vs, set, &vote_hash(k.proof.number, k.proof.round, 2, &k.proof.proposal_hash.0)).into();
            "proof for another height"
        }
        _ => return None,
    })
}

pub fn p06(c: &mut Ctx) {
    c.stage("blocks");
    for _ in 0..c.scale(110, 4000) {
        if !c.within(0.6) {
            break;
        }
        let mut r = c.rng.fork();
        let n = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17]);
        let mut vs = validators(&mut r, n);
        let mut b = gen::block(&mut r);
        b.header.base_fee_per_gas = protocol::constants::BASE_FEE_PER_GAS.into();
        b.header.chain_id = **protocol::lazy::CHAIN_ID.load();
        let prev = gen::h256(&mut r);
        // what the chain itself hashes
        let p = Proposal {
            version: b.header.version, prev_hash: b.header.prev_hash, proposer: b.header.proposer, prev_state_root: prev,
            transactions_root: b.header.transactions_root, signed_txs_hash: b.header.signed_txs_hash, timestamp: b.header.timestamp,
            number: b.header.number, gas_limit: b.header.gas_limit, extra_data: b.header.extra_data.clone(),
            base_fee_per_gas: b.header.base_fee_per_gas, proof: b.header.proof.clone(), chain_id: b.header.chain_id,
            call_system_script_count: b.header.call_system_script_count, tx_hashes: b.tx_hashes.clone(),
        };
        let ph = keccak256(&crate::block::r_proposal(&p).enc());
        let mut set: Vec<usize> = (0..n).collect();
        r.shuffle(&mut set);
        // sizes around the two-thirds line
        let k = match r.below(6) {
            0 => n,
            1 => (2 * n) / 3 + 1,
            2 => (2 * n + 2) / 3,
            3 => (2 * n) / 3,
            4 => n.min(8),
            _ => r.below(n) + 1,
        }
        .clamp(1, n);
        if r.below(3) == 0 {
            // the signers are the first of the list: their bitmap can be written in fewer bytes
            set.sort();
        }
        set.truncate(k);
        if r.below(3) == 0 {
            // weights on, just below and just above the line
            let absent: u64 = (0..n).filter(|i| !set.contains(i)).map(|i| vs[i].weight as u64).sum();
            let others: u64 = set[1..].iter().map(|i| vs[*i].weight as u64).sum();
            let w = (2 * absent + r.below(4) as u64).wrapping_sub(1).wrapping_sub(others);
            if w >= 1 && w <= u32::MAX as u64 {
                vs[set[0]].weight = w as u32;
                c.event("weights around the line");
            }
        }
        let (round, number) = (r.edge_u64(), b.header.number);
        let msg = vote_hash(number, round, 2, &ph);
        let proof = at::Proof {
            number, round, proposal_hash: H256(ph), signature: aggregate(&vs, &set, &msg).into(),
            bitmap: bitmap(n, &set).into(),
        };
        let (w, total): (u64, u64) = (set.iter().map(|i| vs[*i].weight as u64).sum(), vs.iter().map(|v| v.weight as u64).sum());
        let quorum = 3 * w > 2 * total;
        let mut base = Case { block: tools_block(&b), prev, vs: list(&vs), proof };
        r.shuffle(&mut base.vs);
        c.event(if quorum { "proofs with quorum" } else { "proofs without quorum" });
        c.seen("proof", (&ph, &set));
        let got = verdict(&base);
        let d = json!({"block": hex(rlp::encode(&b)), "weights": vs.iter().map(|v| v.weight).collect::<Vec<_>>(), "signers": set, "got": format!("{got:?}")});
        c.ensure(matches!(&got, Ok(x) if *x == quorum), if quorum { "light/rejects-valid" } else { "light/accepts-minority" },
            || (format!("signed weight {w} of {total}: verify_proof answered {got:?}"), d.clone()));
        let mut cut = base.proof.bitmap.to_vec();
        while cut.len() > 1 && cut.last() == Some(&0) {
            cut.pop();
        }
        if !quorum {
            // however the bitmap is written, the validators it leaves out still count
            for bits in [cut.clone(), [base.proof.bitmap.to_vec(), vec![0xff; 2]].concat()] {
                let mut k = Case { block: base.block.clone(), prev: base.prev, vs: base.vs.clone(), proof: base.proof.clone() };
                k.proof.bitmap = bits.clone().into();
                if bits.len() < base.proof.bitmap.len() {
                    c.event("shortened bitmaps without quorum");
                }
                let got = verdict(&k);
                c.ensure(matches!(got, Ok(false)), "light/accepts-minority",
                    || (format!("signed weight {w} of {total}, bitmap {}: verify_proof answered {got:?}", hex(&bits)), d.clone()));
            }
            continue;
        }
        base.vs = list(&vs);
        for _ in 0..c.scale(12, 20) {
            let mut k = Case { block: base.block.clone(), prev: base.prev, vs: base.vs.clone(), proof: base.proof.clone() };
            let Some(what) = tamper(&mut r, &mut k, &vs, &set) else { continue };
            c.event("tampered proofs");
            c.seen("tampering", (what, &ph));
            let got = verdict(&k);
            c.ensure(matches!(got, Ok(false)), &format!("light/accepts/{what}"),
                || (format!("changed {what}: verify_proof answered {got:?}"), d.clone()));
        }
    }
    c.sample(json!({"proofs": c.count("proofs with quorum"), "tampered": c.count("tampered proofs")}));

    c.stage("trie proofs");
    for _ in 0..c.scale(400, 10_000) {
        if !c.within(0.95) {
            break;
        }
        let mut r = c.rng.fork();
        let n = r.below(30) + 1;
        let mut m = BTreeMap::new();
        let short = r.bool();
        for _ in 0..n {
            let k = if short { let n = r.below(4) + 1; r.bytes(n).iter().map(|b| b & 0x13).collect() } else { r.bytes(32) };
            let n = r.below(60) + 1;
            m.insert(k, r.bytes(n));
        }
        use cita_trie::Trie;
        let mut t = cita_trie::PatriciaTrie::new(Arc::new(cita_trie::MemoryDB::new(false)), Arc::new(K));
        for (k, v) in &m {
            t.insert(k.clone(), v.clone()).unwrap();
        }
        t.root().unwrap();
        let root = H256(mpt_root(&m));
        let mut keys: Vec<Vec<u8>> = m.keys().cloned().collect();
        keys.extend((0..5).map(|_| if short { r.bytes(3).iter().map(|b| b & 0x13).collect() } else { r.bytes(32) }));
        for k in keys {
            let pf = t.get_proof(&k).unwrap();
            let got = guard(|| axon_tools::verify_trie_proof(root, &k, pf.clone()));
            c.event("trie proofs");
            c.seen("trie", (&root, &k));
            c.ensure(matches!(&got, Ok(Ok(v)) if v.as_ref() == m.get(&k)), "trie/valid-proof", || (format!("an honest proof was answered {got:?}"), json!({"key": hex(&k)})));
            let mut bad = pf.clone();
            let mut bad_root = root;
            match r.below(4) {
                0 if !bad.is_empty() => { let i = r.below(bad.len()); bad[i] = gen::mutate(&mut r, &bad[i]) }
                1 => { bad.pop(); }
                2 => bad_root = H256(r.arr()),
                _ => { let i = r.below(bad.len().max(1)); if i < bad.len() { bad[i] = r.bytes(40) } }
            }
            let got = guard(|| axon_tools::verify_trie_proof(bad_root, &k, bad.clone()));
            c.event("tampered trie proofs");
            let sound = match &got {
                // nothing is known under an unknown root
                Ok(Ok(v)) => bad_root == root && v.as_ref() == m.get(&k) || bad_root != root && v.is_none(),
                Ok(Err(_)) => true,
                // the third-party decoder may give up on garbage nodes in its own way; ours must not
                Err(p) => !vlib::in_tree(&p.loc),
            };
            let withheld = bad_root == root && matches!(&got, Ok(Ok(None)));
            c.ensure(sound, if withheld { "trie/withheld-node-reads-as-absent" } else { "trie/forged-proof" }, || (format!("a forged proof was answered {got:?}"), json!({"key": hex(&k), "truth": m.get(&k).map(hex)})));
        }
    }
}
struct K;
impl cita_trie::Hasher for K {
    const LENGTH: usize = 32;
    fn digest(&self, d: &[u8]) -> Vec<u8> {
        keccak256(d).to_vec()
    }
}
