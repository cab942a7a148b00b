//! P08: axon-tools, the copy of the chain's types for outside programs, agrees with the chain on bytes and JSON.
use axon_tools::types as at;
use protocol::types::*;
use serde::de::DeserializeOwned;
use vlib::oracle::keccak256;
use vlib::{guard, hex as hx, json, Ctx, Rng};

fn h(x: &Hex) -> at::Hex {
    at::Hex::encode(x.as_bytes())
}
fn proof(p: &Proof) -> at::Proof {
    at::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash, signature: p.signature.clone(), bitmap: p.bitmap.clone() }
}
fn extra(e: &[ExtraData]) -> Vec<at::ExtraData> {
    e.iter().map(|e| at::ExtraData { inner: e.inner.clone() }).collect()
}
fn header(b: &Header) -> at::Header {
    at::Header {
        version: at::BlockVersion::V0, prev_hash: b.prev_hash, proposer: b.proposer, state_root: b.state_root, transactions_root: b.transactions_root,
        signed_txs_hash: b.signed_txs_hash, receipts_root: b.receipts_root, log_bloom: b.log_bloom, timestamp: b.timestamp, number: b.number,
        gas_used: b.gas_used, gas_limit: b.gas_limit, extra_data: extra(&b.extra_data), base_fee_per_gas: b.base_fee_per_gas,
        proof: proof(&b.proof), call_system_script_count: b.call_system_script_count, chain_id: b.chain_id,
    }
}
fn block(b: &Block) -> at::Block {
    at::Block { header: header(&b.header), tx_hashes: b.tx_hashes.clone() }
}
fn proposal(p: &Proposal) -> at::Proposal {
    at::Proposal {
        version: at::BlockVersion::V0, prev_hash: p.prev_hash, proposer: p.proposer, prev_state_root: p.prev_state_root,
        transactions_root: p.transactions_root, signed_txs_hash: p.signed_txs_hash, timestamp: p.timestamp, number: p.number,
        gas_limit: p.gas_limit, extra_data: extra(&p.extra_data), base_fee_per_gas: p.base_fee_per_gas, proof: proof(&p.proof),
        chain_id: p.chain_id, call_system_script_count: p.call_system_script_count, tx_hashes: p.tx_hashes.clone(),
    }
}
fn version(v: &MetadataVersion) -> at::MetadataVersion {
    at::MetadataVersion { start: v.start, end: v.end }
}
fn config(c: &ConsensusConfig) -> at::ConsensusConfig {
    at::ConsensusConfig {
        gas_limit: c.gas_limit, interval: c.interval, propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio,
        precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio, tx_num_limit: c.tx_num_limit, max_tx_size: c.max_tx_size,
        max_contract_limit: c.max_contract_limit,
    }
}
fn validator(v: &ValidatorExtend) -> at::ValidatorExtend {
    at::ValidatorExtend { bls_pub_key: h(&v.bls_pub_key), pub_key: h(&v.pub_key), address: v.address, propose_weight: v.propose_weight, vote_weight: v.vote_weight }
}
fn count(p: &ProposeCount) -> at::ProposeCount {
    at::ProposeCount { address: p.address, count: p.count }
}
fn metadata(m: &Metadata) -> at::Metadata {
    at::Metadata {
        version: version(&m.version), epoch: m.epoch, verifier_list: m.verifier_list.iter().map(validator).collect(),
        propose_counter: m.propose_counter.iter().map(count).collect(), consensus_config: config(&m.consensus_config),
    }
}

fn rlp_agree<N: rlp::Encodable, T: rlp::Encodable + rlp::Decodable + PartialEq + std::fmt::Debug>(c: &mut Ctx, kind: &str, n: &N, t: &T) {
    let (a, b) = (rlp::encode(n), guard(|| rlp::encode(t)).unwrap_or_default());
    c.event("encodings compared");
    c.seen(kind, a.as_ref());
    let d = json!({"chain": hx(&a), "tools": hx(&b)});
    c.ensure(a == b, &format!("rlp/{kind}"), || (format!("the chain and axon-tools encode the same {kind} differently"), d.clone()));
    let back = guard(|| rlp::decode::<T>(&a).ok());
    c.ensure(matches!(&back, Ok(Some(x)) if x == t), &format!("rlp-decode/{kind}"), || (format!("axon-tools does not read the chain's encoding of a {kind} back"), d));
}
fn json_agree<N: serde::Serialize, T: DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Ctx, kind: &str, n: &N, t: &T) {
    let text = serde_json::to_string(n).unwrap_or_default();
    c.event("JSON documents compared");
    c.seen(&format!("json {kind}"), &text);
    let back = guard(|| serde_json::from_str::<T>(&text).map_err(|e| e.to_string()));
    c.ensure(matches!(&back, Ok(Ok(x)) if x == t), &format!("json/{kind}"), || {
        let b = format!("{back:?}");
        (format!("axon-tools does not read the {kind} a node prints: {}", b.chars().take(300).collect::<String>()), json!({"text": text}))
    });
}
fn json_own<T: serde::Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Ctx, kind: &str, t: &T) {
    let back = guard(|| serde_json::to_string(t).ok().and_then(|s| serde_json::from_str::<T>(&s).ok()));
    c.ensure(matches!(&back, Ok(Some(x)) if x == t), &format!("json-own/{kind}"), || (format!("axon-tools does not read back the {kind} it prints"), json!({})));
}
/// the hex quantity a field holds, made too big or malformed
fn bad_quantity(r: &mut Rng) -> (&'static str, String) {
    match r.below(6) {
        0 => ("too big", format!("0x1{:016x}", r.u64())),
        1 => ("not hexadecimal", "0x12g4".into()),
        2 => ("no prefix", format!("{:x}", r.u64())),
        3 => ("not ASCII", "0x1\u{e9}2".into()),
        4 => ("far too big", format!("0x{}", "f".repeat(65 + r.below(40)))),
        _ => ("signed", "0x+1".into()),
    }
}

pub fn p08(c: &mut Ctx) {
    c.stage("agreement");
    for _ in 0..c.scale(1200, 60_000) {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        let b = gen::block(&mut r);
        let tb = block(&b);
        rlp_agree(c, "block", &b, &tb);
        rlp_agree(c, "header", &b.header, &tb.header);
        rlp_agree(c, "proof", &b.header.proof, &tb.header.proof);
        json_agree(c, "block", &b, &tb);
        json_agree(c, "header", &b.header, &tb.header);
        json_agree(c, "proof", &b.header.proof, &tb.header.proof);
        let hh = guard(|| axon_tools::keccak_256(&rlp::encode(&tb.header)));
        c.ensure(matches!(hh, Ok(x) if x == b.hash().0 && x == keccak256(&rlp::encode(&b.header))), "hash/block", || ("axon-tools computes another block hash than the chain".into(), json!({"header": hx(rlp::encode(&b.header))})));
        let (cid, fee) = (**protocol::lazy::CHAIN_ID.load(), protocol::constants::BASE_FEE_PER_GAS);
        let p = gen::proposal(&mut r, cid, fee);
        let tp = proposal(&p);
        let (x, y) = (rlp::encode(&p), guard(|| rlp::encode(&tp)).unwrap_or_default());
        c.ensure(x == y, "rlp/proposal", || ("the chain and axon-tools encode the same proposal differently".into(), json!({"chain": hx(&x), "tools": hx(&y)})));
        let text = serde_json::to_string(&p).unwrap();
        let back = guard(|| serde_json::from_str::<at::Proposal>(&text).map_err(|e| e.to_string()));
        c.ensure(matches!(&back, Ok(Ok(x)) if *x == tp), "json/proposal", || ("axon-tools does not read the proposal a node prints".into(), json!({"text": text})));
        let m = gen::metadata(&mut r);
        let tm = metadata(&m);
        rlp_agree(c, "metadata version", &m.version, &tm.version);
        rlp_agree(c, "consensus config", &m.consensus_config, &tm.consensus_config);
        json_agree(c, "metadata version", &m.version, &tm.version);
        json_agree(c, "consensus config", &m.consensus_config, &tm.consensus_config);
        for (a, b) in m.propose_counter.iter().zip(&tm.propose_counter) {
            rlp_agree(c, "propose count", a, b);
            json_agree(c, "propose count", a, b);
        }
        for (a, b) in m.verifier_list.iter().zip(&tm.verifier_list) {
            rlp_agree(c, "validator", a, b);
            json_agree(c, "validator", a, b);
        }
        rlp_agree(c, "metadata", &m, &tm);
        let printed = at::Metadata { propose_counter: vec![], ..tm.clone() };
        json_agree(c, "metadata", &m, &printed);
        let (lo, hi, x) = (r.edge_u64(), r.edge_u64(), r.edge_u64());
        let want = lo <= x && x <= hi;
        c.ensure(MetadataVersion::new(lo, hi).contains(x) == want && at::MetadataVersion::new(lo, hi).contains(x) == want, "version/contains", || (format!("{lo}..={hi} and {x}"), json!({})));
        let ci = gen::ckb_info(&mut r);
        let tci = at::CkbRelatedInfo { metadata_type_id: ci.metadata_type_id, checkpoint_type_id: ci.checkpoint_type_id, xudt_args: ci.xudt_args, stake_smt_type_id: ci.stake_smt_type_id, delegate_smt_type_id: ci.delegate_smt_type_id, reward_smt_type_id: ci.reward_smt_type_id };
        json_agree(c, "CKB related info", &ci, &tci);
        json_own(c, "block", &tb);
        json_own(c, "proof", &tb.header.proof);
    }
    c.stage("malformed");
    for _ in 0..c.scale(2000, 50_000) {
        if !c.within(1.0) {
            break;
        }
        let mut r = c.rng.fork();
        let (why, q) = bad_quantity(&mut r);
        let doc = |f: &str, v: &str| format!("{{\"{f}\": \"{v}\", \"{}\": \"0x1\"}}", if f == "start" { "end" } else { "start" });
        let f = if r.bool() { "start" } else { "end" };
        let text = doc(f, &q);
        let got = guard(|| serde_json::from_str::<at::MetadataVersion>(&text).ok());
        c.event("malformed quantities");
        c.seen("malformed", (why, &q));
        c.ensure(matches!(got, Ok(None)), &format!("quantity/accepts/{why}"), || (format!("{q:?} was read as {got:?}"), json!({"text": text})));
        let v = r.edge_u64();
        let good = doc(f, &format!("{}{v:x}", if r.bool() { "0x" } else { "0x0" }));
        let got = guard(|| serde_json::from_str::<at::MetadataVersion>(&good).ok());
        c.ensure(matches!(&got, Ok(Some(m)) if *m == (if f == "start" { at::MetadataVersion::new(v, 1) } else { at::MetadataVersion::new(1, v) })), "quantity/value", || (format!("{good} was read as {got:?}"), json!({})));
        let blk = rlp::encode(&gen::block(&mut r));
        let bad = if r.bool() { gen::mutate(&mut r, &blk) } else { gen::mutate_rlp(&mut r, &blk) };
        let got = guard(|| rlp::decode::<at::Block>(&bad).is_ok());
        c.event("malformed encodings");
        c.ensure(got.is_ok(), "decode/panics", || (format!("decoding made axon-tools panic: {got:?}"), json!({"rlp": hx(&bad)})));
    }
}
