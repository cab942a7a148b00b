//! P01 (wire codecs are lossless) and P02 (decoders are total).
use axon_tools::types as at;
use protocol::codec::ProtocolCodec;
use rlp::{Decodable, Encodable};
use protocol::traits::MessageCodec;
use protocol::types::*;
use std::fmt::Debug;
use vlib::oracle::R;
use vlib::{guard, hex, json, Ctx, Rng};

/// One codec under the monitor: what was encoded, the bytes, and what came back.
fn judge<T: PartialEq + Debug>(c: &mut Ctx, name: &str, v: &T, enc: &dyn Fn(&T) -> Vec<u8>, dec: &dyn Fn(&[u8]) -> Result<T, String>) -> Vec<u8> {
    let out = guard(|| {
        let b = enc(v);
        let back = dec(&b);
        let again = back.as_ref().ok().map(|x| enc(x));
        (b, back, again)
    });
    c.event(&format!("codec.{name}"));
    let shown = || -> String { format!("{v:?}").chars().take(900).collect() };
    match out {
        Err(p) => {
            c.violate(format!("{name}/panic"), format!("{name}: encoding or decoding its own encoding panicked: {} at {}", p.msg, p.loc), json!({"value": shown()}));
            vec![]
        }
        Ok((b, back, again)) => {
            c.seen(name, &b);
            let ok = matches!(&back, Ok(x) if x == v);
            c.ensure(ok, &format!("{name}/lossy"), || {
                (format!("{name}: decode(encode(v)) is not v"), json!({"value": shown(), "bytes": hex(&b), "decoded": format!("{back:?}").chars().take(900).collect::<String>()}))
            });
            if ok {
                c.ensure(again.as_deref() == Some(&b[..]), &format!("{name}/unstable"), || {
                    (format!("{name}: encoding the decoded value gives other bytes"), json!({"first": hex(&b), "second": again.map(hex)}))
                });
            }
            b
        }
    }
}

/// An RLP codec also has to produce exactly one well-formed item.
fn rlp_case<T: Encodable + Decodable + PartialEq + Debug>(c: &mut Ctx, name: &str, v: T) {
    let b = judge(c, name, &v, &|x| rlp::encode(x).to_vec(), &|b| rlp::decode::<T>(b).map_err(|e| e.to_string()));
    well_formed(c, name, &b);
    // the same value inside a list: the codecs must not depend on standing alone
    let l = vec![v];
    let enc = guard(|| rlp::encode_list::<T, _>(&l).to_vec());
    if let Ok(lb) = enc {
        let back = guard(|| rlp::decode_list::<T>(&lb));
        c.ensure(matches!(&back, Ok(x) if *x == l), &format!("{name}/in-list"), || {
            (format!("{name}: a one-element list does not survive the codec"), json!({"bytes": hex(&lb)}))
        });
    }
}

fn well_formed(c: &mut Ctx, name: &str, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    let strict = R::dec(b).map_or(false, |(t, n)| n == b.len() && t.enc() == b);
    c.ensure(strict, &format!("{name}/malformed"), || (format!("{name}: the encoding is not one well-formed RLP item"), json!({"bytes": hex(b)})));
}

fn msg_case<T: MessageCodec + Clone + PartialEq>(c: &mut Ctx, name: &str, v: T) {
    judge(
        c,
        name,
        &v,
        &|x| x.clone().encode_msg().map(|b| b.to_vec()).unwrap_or_default(),
        &|b| T::decode_msg(Bytes::copy_from_slice(b)).map_err(|e| e.to_string()),
    );
}

fn overlord_case<T: overlord::Codec + PartialEq>(c: &mut Ctx, name: &str, v: T) {
    judge(
        c,
        name,
        &v,
        &|x| overlord::Codec::encode(x).map(|b| b.to_vec()).unwrap_or_default(),
        &|b| <T as overlord::Codec>::decode(Bytes::copy_from_slice(b)).map_err(|e| e.to_string()),
    );
}

fn at_header(r: &mut Rng) -> at::Header {
    at::Header {
        version: at::BlockVersion::V0, prev_hash: gen::h256(r), proposer: gen::h160(r), state_root: gen::h256(r),
        transactions_root: gen::h256(r), signed_txs_hash: gen::h256(r), receipts_root: gen::h256(r), log_bloom: gen::bloom(r),
        timestamp: r.edge_u64(), number: r.edge_u64(), gas_used: gen::u64_(r), gas_limit: gen::u64_(r),
        extra_data: gen::vec(r, 3, |r| at::ExtraData { inner: gen::bytes(r, 60) }), base_fee_per_gas: gen::u64_(r),
        proof: at_proof(r), call_system_script_count: r.edge_u64() as u32, chain_id: r.edge_u64(),
    }
}
fn at_proof(r: &mut Rng) -> at::Proof {
    at::Proof { number: r.edge_u64(), round: r.edge_u64(), proposal_hash: gen::h256(r), signature: gen::bytes(r, 120), bitmap: gen::bytes(r, 40) }
}

pub fn p01(c: &mut Ctx) {
    let chain = r_chain();
    let n = c.scale(250, 8000);
    c.stage("round-trip");
    for _ in 0..n {
        if !c.within(0.9) {
            break;
        }
        let r = &mut c.rng.fork();
        rlp_case(c, "BlockVersion", BlockVersion::V0);
        rlp_case(c, "Proposal", gen::proposal(r, chain, protocol::constants::BASE_FEE_PER_GAS));
        rlp_case(c, "Header", gen::header(r));
        rlp_case(c, "Block", gen::block(r));
        rlp_case(c, "ExtraData", gen::extra(r));
        rlp_case(c, "Proof", gen::proof(r));
        rlp_case(c, "Receipt", gen::receipt(r));
        rlp_case(c, "TxResp", gen::tx_resp(r));
        rlp_case(c, "ExecutorContext", gen::exec_ctx(r));
        rlp_case(c, "Hex", gen::hex(r, 300));
        rlp_case(c, "Address", Address(gen::h160(r)));
        rlp_case(c, "MetadataVersion", gen::metadata_version(r));
        rlp_case(c, "Metadata", gen::metadata(r));
        let (inner, config) = gen::metadata(r).into_part();
        rlp_case(c, "MetadataInner", inner);
        rlp_case(c, "ConsensusConfig", config);
        let m = gen::metadata(r);
        rlp_case(c, "SpecMetadata", SpecMetadata {
            version: m.version, epoch: m.epoch, verifier_list: gen::vec(r, 4, gen::validator), propose_counter: m.propose_counter,
            consensus_config: m.consensus_config,
        });
        rlp_case(c, "ProposeCount", gen::propose_count(r));
        rlp_case(c, "Validator", gen::validator(r));
        rlp_case(c, "ValidatorExtend", gen::validator_extend(r));
        rlp_case(c, "ConsensusValidator", ConsensusValidator { pub_key: gen::bytes(r, 40), propose_weight: r.edge_u64() as u32, vote_weight: r.edge_u64() as u32 });
        rlp_case(c, "CkbRelatedInfo", gen::ckb_info(r));
        rlp_case(c, "HardforkInfoInner", gen::hardfork_inner(r));
        rlp_case(c, "HardforkInfo", HardforkInfo { inner: gen::vec(r, 4, gen::hardfork_inner) });
        rlp_case(c, "Script", gen::script(r));
        let s = gen::script(r);
        rlp_case(c, "CellWithData", CellWithData { type_script: gen::opt(r, gen::script), lock_script: s, data: gen::bytes(r, 100) });
        rlp_case(c, "CellDep", gen::cell_dep(r));
        rlp_case(c, "CellDepWithPubKey", CellDepWithPubKey { cell_dep: gen::cell_dep(r), pub_key: gen::bytes(r, 70) });
        rlp_case(c, "OutPoint", OutPoint { tx_hash: gen::h256(r), index: r.edge_u64() as u32 });
        rlp_case(c, "Witness", gen::witness(r));
        rlp_case(c, "SignatureS", SignatureS { witnesses: gen::vec(r, 3, gen::witness) });
        let cfg0 = gen::consensus_config(r);
        rlp_case(c, "ConsensusConfigV0", ConsensusConfigV0 {
            gas_limit: cfg0.gas_limit, interval: cfg0.interval, propose_ratio: cfg0.propose_ratio, prevote_ratio: cfg0.prevote_ratio,
            precommit_ratio: cfg0.precommit_ratio, brake_ratio: cfg0.brake_ratio, tx_num_limit: cfg0.tx_num_limit, max_tx_size: cfg0.max_tx_size,
        });
        // light client library
        rlp_case(c, "tools.Header", at_header(r));
        rlp_case(c, "tools.Block", at::Block { header: at_header(r), tx_hashes: gen::vec(r, 5, gen::h256) });
        rlp_case(c, "tools.Proof", at_proof(r));

        // storage and network entry points
        let db = DBBytes(gen::bytes(r, 200));
        judge(c, "DBBytes", &db, &|x| x.encode().unwrap().to_vec(), &|b| DBBytes::decode(b).map_err(|e| e.to_string()));
        let h = gen::header(r);
        judge(c, "storage.Header", &h, &|x| ProtocolCodec::encode(x).unwrap().to_vec(), &|b| <Header as ProtocolCodec>::decode(b).map_err(|e| e.to_string()));
        msg_case(c, "msg.Proof", gen::proof(r));
        msg_case(c, "msg.Proposal", gen::proposal(r, chain, protocol::constants::BASE_FEE_PER_GAS));
        overlord_case(c, "overlord.Proposal", gen::proposal(r, chain, protocol::constants::BASE_FEE_PER_GAS));
        msg_case(c, "msg.BatchBlocks", BatchBlocks(gen::vec(r, 3, gen::block)));
    }
    // as large as a block, a frame or a reply of many blocks gets
    c.stage("large");
    {
        let r = &mut c.rng.fork();
        let few: Vec<SignedTransaction> = (0..7).map(|_| gen::signed(r)).collect();
        msg_case(c, "msg.BatchSignedTxs", BatchSignedTxs((0..10_000 + r.below(50)).map(|_| r.pick(&few).clone()).collect()));
        let small = Block { header: gen::header(r), tx_hashes: vec![] };
        msg_case(c, "msg.BatchBlocks", BatchBlocks((0..5_000).map(|i| { let mut b = small.clone(); b.header.number = i; b }).collect()));
        let hashes: Vec<H256> = (0..70_000).map(|_| H256(r.arr())).collect();
        let mut b = gen::block(r);
        b.tx_hashes = hashes.clone();
        rlp_case(c, "Block", b);
        let mut p = gen::proposal(r, chain, protocol::constants::BASE_FEE_PER_GAS);
        p.tx_hashes = hashes.clone();
        overlord_case(c, "overlord.Proposal", p);
        rlp_case(c, "tools.Block", at::Block { header: at_header(r), tx_hashes: hashes });
        for n in [255, 256, 65_535, 65_536, 200_000, 1_100_000] {
            let data: Bytes = r.bytes(n).into();
            let mut x = gen::tx_resp(r);
            x.ret = data.to_vec();
            rlp_case(c, "TxResp", x);
            let kind = r.below(3);
            let mut u = gen::unsigned(r, kind);
            u.set_data(data);
            let id = gen::chain_id_for(r, kind);
            rlp_case(c, "SignedTransaction", gen::key(r.below(50) as u64).sign(u, id));
            c.event("large values");
        }
    }
    c.stage("transactions");
    for i in 0..n {
        if !c.within(0.97) {
            break;
        }
        let r = &mut c.rng.fork();
        let s = gen::signed(r);
        judge(c, "UnverifiedTransaction", &s.transaction, &|x| x.rlp_bytes().to_vec(), &|b| rlp::decode(b).map_err(|e| e.to_string()));
        rlp_case(c, "SignedTransaction", s);
        let k = i % 4;
        msg_case(c, "msg.BatchSignedTxs", BatchSignedTxs((0..k).map(|_| gen::signed(r)).collect()));
        // CKB-VM verified transactions travel in the same frame
        let kind = r.below(3);
        let (id, u) = (gen::chain_id_for(r, kind), gen::unsigned(r, kind));
        let (sig, pub_key) = gen::interop_sig(r);
        let sender = H160::from_slice(&vlib::oracle::keccak256(&pub_key)[12..]);
        let utx = UnverifiedTransaction { unsigned: u, signature: Some(sig), chain_id: id, hash: H256::zero() }.calc_hash();
        judge(c, "interop.UnverifiedTransaction", &utx, &|x| x.rlp_bytes().to_vec(), &|b| rlp::decode(b).map_err(|e| e.to_string()));
        rlp_case(c, "interop.SignedTransaction", SignedTransaction { transaction: utx, sender, public: Some(Public::zero()) });
    }
    let (n_types, total) = (45, c.count("oracle.judgements"));
    c.note(format!("{n_types} codecs, {total} judgements"));
}

fn r_chain() -> u64 {
    **protocol::lazy::CHAIN_ID.load()
}

// ------------------------------------------------------------------------------------------------ P02

type Dec = (&'static str, fn(&[u8]) -> bool);

macro_rules! rlp_dec {
    ($($n: literal => $t: ty),* $(,)?) => {
        &[$(($n, |b: &[u8]| match rlp::decode::<$t>(b) { Ok(v) => { let _ = rlp::encode(&v); true } Err(_) => false })),*]
    };
}

static RLP_DECODERS: &[Dec] = rlp_dec! {
    "BlockVersion" => BlockVersion, "Proposal" => Proposal, "Header" => Header, "Block" => Block, "ExtraData" => ExtraData,
    "Proof" => Proof, "Receipt" => Receipt, "TxResp" => TxResp, "ExecutorContext" => ExecutorContext, "Hex" => Hex,
    "Address" => Address, "MetadataVersion" => MetadataVersion, "Metadata" => Metadata, "SpecMetadata" => SpecMetadata,
    "MetadataInner" => MetadataInner, "ConsensusConfig" => ConsensusConfig, "ProposeCount" => ProposeCount, "Validator" => Validator,
    "ValidatorExtend" => ValidatorExtend, "ConsensusValidator" => ConsensusValidator, "CkbRelatedInfo" => CkbRelatedInfo,
    "HardforkInfoInner" => HardforkInfoInner, "HardforkInfo" => HardforkInfo, "Script" => Script, "CellWithData" => CellWithData,
    "CellDep" => CellDep, "CellDepWithPubKey" => CellDepWithPubKey, "OutPoint" => OutPoint, "Witness" => Witness,
    "SignatureS" => SignatureS, "UnverifiedTransaction" => UnverifiedTransaction, "SignedTransaction" => SignedTransaction,
    "tools.Header" => at::Header, "tools.Block" => at::Block, "tools.Proof" => at::Proof,
};

/// What a peer or a client can make the node do with bytes it claims to be a transaction.
fn raw_tx(b: &[u8]) -> bool {
    let Ok(u) = <UnverifiedTransaction as ProtocolCodec>::decode(b) else { return false };
    let _ = u.check_hash();
    let _ = u.unsigned.may_cost();
    let _ = u.recover_public(true);
    match SignedTransaction::from_unverified(u) {
        Ok(s) => {
            let _ = s.encode();
            true
        }
        Err(_) => false,
    }
}

static MSG_DECODERS: &[Dec] = &[
    ("raw transaction", raw_tx),
    ("msg.BatchSignedTxs", |b| BatchSignedTxs::decode_msg(Bytes::copy_from_slice(b)).is_ok()),
    ("msg.BatchBlocks", |b| BatchBlocks::decode_msg(Bytes::copy_from_slice(b)).is_ok()),
    ("msg.Proof", |b| Proof::decode_msg(Bytes::copy_from_slice(b)).is_ok()),
    ("overlord.Proposal", |b| <Proposal as overlord::Codec>::decode(Bytes::copy_from_slice(b)).is_ok()),
    ("DBBytes", |b| DBBytes::decode(b).is_ok()),
];

fn valid(r: &mut Rng) -> Vec<u8> {
    let chain = r_chain();
    match r.below(22) {
        0 => rlp::encode(&gen::proposal(r, chain, 1)).to_vec(),
        1 => rlp::encode(&gen::header(r)).to_vec(),
        2 => rlp::encode(&gen::block(r)).to_vec(),
        3 => rlp::encode(&gen::proof(r)).to_vec(),
        4 => rlp::encode(&gen::receipt(r)).to_vec(),
        5 => {
            let t = gen::tx_resp(r);
            guard(|| rlp::encode(&t).to_vec()).unwrap_or_default()
        }
        6 => rlp::encode(&gen::exec_ctx(r)).to_vec(),
        7 => rlp::encode(&gen::metadata(r)).to_vec(),
        8 => rlp::encode(&gen::validator_extend(r)).to_vec(),
        9 => rlp::encode(&HardforkInfo { inner: gen::vec(r, 4, gen::hardfork_inner) }).to_vec(),
        10 => rlp::encode(&gen::script(r)).to_vec(),
        11 => rlp::encode(&SignatureS { witnesses: gen::vec(r, 3, gen::witness) }).to_vec(),
        12 => rlp::encode(&gen::ckb_info(r)).to_vec(),
        13 => rlp::encode(&gen::hex(r, 60)).to_vec(),
        14 => rlp::encode_list::<SignedTransaction, _>(&gen::vec(r, 2, gen::signed)).to_vec(),
        15 => rlp::encode_list::<Block, _>(&gen::vec(r, 2, gen::block)).to_vec(),
        16 => {
            let kind = r.below(3);
            let (u, id) = (gen::unsigned(r, kind), gen::chain_id_for(r, kind));
            let (sig, _) = gen::interop_sig(r);
            UnverifiedTransaction { unsigned: u, signature: Some(sig), chain_id: id, hash: H256::zero() }.rlp_bytes().to_vec()
        }
        17 => hostile_sig_tx(r),
        18 => rlp::encode(&gen::signed(r)).to_vec(),
        _ => gen::signed(r).transaction.rlp_bytes().to_vec(),
    }
}

/// A well-formed transaction frame around an arbitrary signature.
fn hostile_sig_tx(r: &mut Rng) -> Vec<u8> {
    let (kind, rr, ss) = (r.below(3), R::b(r.edge_bytes(100)), R::b(r.edge_bytes(100)));
    let mut f = vec![R::u(r.edge_u64()), R::u(r.edge_u64()), R::u(r.edge_u64()), R::b(r.arr::<20>()), R::u(r.edge_u64()), R::b(r.edge_bytes(40))];
    let v = *r.pick(&[0, 1, 2, 3, 4, 26, 27, 28, 29, 34, 35, 36, 37, 255, 256, u64::MAX, u64::MAX - 1]);
    match kind {
        0 => {
            f.extend([R::u(v), rr, ss]);
            R::L(f).enc()
        }
        k => {
            f.insert(0, R::u(r.edge_u64()));
            if k == 2 {
                f.insert(2, R::u(r.edge_u64()));
            }
            f.extend([R::L(vec![]), R::u(v % 256), rr, ss]);
            let mut t = vec![k as u8];
            t.extend(R::L(f).enc());
            t
        }
    }
}

fn judge_total(c: &mut Ctx, name: &str, input: &[u8], shown: String, f: impl FnOnce() -> bool) {
    let out = guard(f);
    c.event("decoder.calls");
    if matches!(out, Ok(true)) {
        c.event("decoder.accepted");
    }
    c.seen(name, input);
    let key = match &out {
        Err(p) => format!("{name}/panic: {}", p.msg.chars().filter(|x| x.is_ascii_alphabetic() || *x == ' ').take(60).collect::<String>()),
        Ok(_) => String::new(),
    };
    c.ensure(out.is_ok(), &key, || {
        let p = out.err().unwrap();
        (format!("{name}: hostile input of {} bytes makes the decoder panic: {} at {}", input.len(), p.msg, p.loc), json!({"input": shown}))
    });
}

pub fn p02(c: &mut Ctx) {
    let all: Vec<&Dec> = RLP_DECODERS.iter().chain(MSG_DECODERS.iter()).collect();
    c.stage("short");
    // every string of up to two bytes, to every decoder
    let mut short: Vec<Vec<u8>> = vec![vec![]];
    short.extend((0..=255u8).map(|b| vec![b]));
    short.extend((0..=255u8).flat_map(|a| [0u8, 1, 0x37, 0x7f, 0x80, 0x81, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff].map(|b| vec![a, b])));
    short.extend((0..=255u8).map(|a| vec![a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]));
    for b in &short {
        for (n, f) in &all {
            judge_total(c, n, b, hex(b), || f(b));
        }
    }
    c.stage("mutated");
    let n = c.scale(4000, 400_000);
    for i in 0..n {
        if i % 64 == 0 && !c.within(0.8) {
            break;
        }
        let mut r = c.rng.fork();
        let v = valid(&mut r);
        let m = match r.below(5) {
            0 => v,
            1 | 2 => gen::mutate_rlp(&mut r, &v),
            3 => {
                let x = gen::mutate_rlp(&mut r, &v);
                gen::mutate(&mut r, &x)
            }
            _ => gen::mutate(&mut r, &v),
        };
        // the frame a network message puts around a transaction
        let wrapped = [R::L(vec![R::b(&m)]).enc(), R::b(&m).enc()];
        for (n, f) in &all {
            judge_total(c, n, &m, hex(&m), || f(&m));
        }
        for w in &wrapped {
            for (n, f) in MSG_DECODERS {
                judge_total(c, n, w, hex(w), || f(w));
            }
            judge_total(c, "SignedTransaction", w, hex(w), || rlp::decode::<SignedTransaction>(w).is_ok());
        }
    }
    c.stage("text");
    let n = c.scale(3000, 200_000);
    for i in 0..n {
        if i % 64 == 0 && !c.within(0.95) {
            break;
        }
        let mut r = c.rng.fork();
        let s = crate_text(&mut r);
        let b = s.as_bytes().to_vec();
        let j = serde_json::to_string(&s).unwrap();
        judge_total(c, "Hex::from_str", &b, s.clone(), || s.parse::<Hex>().is_ok());
        judge_total(c, "Address::from_hex", &b, s.clone(), || Address::from_hex(&s).is_ok());
        judge_total(c, "Address::from_str", &b, s.clone(), || s.parse::<Address>().is_ok());
        judge_total(c, "hex_decode", &b, s.clone(), || protocol::codec::hex_decode(&s).is_ok());
        judge_total(c, "decode_256bits_key", &b, s.clone(), || protocol::codec::decode_256bits_key(&s).is_ok());
        judge_total(c, "tools.hex_decode", &b, s.clone(), || axon_tools::hex::hex_decode(&s).is_ok());
        judge_total(c, "tools.Hex::from_str", &b, s.clone(), || s.parse::<at::Hex>().is_ok());
        judge_total(c, "Version::from_str", &b, s.clone(), || s.parse::<common_version::Version>().is_ok());
        judge_total(c, "json.Hex", &b, s.clone(), || serde_json::from_str::<Hex>(&j).is_ok());
        judge_total(c, "json.Address", &b, s.clone(), || serde_json::from_str::<Address>(&j).is_ok());
        let doc = format!(r#"{{"number":{j},"round":{j},"proposal_hash":"0x{}","signature":"0x","bitmap":"0x"}}"#, "00".repeat(32));
        judge_total(c, "json.tools.Proof", &b, doc.clone(), || serde_json::from_str::<at::Proof>(&doc).is_ok());
        let doc = format!(r#"{{"bls_pub_key":{j},"pub_key":{j},"address":"0x{}","propose_weight":{j},"vote_weight":{j}}}"#, "00".repeat(20));
        judge_total(c, "json.tools.ValidatorExtend", &b, doc.clone(), || {
            serde_json::from_str::<at::ValidatorExtend>(&doc).map(|v| format!("{v:?}")).is_ok()
        });
        let doc = format!(r#"{{"bls_pub_key":"0x","pub_key":"0x","address":"0x{}","propose_weight":{j},"vote_weight":"0x1"}}"#, "00".repeat(20));
        judge_total(c, "json.tools.ValidatorExtend", &b, doc.clone(), || serde_json::from_str::<at::ValidatorExtend>(&doc).is_ok());
    }
}

/// Strings around what the hexadecimal forms accept.
pub fn crate_text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 => {}
        1 => s.push_str("0X"),
        2 => s.push_str("0x0x"),
        _ => s.push_str("0x"),
    }
    let n = *r.pick(&[0, 1, 2, 3, 8, 15, 16, 17, 39, 40, 41, 63, 64, 65, 66, 67, 80, 130]);
    let alphabet: &[&str] = match r.below(5) {
        0 => &["0", "f", "é", "€", "g", "Z"],
        1 => &["0", "1", "2", "3", "9", "A", "B", "F", "a", "b", "f"],
        2 => &["0", "+", "-", "_", " ", "x", "X"],
        _ => &["0", "1", "7", "8", "9", "a", "c", "d", "e", "f"],
    };
    for _ in 0..n {
        s.push_str(*r.pick(alphabet));
    }
    if r.chance(1, 8) {
        s.insert_str(0, *r.pick(&["é", "€", "0", "\u{10FFFF}"]));
    }
    if r.chance(1, 6) {
        s.push_str(*r.pick(&["é", "€", ".", "+", "g"]));
    }
    s
}
