//! Generators for the repository's protocol types, and an independent view of transactions (encoding, hashes,
//! signing) written from EIP-155/2718/2930/1559.
pub mod abi;
pub mod riscv;

use k256::ecdsa::SigningKey;
use protocol::types::*;
use vlib::oracle::{keccak256, R};
use vlib::Rng;

pub fn h256(r: &mut Rng) -> H256 {
    match r.below(6) {
        0 => H256::zero(),
        1 => H256::from_low_u64_be(r.u64()),
        _ => H256(r.arr()),
    }
}
pub fn h160(r: &mut Rng) -> H160 {
    match r.below(8) {
        0 => H160::zero(),
        1 => H160::from_low_u64_be(r.below(64) as u64),
        _ => H160(r.arr()),
    }
}
pub fn u256(r: &mut Rng) -> U256 {
    match r.below(5) {
        0 => U256::from(r.edge_u64()),
        1 => U256::MAX - U256::from(r.edge_u64()),
        2 => U256::one() << r.below(256),
        3 => U256::from_big_endian(&r.arr::<32>()) >> r.below(256),
        _ => U256::from_big_endian(&r.arr::<32>()),
    }
}
pub fn u64_(r: &mut Rng) -> U64 {
    U64::from(r.edge_u64())
}
pub fn bytes(r: &mut Rng, max: usize) -> Bytes {
    Bytes::from(r.edge_bytes(max))
}
pub fn hex(r: &mut Rng, max: usize) -> Hex {
    Hex::encode(r.edge_bytes(max))
}
pub fn vec<T>(r: &mut Rng, max: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(1, 12) { r.below(max * 8 + 1) } else { r.below(max + 1) };
    (0..n).map(|_| f(r)).collect()
}
pub fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    r.bool().then(|| f(r))
}
pub fn bloom(r: &mut Rng) -> Bloom {
    if r.chance(1, 4) {
        Bloom::zero()
    } else {
        Bloom(r.arr())
    }
}
pub fn log(r: &mut Rng) -> Log {
    Log { address: h160(r), topics: { let n = r.below(5); (0..n).map(|_| h256(r)).collect() }, data: r.edge_bytes(100) }
}
pub fn extra(r: &mut Rng) -> ExtraData {
    ExtraData { inner: bytes(r, 80) }
}
pub fn proof(r: &mut Rng) -> Proof {
    Proof { number: r.edge_u64(), round: r.edge_u64(), block_hash: h256(r), signature: bytes(r, 200), bitmap: bytes(r, 40) }
}
/// chain id and base fee are process-wide constants that the encoding leaves out
pub fn proposal(r: &mut Rng, chain_id: u64, base_fee: u64) -> Proposal {
    Proposal {
        version: BlockVersion::V0,
        prev_hash: h256(r),
        proposer: h160(r),
        prev_state_root: h256(r),
        transactions_root: h256(r),
        signed_txs_hash: h256(r),
        timestamp: r.edge_u64(),
        number: r.edge_u64(),
        gas_limit: u64_(r),
        extra_data: vec(r, 3, extra),
        base_fee_per_gas: base_fee.into(),
        proof: proof(r),
        chain_id,
        call_system_script_count: r.edge_u64() as u32,
        tx_hashes: vec(r, 6, h256),
    }
}
pub fn header(r: &mut Rng) -> Header {
    Header {
        version: BlockVersion::V0,
        prev_hash: h256(r),
        proposer: h160(r),
        state_root: h256(r),
        transactions_root: h256(r),
        signed_txs_hash: h256(r),
        receipts_root: h256(r),
        log_bloom: bloom(r),
        timestamp: r.edge_u64(),
        number: r.edge_u64(),
        gas_used: u64_(r),
        gas_limit: u64_(r),
        extra_data: vec(r, 3, extra),
        base_fee_per_gas: u64_(r),
        proof: proof(r),
        call_system_script_count: r.edge_u64() as u32,
        chain_id: r.edge_u64(),
    }
}
pub fn block(r: &mut Rng) -> Block {
    Block { header: header(r), tx_hashes: vec(r, 6, h256) }
}
pub fn exit_reason(r: &mut Rng) -> ExitReason {
    use protocol::types::executor::{ExitError as E, ExitFatal as F, ExitReason as X, ExitSucceed as S};
    match r.below(12) {
        0 => X::Succeed(S::Stopped),
        1 => X::Succeed(S::Returned),
        2 => X::Succeed(S::Suicided),
        3 => X::Revert(ExitRevert::Reverted),
        4 => X::Error(E::OutOfGas),
        5 => X::Error(E::StackUnderflow),
        6 => X::Error(E::InvalidJump),
        7 => X::Error(E::CallTooDeep),
        8 => X::Error(E::Other("custom failure".into())),
        9 => X::Error(E::OutOfFund),
        10 => X::Fatal(F::NotSupported),
        _ => X::Fatal(F::CallErrorAsFatal(E::CreateCollision)),
    }
}
pub fn receipt(r: &mut Rng) -> Receipt {
    Receipt {
        tx_hash: h256(r),
        block_number: r.edge_u64(),
        block_hash: h256(r),
        tx_index: r.edge_u64() as u32,
        state_root: h256(r),
        used_gas: u64_(r),
        logs_bloom: bloom(r),
        logs: vec(r, 4, log),
        log_index: r.edge_u64() as u32,
        code_address: opt(r, h256),
        sender: h160(r),
        ret: exit_reason(r),
        removed: r.bool(),
    }
}
pub fn tx_resp(r: &mut Rng) -> TxResp {
    TxResp {
        exit_reason: exit_reason(r),
        ret: r.edge_bytes(80),
        gas_used: r.edge_u64(),
        remain_gas: r.edge_u64(),
        fee_cost: u256(r),
        logs: vec(r, 3, log),
        code_address: opt(r, h256),
        removed: r.bool(),
    }
}
pub fn access_list(r: &mut Rng) -> AccessList {
    vec(r, 2, |r| AccessListItem { address: h160(r), storage_keys: vec(r, 3, h256) })
}
pub fn action(r: &mut Rng) -> TransactionAction {
    if r.chance(1, 4) {
        TransactionAction::Create
    } else {
        TransactionAction::Call(h160(r))
    }
}
pub fn unsigned(r: &mut Rng, kind: usize) -> UnsignedTransaction {
    let (nonce, gas_price, gas_limit, action, value, data) =
        (u64_(r), u64_(r), u64_(r), action(r), u256(r), bytes(r, 300));
    match kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce, gas_price, gas_limit, action, value, data, access_list: access_list(r),
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce, max_priority_fee_per_gas: u64_(r), gas_price, gas_limit, action, value, data,
            access_list: access_list(r),
        }),
    }
}
/// legacy transactions may leave the chain id out
pub fn chain_id_for(r: &mut Rng, kind: usize) -> Option<u64> {
    if kind == 0 {
        // v = 2 * id + 35 (+1) has to fit 64 bits
        r.chance(3, 4).then(|| r.edge_u64() % ((u64::MAX - 36) / 2 + 1))
    } else {
        Some(r.edge_u64())
    }
}

// ---- independent transaction semantics

fn r_action(a: &TransactionAction) -> R {
    match a {
        TransactionAction::Call(x) => R::b(x.0),
        TransactionAction::Create => R::B(vec![]),
    }
}
pub fn r_u256(x: &U256) -> R {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    R::be(&b)
}
fn r_access(l: &AccessList) -> R {
    R::L(l.iter().map(|i| R::L(vec![R::b(i.address.0), R::L(i.storage_keys.iter().map(|k| R::b(k.0)).collect())])).collect())
}

/// The bytes Ethereum signs (`sig` = None) or broadcasts, per EIP-155 / 2930 / 1559.
pub fn eth_encode(u: &UnsignedTransaction, chain_id: Option<u64>, sig: Option<(u8, [u8; 32], [u8; 32])>) -> Vec<u8> {
    let rs = |v: &mut Vec<R>, r: &[u8; 32], s: &[u8; 32]| {
        v.push(R::be(r));
        v.push(R::be(s));
    };
    match u {
        UnsignedTransaction::Legacy(t) => {
            let mut l = vec![
                R::u(t.nonce.as_u64()), R::u(t.gas_price.as_u64()), R::u(t.gas_limit.as_u64()), r_action(&t.action),
                r_u256(&t.value), R::b(&t.data),
            ];
            match (sig, chain_id) {
                (Some((p, r, s)), c) => {
                    l.push(R::u(p as u64 + c.map(|c| 35 + 2 * c).unwrap_or(27)));
                    rs(&mut l, &r, &s);
                }
                (None, Some(c)) => l.extend([R::u(c), R::B(vec![]), R::B(vec![])]),
                _ => {}
            }
            R::L(l).enc()
        }
        UnsignedTransaction::Eip2930(t) => {
            let mut l = vec![
                R::u(chain_id.unwrap_or(0)), R::u(t.nonce.as_u64()), R::u(t.gas_price.as_u64()),
                R::u(t.gas_limit.as_u64()), r_action(&t.action), r_u256(&t.value), R::b(&t.data),
                r_access(&t.access_list),
            ];
            if let Some((p, r, s)) = sig {
                l.push(R::u(p as u64));
                rs(&mut l, &r, &s);
            }
            [vec![1u8], R::L(l).enc()].concat()
        }
        UnsignedTransaction::Eip1559(t) => {
            let mut l = vec![
                R::u(chain_id.unwrap_or(0)), R::u(t.nonce.as_u64()), R::u(t.max_priority_fee_per_gas.as_u64()),
                R::u(t.gas_price.as_u64()), R::u(t.gas_limit.as_u64()), r_action(&t.action), r_u256(&t.value),
                R::b(&t.data), r_access(&t.access_list),
            ];
            if let Some((p, r, s)) = sig {
                l.push(R::u(p as u64));
                rs(&mut l, &r, &s);
            }
            [vec![2u8], R::L(l).enc()].concat()
        }
    }
}

#[derive(Clone)]
pub struct Key {
    pub sk: SigningKey,
    pub addr: H160,
    /// uncompressed point without its tag
    pub public: [u8; 64],
}

pub fn key(seed: u64) -> Key {
    let mut b = keccak256(&[&b"key"[..], &seed.to_be_bytes()].concat());
    b[0] = 1;
    let sk = SigningKey::from_slice(&b).unwrap();
    let p = sk.verifying_key().to_encoded_point(false);
    let public: [u8; 64] = p.as_bytes()[1..65].try_into().unwrap();
    Key { sk, addr: H160::from_slice(&keccak256(&public)[12..]), public }
}

impl Key {
    pub fn sign_hash(&self, h: &[u8; 32]) -> (u8, [u8; 32], [u8; 32]) {
        let (s, v) = self.sk.sign_prehash_recoverable(h).unwrap();
        let b = s.to_bytes();
        (v.to_byte(), b[..32].try_into().unwrap(), b[32..].try_into().unwrap())
    }
    /// (raw network bytes, hash, signature)
    pub fn sign_raw(&self, u: &UnsignedTransaction, chain_id: Option<u64>) -> (Vec<u8>, [u8; 32], (u8, [u8; 32], [u8; 32])) {
        let sig = self.sign_hash(&keccak256(&eth_encode(u, chain_id, None)));
        let raw = eth_encode(u, chain_id, Some(sig));
        let h = keccak256(&raw);
        (raw, h, sig)
    }
    /// The repository's own representation of a transaction signed by this key.
    pub fn sign(&self, u: UnsignedTransaction, chain_id: Option<u64>) -> SignedTransaction {
        let (_, hash, (v, r, s)) = self.sign_raw(&u, chain_id);
        SignedTransaction {
            transaction: UnverifiedTransaction {
                unsigned: u,
                signature: Some(SignatureComponents { r: Bytes::from(r.to_vec()), s: Bytes::from(s.to_vec()), standard_v: v }),
                chain_id,
                hash: H256(hash),
            },
            sender: self.addr,
            public: Some(Public::from_slice(&self.public)),
        }
    }
}

pub fn signed(r: &mut Rng) -> SignedTransaction {
    let k = key(r.below(50) as u64);
    let kind = r.below(3);
    let c = chain_id_for(r, kind);
    let u = unsigned(r, kind);
    k.sign(u, c)
}

/// An interoperation (CKB-VM verified) signature, longer than the 64 bytes an Ethereum one has: r = 0x00 ++ rlp(cell dep with public key), s = rlp(witnesses).
pub fn interop_sig(r: &mut Rng) -> (SignatureComponents, Bytes) {
    // one in four is as short as one can be while still being told from an Ethereum signature by its length
    let short = r.below(4) == 0;
    let pub_key = Bytes::from({ let n = if short { r.range(23, 36) } else { r.range(32, 80) } as usize; r.bytes(n) });
    let dep = R::L(vec![
        R::L(vec![R::b(r.arr::<32>()), R::u(r.below(5) as u64), R::u(r.below(2) as u64)]),
        R::b(&pub_key),
    ]);
    let some = |b: Vec<u8>| R::L(vec![R::b(b)]);
    let none = || R::L(vec![]);
    let wits = vec(r, if short { 0 } else { 2 }, |r| {
        R::L((0..3).map(|_| if r.bool() { some(r.edge_bytes(70)) } else { none() }).collect())
    });
    let rr = [vec![0u8], dep.enc()].concat();
    let s = R::L(vec![R::L(wits)]).enc();
    (SignatureComponents { r: rr.into(), s: s.into(), standard_v: r.below(2) as u8 }, pub_key)
}

pub fn metadata_version(r: &mut Rng) -> MetadataVersion {
    MetadataVersion { start: r.edge_u64(), end: r.edge_u64() }
}
pub fn validator_extend(r: &mut Rng) -> ValidatorExtend {
    ValidatorExtend {
        bls_pub_key: hex(r, 48), pub_key: hex(r, 33), address: h160(r),
        propose_weight: r.edge_u64() as u32, vote_weight: r.edge_u64() as u32,
    }
}
pub fn validator(r: &mut Rng) -> Validator {
    Validator {
        bls_pub_key: hex(r, 48), pub_key: hex(r, 33),
        propose_weight: r.edge_u64() as u32, vote_weight: r.edge_u64() as u32,
    }
}
pub fn propose_count(r: &mut Rng) -> ProposeCount {
    ProposeCount { address: h160(r), count: r.edge_u64() }
}
pub fn consensus_config(r: &mut Rng) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: r.edge_u64(), interval: r.edge_u64(), propose_ratio: r.edge_u64(), prevote_ratio: r.edge_u64(),
        precommit_ratio: r.edge_u64(), brake_ratio: r.edge_u64(), tx_num_limit: r.edge_u64(),
        max_tx_size: r.edge_u64(), max_contract_limit: r.edge_u64(),
    }
}
pub fn metadata(r: &mut Rng) -> Metadata {
    Metadata {
        version: metadata_version(r), epoch: r.edge_u64(), verifier_list: vec(r, 4, validator_extend),
        propose_counter: vec(r, 4, propose_count), consensus_config: consensus_config(r),
    }
}
pub fn ckb_info(r: &mut Rng) -> CkbRelatedInfo {
    CkbRelatedInfo {
        metadata_type_id: h256(r), checkpoint_type_id: h256(r), xudt_args: h256(r), stake_smt_type_id: h256(r),
        delegate_smt_type_id: h256(r), reward_smt_type_id: h256(r),
    }
}
pub fn hardfork_inner(r: &mut Rng) -> HardforkInfoInner {
    HardforkInfoInner { block_number: r.edge_u64(), flags: h256(r) }
}
pub fn script(r: &mut Rng) -> Script {
    Script { code_hash: h256(r), args: bytes(r, 60), hash_type: r.below(3) as u8 }
}
pub fn cell_dep(r: &mut Rng) -> CellDep {
    CellDep { tx_hash: h256(r), index: r.edge_u64() as u32, dep_type: r.edge_u64() as u8 }
}
pub fn witness(r: &mut Rng) -> Witness {
    Witness { lock: opt(r, |r| bytes(r, 60)), input_type: opt(r, |r| bytes(r, 60)), output_type: opt(r, |r| bytes(r, 60)) }
}
pub fn exec_ctx(r: &mut Rng) -> ExecutorContext {
    ExecutorContext {
        block_number: u256(r), block_coinbase: h160(r), block_timestamp: u256(r), chain_id: u256(r), origin: h160(r),
        gas_price: u256(r), block_gas_limit: u64_(r), block_base_fee_per_gas: u64_(r), extra_data: vec(r, 3, extra),
    }
}

/// Byte-level corruption of a well-formed encoding.
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        match r.below(9) {
            0 if n > 0 => v.truncate(r.below(n)),
            1 => {
                let k = r.below(6) + 1;
                let x = r.bytes(k);
                v.extend(x)
            }
            2 if n > 0 => v[r.below(n)] ^= 1 << r.below(8),
            3 if n > 0 => v[r.below(n)] = *r.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xa0, 0xa1, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff]),
            4 if n > 0 => {
                v.remove(r.below(n));
            }
            5 => {
                let i = r.below(n + 1);
                v.insert(i, r.u64() as u8)
            }
            6 if n > 1 => {
                let (a, z) = (r.below(n), r.below(n));
                let (a, z) = (a.min(z), a.max(z));
                let s = v[a..z].to_vec();
                let i = r.below(n);
                v.splice(i..i, s);
            }
            7 if n > 0 => v[0] = r.u64() as u8,
            _ if n > 0 => {
                let i = r.below(n.min(10));
                v[i] = r.u64() as u8
            }
            _ => {}
        }
    }
    v
}
/// Mutation that keeps the RLP structure valid and changes one node of the tree.
pub fn mutate_rlp(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let (pre, body): (Vec<u8>, &[u8]) =
        if !b.is_empty() && b[0] < 3 { (vec![b[0]], &b[1..]) } else { (vec![], b) };
    let Some((mut t, _)) = R::dec(body) else { return mutate(r, b) };
    fn go(r: &mut Rng, t: &mut R, depth: usize) {
        if let R::L(l) = t {
            if !l.is_empty() && r.chance(4, 5) && depth < 6 {
                let i = r.below(l.len());
                return go(r, &mut l[i], depth + 1);
            }
        }
        match (r.below(7), &mut *t) {
            (0, R::L(l)) => {
                let x = R::B(r.edge_bytes(40));
                let i = r.below(l.len() + 1);
                l.insert(i, x)
            }
            (1, R::L(l)) if !l.is_empty() => {
                l.remove(r.below(l.len()));
            }
            (2, _) => *t = R::B(vec![]),
            (3, _) => *t = R::L(vec![]),
            (4, R::B(x)) => x.insert(0, 0),
            (5, _) => *t = R::B(r.bytes(33)),
            (_, t) => *t = if r.chance(1, 4) { R::L(vec![R::B(r.edge_bytes(40))]) } else { R::B(r.edge_bytes(70)) },
        }
    }
    go(r, &mut t, 0);
    [pre, t.enc()].concat()
}

// headers and proposals as they are hashed
fn r_proof(p: &Proof) -> R {
    R::L(vec![R::u(p.number), R::u(p.round), R::b(p.block_hash.0), R::b(&p.signature), R::b(&p.bitmap)])
}
fn r_extra(e: &[ExtraData]) -> R {
    R::L(e.iter().map(|e| R::L(vec![R::b(&e.inner)])).collect())
}
pub fn r_header(h: &Header) -> R {
    R::L(vec![
        R::L(vec![R::u(0)]), R::b(h.prev_hash.0), R::b(h.proposer.0), R::b(h.state_root.0), R::b(h.transactions_root.0),
        R::b(h.signed_txs_hash.0), R::b(h.receipts_root.0), R::b(h.log_bloom.0), R::u(h.timestamp), R::u(h.number),
        R::u(h.gas_used.as_u64()), R::u(h.gas_limit.as_u64()), r_extra(&h.extra_data), R::u(h.base_fee_per_gas.as_u64()),
        r_proof(&h.proof), R::u(h.call_system_script_count as u64), R::u(h.chain_id),
    ])
}
pub fn r_proposal(p: &Proposal) -> R {
    R::L(vec![
        R::L(vec![R::u(0)]), R::b(p.prev_hash.0), R::b(p.proposer.0), R::b(p.prev_state_root.0), R::b(p.transactions_root.0),
        R::b(p.signed_txs_hash.0), R::u(p.timestamp), R::u(p.number), R::u(p.gas_limit.as_u64()), r_extra(&p.extra_data),
        r_proof(&p.proof), R::u(p.call_system_script_count as u64), R::L(p.tx_hashes.iter().map(|h| R::b(h.0)).collect()),
    ])
}

/// The uncompressed point (without its tag) of a public key in SEC1 form, if it is one.
pub fn k256_point(sec1: &[u8]) -> Option<Vec<u8>> {
    let p = k256::ecdsa::VerifyingKey::from_sec1_bytes(sec1).ok()?.to_encoded_point(false);
    Some(p.as_bytes()[1..].to_vec())
}

/// The compressed public key of a secret, if it is one.
pub fn k256_secret(secret: &[u8]) -> Option<Vec<u8>> {
    if secret.len() != 32 {
        return None;
    }
    Some(SigningKey::from_slice(secret).ok()?.verifying_key().to_encoded_point(true).as_bytes().to_vec())
}
