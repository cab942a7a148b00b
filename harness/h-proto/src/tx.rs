//! P03: a transaction's identity. Oracle: an independent RLP/keccak/ECDSA reading of EIP-155, 2718, 2930 and 1559.
use gen::{eth_encode, key};
use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
use k256::elliptic_curve::ops::Neg;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::Encodable;
use vlib::oracle::{keccak256, R};
use vlib::{guard, hex, json, Ctx};

/// Address of whoever signed `h`; high-s signatures are brought to their low form, which belongs to the same key.
pub fn recover(h: &[u8; 32], v: u8, r: &[u8; 32], s: &[u8; 32]) -> Option<H160> {
    if v > 3 {
        return None;
    }
    let mut sig = Signature::from_scalars(*r, *s).ok()?;
    let mut odd = v & 1 == 1;
    if let Some(n) = sig.normalize_s() {
        sig = n;
        odd = !odd;
    }
    let key = VerifyingKey::recover_from_prehash(h, &sig, RecoveryId::new(odd, v & 2 == 2)).ok()?;
    Some(H160::from_slice(&keccak256(&key.to_encoded_point(false).as_bytes()[1..])[12..]))
}

fn pad(b: &[u8]) -> [u8; 32] {
    let mut x = [0u8; 32];
    x[32 - b.len().min(32)..].copy_from_slice(&b[..b.len().min(32)]);
    x
}

/// Everything the node concludes from raw bytes, or None when it refuses them.
fn node_view(raw: &[u8]) -> Option<SignedTransaction> {
    let u = <UnverifiedTransaction as ProtocolCodec>::decode(raw).ok()?;
    u.check_hash().ok()?;
    SignedTransaction::from_unverified(u).ok()
}

fn judge_accepted(c: &mut Ctx, raw: &[u8], s: &SignedTransaction, origin: &str) {
    let t = &s.transaction;
    let sig = t.signature.as_ref().unwrap();
    c.ensure(t.hash.0 == keccak256(raw), "hash", || {
        (format!("{origin}: the accepted transaction's hash is not keccak of its bytes"), json!({"raw": hex(raw), "hash": format!("{:x}", t.hash)}))
    });
    if !sig.is_eth_sig() {
        return;
    }
    let (r, s_) = (pad(&sig.r), pad(&sig.s));
    let canonical = eth_encode(&t.unsigned, t.chain_id, Some((sig.standard_v, r, s_)));
    c.ensure(canonical == raw, "non-canonical", || {
        (format!("{origin}: bytes that are not the canonical encoding of their own fields are accepted"), json!({"raw": hex(raw), "canonical": hex(&canonical)}))
    });
    let h = keccak256(&eth_encode(&t.unsigned, t.chain_id, None));
    c.ensure(t.signature_hash(true).0 == h, "signing-hash", || {
        (format!("{origin}: the signing hash departs from the EIPs"), json!({"raw": hex(raw)}))
    });
    let want = recover(&h, sig.standard_v, &r, &s_);
    c.ensure(want == Some(s.sender), "sender", || {
        (format!("{origin}: sender {:?} but the signature belongs to {want:?}", s.sender), json!({"raw": hex(raw)}))
    });
}

pub fn p03(c: &mut Ctx) {
    c.stage("honest");
    let n = c.scale(1500, 60_000);
    let mut corpus = vec![];
    for i in 0..n {
        if !c.within(0.45) {
            break;
        }
        let mut r = c.rng.fork();
        let (k, kind) = (key(r.below(200) as u64), (i % 3) as usize);
        let (u, id) = (gen::unsigned(&mut r, kind), gen::chain_id_for(&mut r, kind));
        let (raw, h, sig) = k.sign_raw(&u, id);
        let got = guard(|| node_view(&raw));
        c.event(["legacy", "eip2930", "eip1559"][kind]);
        c.seen("tx", &raw);
        let ok = matches!(&got, Ok(Some(s)) if s.transaction.unsigned == u && s.transaction.chain_id == id && s.sender == k.addr
            && s.transaction.hash.0 == h && s.public.map(|p| p.0) == Some(k.public));
        if !c.ensure(ok, "honest", || {
            ("a correctly signed transaction is not read back as signed".into(), json!({"raw": hex(&raw), "sender": format!("{:?}", k.addr), "got": format!("{got:?}").chars().take(1500).collect::<String>()}))
        }) {
            continue;
        }
        let s = got.unwrap().unwrap();
        judge_accepted(c, &raw, &s, "honest");
        let ours = k.sign(u.clone(), id);
        c.ensure(s == ours, "fields", || ("decoded transaction differs from the signed one".into(), json!({"raw": hex(&raw)})));
        c.ensure(s.transaction.rlp_bytes()[..] == raw[..], "re-encode", || ("re-encoding changes the bytes".into(), json!({"raw": hex(&raw)})));
        c.ensure(s.type_() == kind as u64 && s.is_eip155() == id.is_some(), "type", || ("wrong transaction type".into(), json!({"raw": hex(&raw)})));
        // the unsigned view that the pool and the executor price by
        let price = match &u {
            UnsignedTransaction::Eip1559(t) => t.gas_price.max(t.max_priority_fee_per_gas),
            UnsignedTransaction::Eip2930(t) => t.gas_price,
            UnsignedTransaction::Legacy(t) => t.gas_price,
        };
        let cost = (U256::from(price.as_u64()) * U256::from(u.gas_limit().as_u64())).checked_add(*u.value()).unwrap_or(U256::MAX);
        c.ensure(u.gas_price() == price && u.may_cost().ok() == Some(cost), "may-cost", || {
            (format!("may_cost is {:?}, not {cost}", u.may_cost().ok()), json!({"raw": hex(&raw)}))
        });
        // gossip: the frame must carry the same transaction
        let wire = rlp::encode(&s);
        c.ensure(rlp::decode::<SignedTransaction>(&wire).ok().as_ref() == Some(&s), "gossip", || ("gossip frame changes the transaction".into(), json!({"raw": hex(&raw)})));
        // a wrong claimed hash is noticed
        let mut forged = s.transaction.clone();
        forged.hash.0[r.below(32)] ^= 1 << r.below(8);
        c.ensure(forged.check_hash().is_err(), "hash-forgery", || ("check_hash accepts a wrong hash".into(), json!({"raw": hex(&raw)})));
        // chain and parity binding
        let other = id.map(|x| x ^ (1 << r.below(20))).or(Some(1));
        let moved = eth_encode(&u, other, Some(sig));
        if let Ok(Some(m)) = guard(|| node_view(&moved)) {
            c.event("replayed.on-other-chain");
            c.ensure(m.sender != k.addr, "chain-binding", || {
                (format!("a transaction signed for chain {id:?} keeps its sender on chain {other:?}"), json!({"raw": hex(&moved)}))
            });
            judge_accepted(c, &moved, &m, "other chain");
        }
        let flipped = eth_encode(&u, id, Some((sig.0 ^ 1, sig.1, sig.2)));
        if let Ok(Some(m)) = guard(|| node_view(&flipped)) {
            c.ensure(m.sender != k.addr, "parity", || ("flipping the signature parity keeps the sender".into(), json!({"raw": hex(&flipped)})));
            judge_accepted(c, &flipped, &m, "parity");
        }
        // malleated: same key, other bytes; whatever is accepted keeps hash = keccak(bytes)
        let neg: [u8; 32] = {
            let s = Signature::from_scalars(sig.1, sig.2).unwrap();
            let n = s.s().as_ref().neg();
            n.to_bytes().into()
        };
        let mall = eth_encode(&u, id, Some((sig.0 ^ 1, sig.1, neg)));
        if let Ok(Some(m)) = guard(|| node_view(&mall)) {
            c.event("malleated.decoded");
            judge_accepted(c, &mall, &m, "malleated");
        }
        if corpus.len() < 400 {
            corpus.push((raw, k.addr, u, id));
        }
    }
    c.sample(json!({"raw": corpus.first().map(|x| hex(&x.0)), "sender": corpus.first().map(|x| format!("{:?}", x.1))}));

    c.stage("tampered");
    let n = c.scale(25_000, 1_500_000);
    for i in 0..n {
        if i % 256 == 0 && !c.within(0.85) {
            break;
        }
        let mut r = c.rng.fork();
        let (raw, from, u, id) = r.pick(&corpus).clone();
        let m = if r.bool() { gen::mutate_rlp(&mut r, &raw) } else { gen::mutate(&mut r, &raw) };
        if m == raw {
            continue;
        }
        c.event("tampered");
        let got = guard(|| node_view(&m));
        if let Ok(Some(s)) = got {
            c.event("tampered.accepted");
            c.seen("tampered", &m);
            judge_accepted(c, &m, &s, "tampered");
            let changed = s.transaction.unsigned != u || s.transaction.chain_id != id;
            c.ensure(!(changed && s.sender == from), "authenticity", || {
                ("changed transaction contents still recover to the original sender".into(), json!({"raw": hex(&raw), "tampered": hex(&m)}))
            });
        }
    }

    c.stage("interoperation");
    let n = c.scale(1500, 40_000);
    for _ in 0..n {
        if !c.within(0.95) {
            break;
        }
        let mut r = c.rng.fork();
        let kind = r.below(3);
        let (u, id) = (gen::unsigned(&mut r, kind), gen::chain_id_for(&mut r, kind));
        let (sig, pub_key) = gen::interop_sig(&mut r);
        let want = H160::from_slice(&keccak256(&pub_key)[12..]);
        let utx = UnverifiedTransaction { unsigned: u, signature: Some(sig.clone()), chain_id: id, hash: H256::zero() }.calc_hash();
        let raw = utx.rlp_bytes().to_vec();
        let got = guard(|| node_view(&raw));
        c.event("interoperation");
        c.seen("interop", &raw);
        let ok = matches!(&got, Ok(Some(s)) if s.sender == want && s.transaction == utx && s.transaction.hash.0 == keccak256(&raw)
            && !s.transaction.signature.as_ref().unwrap().is_eth_sig());
        c.ensure(ok, "interoperation", || {
            ("an interoperation transaction does not belong to the hash of its public key".into(), json!({"raw": hex(&raw), "want": format!("{want:?}"), "got": format!("{got:?}").chars().take(800).collect::<String>()}))
        });
        // only the CKB-VM form of r (leading zero) names a sender
        let mut bad = sig;
        let mut rr = bad.r.to_vec();
        rr[0] = r.range(1, 255) as u8;
        bad.r = rr.into();
        let u2 = UnverifiedTransaction { signature: Some(bad), ..utx };
        let got = guard(|| SignedTransaction::from_unverified(u2).is_ok());
        c.ensure(matches!(got, Ok(false)), "interop-type", || ("an unknown interoperation signature type is accepted".into(), json!({"raw": hex(&raw)})));
    }
    c.stage("v");
    // every legacy v: what it says about parity and chain
    for v in (0..600u64).chain((0..40).map(|i| u64::MAX - i)).chain((0..63).map(|i| 1u64 << i)) {
        let want = match v {
            27 | 28 => Some((v - 27, None)),
            v if v >= 35 => Some(((v - 35) % 2, Some((v - 35) / 2))),
            _ => None,
        };
        let f = vec![R::u(1), R::u(2), R::u(3), R::b([7u8; 20]), R::u(5), R::b([]), R::u(v), R::be(&[1u8; 32]), R::be(&[2u8; 32])];
        let raw = R::L(f).enc();
        let got = guard(|| <UnverifiedTransaction as ProtocolCodec>::decode(&raw).ok().map(|u| {
            let back = u.rlp_bytes().to_vec();
            (u.signature.unwrap().standard_v as u64, u.chain_id, back)
        }));
        c.event("legacy-v");
        let ok = match (&got, want) {
            (Ok(Some((p, id, back))), Some(w)) => (*p, *id) == w && *back == raw,
            (Ok(None), None) => true,
            _ => false,
        };
        c.ensure(ok, "legacy-v", || (format!("legacy v={v} is read as {got:?}, EIP-155 says {want:?}"), json!({"raw": hex(&raw)})));
    }
}
