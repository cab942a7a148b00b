//! P51: consensus signatures.
use common_crypto::{BlsPrivateKey, BlsPublicKey, ToBlsPublicKey};
use core_consensus::util::{digest_signed_transactions, OverlordCrypto};
use overlord::Crypto;
use protocol::types::*;
use std::collections::HashMap;
use vlib::oracle::keccak256;
use vlib::{guard, hex, json, Ctx, Rng};

pub fn p51(c: &mut Ctx) {
    c.stage("signatures");
    for n in 0..c.scale(30, 4000) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| round(c, n)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"round": n}));
        }
    }
}
struct Member {
    addr: Bytes,
    crypto: OverlordCrypto,
}
fn members(r: &mut Rng, n: usize) -> (Vec<Member>, HashMap<Bytes, BlsPublicKey>) {
    let keys: Vec<(Bytes, Vec<u8>)> = (0..n).map(|_| (Bytes::from(r.bytes(33)), r.arr::<32>().map(|b| b & 0x3f).to_vec())).collect();
    let map: HashMap<Bytes, BlsPublicKey> = keys
        .iter()
        .map(|(a, k)| (a.clone(), BlsPrivateKey::try_from(k.as_ref()).unwrap().pub_key(&String::new())))
        .collect();
    let m = keys
        .into_iter()
        .map(|(addr, k)| Member { addr, crypto: OverlordCrypto::new(BlsPrivateKey::try_from(k.as_ref()).unwrap(), map.clone(), String::new()) })
        .collect();
    (m, map)
}
fn round(c: &mut Ctx, n: u64) {
    let mut r = c.rng.fork();
    let count = r.range(1, 9) as usize;
    let (m, map) = members(&mut r, count);
    let me = &m[0].crypto;
    let msg = Bytes::from(r.edge_bytes(300));
    let hash = me.hash(msg.clone());
    if hash.as_ref() != keccak256(&msg) {
        return c.violate("hash", "not the keccak of the message", json!({"message": hex(&msg)}));
    }
    let sigs: Vec<Bytes> = m.iter().map(|x| x.crypto.sign(hash.clone()).unwrap()).collect();
    c.add("signatures made", sigs.len() as u64);
    let detail = |what: &str| json!({"round": n, "members": count, "what": what});
    for (i, s) in sigs.iter().enumerate() {
        for (j, x) in m.iter().enumerate() {
            let ok = me.verify_signature(s.clone(), hash.clone(), x.addr.clone()).is_ok();
            c.event("signatures checked");
            c.event("oracle.judgements");
            if ok != (i == j) {
                return c.violate("single", format!("signature of {i} as {j}'s: accepted {ok}"), detail("single"));
            }
        }
    }
    // another message, a damaged signature, someone unknown
    let other = me.hash(Bytes::from(r.bytes(20)));
    if me.verify_signature(sigs[0].clone(), other.clone(), m[0].addr.clone()).is_ok() {
        return c.violate("single/other-message", "accepted", detail("other"));
    }
    if me.verify_signature(sigs[0].clone(), hash.clone(), Bytes::from(r.bytes(33))).is_ok() {
        return c.violate("single/stranger", "accepted", detail("stranger"));
    }
    for _ in 0..4 {
        let bad = gen::mutate(&mut r, &sigs[0]);
        if bad.as_slice() != sigs[0].as_ref() && me.verify_signature(bad.clone().into(), hash.clone(), m[0].addr.clone()).is_ok() {
            return c.violate("single/damaged", hex(&bad), detail("damaged"));
        }
        let junk: Bytes = r.edge_bytes(120).into();
        let _ = me.verify_signature(junk.clone(), hash.clone(), m[0].addr.clone());
        let _ = me.verify_signature(sigs[0].clone(), junk.clone(), m[0].addr.clone());
        let _ = me.sign(junk.clone());
        let _ = me.aggregate_signatures(vec![junk.clone()], vec![m[0].addr.clone()]);
        let _ = me.verify_aggregated_signature(junk.clone(), hash.clone(), vec![m[0].addr.clone()]);
        let _ = me.verify_aggregated_signature(junk, hash.clone(), vec![]);
        c.event("garbage survived");
            c.event("oracle.judgements");
    }
    for _ in 0..6 {
        // a subset in some order
        let mut idx: Vec<usize> = (0..count).collect();
        r.shuffle(&mut idx);
        idx.truncate(r.range(1, count as u64) as usize);
        let ss: Vec<Bytes> = idx.iter().map(|i| sigs[*i].clone()).collect();
        let vs: Vec<Bytes> = idx.iter().map(|i| m[*i].addr.clone()).collect();
        let agg = match me.aggregate_signatures(ss.clone(), vs.clone()) {
            Ok(a) => a,
            Err(e) => return c.violate("aggregate/fails", e.to_string(), detail("aggregate")),
        };
        c.event("aggregates made");
        let mut order = vs.clone();
        r.shuffle(&mut order);
        let who = r.below(count);
        if let Err(e) = m[who].crypto.verify_aggregated_signature(agg.clone(), hash.clone(), order.clone()) {
            return c.violate("aggregate/refused", e.to_string(), detail("aggregate"));
        }
        c.event("aggregates checked");
            c.event("oracle.judgements");
        let keys: Vec<BlsPublicKey> = vs.iter().map(|v| map[v].clone()).collect();
        if me.inner_verify_aggregated_signature(hash.clone(), keys, agg.clone()).is_err() {
            return c.violate("aggregate/inner-refused", "", detail("aggregate"));
        }
        // any other set of voters
        let mut wrong = order.clone();
        let what = match r.below(5) {
            0 if wrong.len() > 1 => {
                wrong.pop();
                "one fewer"
            }
            1 if idx.len() < count => {
                let extra = (0..count).find(|i| !idx.contains(i)).unwrap();
                wrong.push(m[extra].addr.clone());
                "one more"
            }
            2 if idx.len() < count => {
                let extra = (0..count).find(|i| !idx.contains(i)).unwrap();
                wrong[0] = m[extra].addr.clone();
                "one else"
            }
            3 => {
                wrong.push(Bytes::from(r.bytes(33)));
                "a stranger more"
            }
            _ => {
                let again = wrong[0].clone();
                wrong.push(again);
                "one twice"
            }
        };
        c.seen("voters", what);
        if me.verify_aggregated_signature(agg.clone(), hash.clone(), wrong).is_ok() {
            return c.violate("aggregate/other-voters", what, detail(what));
        }
        if me.verify_aggregated_signature(agg.clone(), other.clone(), vs.clone()).is_ok() {
            return c.violate("aggregate/other-message", "accepted", detail("message"));
        }
        let bad = gen::mutate(&mut r, &agg);
        if bad.as_slice() != agg.as_ref() && me.verify_aggregated_signature(bad.into(), hash.clone(), vs.clone()).is_ok() {
            return c.violate("aggregate/damaged", "accepted", detail("damaged"));
        }
        // a signature under someone else's name makes an aggregate that does not stand
        if count > 1 {
            let mut ss2 = ss.clone();
            let i = r.below(ss2.len());
            let liar = sigs[(idx[i] + 1) % count].clone();
            ss2[i] = liar;
            if let Ok(a) = me.aggregate_signatures(ss2, vs.clone()) {
                if me.verify_aggregated_signature(a, hash.clone(), vs.clone()).is_ok() {
                    return c.violate("aggregate/borrowed-signature", "accepted", detail("borrowed"));
                }
                c.event("borrowed signatures refused");
            c.event("oracle.judgements");
            }
        }
        let mut short = vs.clone();
        short.push(m[0].addr.clone());
        if me.aggregate_signatures(ss, short).is_ok() {
            return c.violate("aggregate/lengths", "signatures and voters of different number are combined", detail("lengths"));
        }
    }
    // the members of another epoch replace these
    let (m2, map2) = members(&mut r, 2);
    me.update(map2);
    if me.verify_signature(sigs[0].clone(), hash.clone(), m[0].addr.clone()).is_ok() {
        return c.violate("update/old-member", "still accepted", detail("update"));
    }
    let s = m2[1].crypto.sign(hash.clone()).unwrap();
    if me.verify_signature(s, hash, m2[1].addr.clone()).is_err() {
        return c.violate("update/new-member", "refused", detail("update"));
    }
    c.event("member sets replaced");
    // the digest of an ordered list
    let list: Vec<SignedTransaction> = (0..r.below(4)).map(|_| gen::signed(&mut r)).collect();
    let d = digest_signed_transactions(&list);
    if d != digest_signed_transactions(&list.clone()) {
        return c.violate("digest/unstable", "two digests of one list", detail("digest"));
    }
    let mut other = list.clone();
    match r.below(4) {
        0 => other.push(gen::signed(&mut r)),
        1 => drop(other.pop()),
        2 => other.reverse(),
        _ => {
            if let Some(t) = other.last_mut() {
                *t = gen::signed(&mut r);
            }
        }
    }
    let same = other.iter().map(|t| t.transaction.hash).eq(list.iter().map(|t| t.transaction.hash));
    if same != (d == digest_signed_transactions(&other)) {
        return c.violate("digest/blind", format!("{} and {} transactions", list.len(), other.len()), detail("digest"));
    }
    c.event("digests checked");
            c.event("oracle.judgements");
}
