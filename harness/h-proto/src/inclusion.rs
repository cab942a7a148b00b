//! P15: what the tools accept as proof that transactions are in a CKB block, and how such a proof is written.
use axon_tools::precompile::{verify_proof, Proof, VerifyProofPayload};
use ethers_core::abi::{AbiDecode, AbiEncode};
use std::collections::BTreeSet;
use vlib::oracle::R;
use vlib::{guard, hex, json, Ctx, Rng};

type Node = [u8; 32];

fn ckb_hash(parts: &[&Node]) -> Node {
    let mut o = [0; 32];
    let mut h = blake2b_rs::Blake2bBuilder::new(32).personal(b"ckb-default-hash").build();
    parts.iter().for_each(|p| h.update(&p[..]));
    h.finalize(&mut o);
    o
}

/// complete binary Merkle tree
struct Tree {
    nodes: Vec<Node>,
    n: usize,
}
impl Tree {
    fn new(leaves: &[Node]) -> Tree {
        let n = leaves.len();
        let mut nodes = vec![[0; 32]; n - 1];
        nodes.extend(leaves);
        for i in (0..n - 1).rev() {
            nodes[i] = ckb_hash(&[&nodes[2 * i + 1], &nodes[2 * i + 2]]);
        }
        Tree { nodes, n }
    }
    /// (indices in the order of the leaves' values, lemmas from the bottom up)
    fn prove(&self, picked: &[usize]) -> (Vec<u32>, Vec<Node>) {
        let mut idx: Vec<usize> = picked.iter().map(|i| self.n - 1 + i).collect();
        let mut have: BTreeSet<usize> = idx.iter().copied().collect();
        let mut lemmas = vec![];
        while let Some(i) = have.pop_last() {
            if i == 0 {
                break;
            }
            let sib = if i % 2 == 1 { i + 1 } else { i - 1 };
            if !have.remove(&sib) {
                lemmas.push(self.nodes[sib]);
            }
            have.insert((i - 1) / 2);
        }
        idx.sort_by_key(|i| self.nodes[*i]);
        (idx.into_iter().map(|i| i as u32).collect(), lemmas)
    }
}

/// as a contract writes it
fn abi(p: &VerifyProofPayload) -> Vec<u8> {
    let n = |x: usize| {
        let mut w = vec![0u8; 24];
        w.extend((x as u64).to_be_bytes());
        w
    };
    let (i, m, l) = (&p.proof.indices, &p.proof.lemmas, &p.proof.leaves);
    let mut o = [n(32), n(p.verify_type as usize)].concat();
    o.extend(p.transactions_root);
    o.extend(p.witnesses_root);
    o.extend(p.raw_transactions_root);
    o.extend(n(160));
    o.extend(n(96));
    o.extend(n(96 + 32 * (i.len() + 1)));
    o.extend(n(96 + 32 * (i.len() + m.len() + 2)));
    o.extend(n(i.len()));
    i.iter().for_each(|x| o.extend(n(*x as usize)));
    for v in [m, l] {
        o.extend(n(v.len()));
        v.iter().for_each(|x| o.extend(x));
    }
    o
}
fn list(p: &VerifyProofPayload) -> Vec<u8> {
    let hashes = |v: &[Node]| R::L(v.iter().map(|x| R::b(x)).collect());
    R::L(vec![
        R::u(p.verify_type as u64),
        R::b(&p.transactions_root),
        R::b(&p.witnesses_root),
        R::b(&p.raw_transactions_root),
        R::L(vec![R::L(p.proof.indices.iter().map(|i| R::u(*i as u64)).collect()), hashes(&p.proof.lemmas), hashes(&p.proof.leaves)]),
    ])
    .enc()
}

/// one change after which the payload shows nothing
fn spoil(r: &mut Rng, p: &mut VerifyProofPayload) -> Option<&'static str> {
    let flip = |r: &mut Rng, x: &mut Node| x[r.below(32)] ^= 1 << r.below(8);
    let q = &mut p.proof;
    Some(match r.below(12) {
        0 => { flip(r, &mut p.transactions_root); "transactions root" }
        1 => { flip(r, &mut p.witnesses_root); "witnesses root" }
        2 => { flip(r, &mut p.raw_transactions_root); "raw transactions root" }
        3 => { let i = r.below(q.leaves.len()); flip(r, &mut q.leaves[i]); "a leaf" }
        4 if !q.lemmas.is_empty() => { let i = r.below(q.lemmas.len()); flip(r, &mut q.lemmas[i]); "a lemma" }
        5 => { p.verify_type = if p.verify_type == 0 { 1 + r.below(255) as u8 } else { 0 }; "which of the roots" }
        6 => { q.lemmas.push(r.arr()); "one lemma too many" }
        7 => { q.lemmas.pop()?; "one lemma too few" }
        8 => { let i = r.below(q.indices.len()); q.indices[i] = q.indices[i].wrapping_add(1 + r.below(5) as u32); "a place" }
        9 => { q.leaves.clear(); if r.bool() { q.indices.clear(); } "no leaves" }
        10 => { q.indices.pop(); "a leaf without its place" }
        11 => { std::mem::swap(&mut p.witnesses_root, &mut p.raw_transactions_root); "roots exchanged" }
        _ => return None,
    })
}

pub fn p15(c: &mut Ctx) {
    c.stage("inclusion");
    for _ in 0..c.scale(6000, 300_000) {
        if !c.within(0.95) {
            break;
        }
        let mut r = c.rng.fork();
        let most = if r.chance(1, 4) { 70 } else { 9 };
        let n = 1 + r.below(most);
        let leaves: Vec<Node> = (0..n).map(|_| r.arr()).collect();
        let tree = Tree::new(&leaves);
        let mut picked: Vec<usize> = (0..n).collect();
        r.shuffle(&mut picked);
        picked.truncate(1 + r.below(n));
        let (indices, lemmas) = tree.prove(&picked);
        let verify_type = *r.pick(&[0u8, 0, 1, 1, 2, 255]);
        let (root, other) = (tree.nodes[0], r.arr::<32>());
        let (raw, wit) = if verify_type == 0 { (root, other) } else { (other, root) };
        let good = VerifyProofPayload {
            verify_type,
            transactions_root: ckb_hash(&[&raw, &wit]),
            witnesses_root: wit,
            raw_transactions_root: raw,
            proof: Proof { indices, lemmas, leaves: picked.iter().map(|i| leaves[*i]).collect() },
        };
        let det = |p: &VerifyProofPayload| json!({"payload": hex(abi(p)), "leaves of the tree": n});
        let got = guard(|| verify_proof(good.clone()));
        c.event("proofs");
        c.seen("proof", (n, picked.len(), verify_type));
        c.ensure(matches!(got, Ok(Ok(()))), "inclusion/rejects-valid", || (format!("a proof of {} of {n} leaves is answered {got:?}", picked.len()), det(&good)));

        let mut bad = good.clone();
        let what = spoil(&mut r, &mut bad);
        if let Some(what) = what.filter(|_| bad != good) {
            let got = guard(|| verify_proof(bad.clone()));
            c.event("spoiled proofs");
            c.seen("spoiled", (what, n));
            c.ensure(matches!(got, Ok(Err(_))), &format!("inclusion/accepts/{what}"), || (format!("after a change ({what}) the answer is {got:?}"), det(&bad)));
        }

        let p = if r.bool() { &good } else { &bad };
        let wire = abi(p);
        let wrote = guard(|| (p.clone(),).encode());
        c.ensure(wrote.as_ref().ok() == Some(&wire), "inclusion/abi-form", || ("a payload is written otherwise than the contract reads it".into(), det(p)));
        let read = guard(|| <(VerifyProofPayload,)>::decode(&wire).map(|x| x.0).map_err(|e| e.to_string()));
        c.ensure(matches!(&read, Ok(Ok(q)) if q == p), "inclusion/abi-read", || (format!("what a contract wrote is read as {read:?}"), det(p)));
        let rlp = guard(|| rlp::encode(p).to_vec());
        c.ensure(rlp.as_ref().ok() == Some(&list(p)), "inclusion/rlp-form", || (format!("the RLP form is {:?}", rlp.as_ref().map(hex)), det(p)));
        let noise = gen::mutate(&mut r, &wire);
        let read = guard(|| match VerifyProofPayload::decode(&noise) {
            Ok(p) => verify_proof(p).is_ok(),
            Err(_) => false,
        });
        c.event("malformed payloads");
        if let Err(p) = read {
            // the third-party decoder has its own ways with garbage; ours must not panic
            c.ensure(!vlib::in_tree(&p.loc), "inclusion/panic", || (p.msg.clone(), json!({"input": hex(&noise)})));
        }
    }
    c.sample(json!({"proofs": c.count("proofs"), "spoiled": c.count("spoiled proofs")}));
}
