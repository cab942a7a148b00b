//! P05: roots commit to their contents, proofs prove exactly that.
use common_merkle::{Merkle, TrieMerkle};
use protocol::types::{Bytes, DBBytes, Hash, H256};
use std::iter::FromIterator;
use vlib::oracle::{keccak256, ordered_root, R};
use vlib::{guard, hex, json, Ctx};

fn fold(leaf: &Hash, proof: &[common_merkle::ProofNode]) -> Hash {
    proof.iter().fold(*leaf, |acc, n| {
        let (a, b) = if n.is_right { (acc, n.hash) } else { (n.hash, acc) };
        H256(keccak256(&[a.0, b.0].concat()))
    })
}

pub fn p05(c: &mut Ctx) {
    c.stage("binary");
    for i in 0..c.scale(250, 6000) {
        if !c.within(0.3) {
            break;
        }
        let mut r = c.rng.fork();
        let n = if i < 40 { i as usize } else { r.below(90) };
        let leaves: Vec<Hash> = (0..n).map(|_| H256(r.arr())).collect();
        let out = guard(|| {
            let m = Merkle::from_hashes(leaves.clone());
            (m.get_root_hash(), (0..n + 3).map(|i| m.get_proof_by_input_index(i)).collect::<Vec<_>>())
        });
        let Ok((root, proofs)) = out else {
            c.violate("merkle/panic", "building a Merkle tree panicked", json!({"leaves": n, "panic": format!("{:?}", out.err())}));
            continue;
        };
        c.event("merkle-trees");
        c.seen("merkle", (n, root.map(|r| r.0)));
        c.ensure(root.is_some() == (n > 0), "merkle/root", || (format!("root of {n} leaves is {root:?}"), json!({})));
        let Some(root) = root else { continue };
        c.ensure(n != 1 || root == leaves[0], "merkle/single", || ("the root of one leaf is not the leaf".into(), json!({})));
        for (i, p) in proofs.iter().enumerate() {
            let ok = match (leaves.get(i), p) {
                (Some(l), Some(p)) => fold(l, p) == root,
                (None, None) => true,
                _ => false,
            };
            c.ensure(ok, "merkle/proof", || (format!("proof for leaf {i} of {n} does not lead to the root"), json!({"proof": format!("{p:?}")})));
        }
        // any change to the leaves changes the root
        let mut other = leaves.clone();
        match r.below(3) {
            0 => other[r.below(n)].0[r.below(32)] ^= 1,
            1 if n > 1 => {
                let a = r.below(n - 1);
                other.swap(a, a + 1)
            }
            _ => {
                other.pop();
            }
        }
        c.ensure(Merkle::from_hashes(other).get_root_hash() != Some(root), "merkle/binding", || (format!("different leaves (of {n}) share a root"), json!({})));
    }
    c.stage("trie");
    for i in 0..c.scale(120, 4000) {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        let n = if i < 20 { i as usize } else { *r.pick(&[1, 2, 16, 17, 127, 128, 129, 130, 255, 256, 257, 300]) };
        let vals: Vec<Vec<u8>> = (0..n).map(|_| { let k = r.range(1, 120) as usize; r.bytes(k) }).collect();
        let want = ordered_root(&vals);
        let receipts: Vec<Bytes> = vals.iter().map(|v| Bytes::from(v.clone())).collect();
        let db: Vec<DBBytes> = receipts.iter().map(|v| DBBytes(v.clone())).collect();
        let out = guard(|| {
            let mut a = TrieMerkle::from_receipts(&receipts);
            let mut b = TrieMerkle::from_iter(db.iter().enumerate());
            let (ra, rb) = (a.root_hash().unwrap(), b.root_hash().unwrap());
            let pick: Vec<usize> = (0..n.min(12)).map(|k| k * n / n.min(12)).chain([n, n + 1, n + 200]).collect();
            let proofs: Vec<_> = pick.iter().map(|i| (*i, a.get_proof_by_index(*i).map_err(|e| e.to_string()))).collect();
            (ra, rb, proofs)
        });
        let Ok((ra, rb, proofs)) = out else {
            c.violate("trie/panic", "the ordered trie panicked", json!({"values": n, "panic": format!("{:?}", out.err())}));
            continue;
        };
        c.event("ordered-tries");
        c.seen("trie", (n, ra.0));
        c.ensure(ra.0 == want, "trie/root", || (format!("the root of {n} receipts is not the Merkle-Patricia root of (rlp(i), value)"), json!({"got": hex(ra.0), "want": hex(want)})));
        c.ensure(rb.0 == want, "trie/root-iter", || (format!("the root of {n} values is not the Merkle-Patricia root of (rlp(i), value)"), json!({"got": hex(rb.0), "want": hex(want)})));
        for (i, p) in proofs {
            let Ok(p) = p else {
                c.violate("trie/proof-error", format!("no proof for index {i} of {n}"), json!({"error": format!("{p:?}")}));
                continue;
            };
            let key = R::u(i as u64).enc();
            let got = guard(|| axon_tools::verify_trie_proof(H256(want), &key, p.clone()).map_err(|e| e.to_string()));
            c.event("trie-proofs");
            let ok = match (&got, vals.get(i)) {
                (Ok(Ok(Some(v))), Some(w)) => v == w,
                (Ok(Ok(None)), None) => true,
                // an empty trie has no node to show
                (Ok(Err(_)), None) => n == 0,
                _ => false,
            };
            c.ensure(ok, "trie/proof", || (format!("the proof for index {i} of {n} does not verify to its value: {got:?}"), json!({})));
            // corrupted proofs never prove anything else
            for _ in 0..6 {
                let mut q = p.clone();
                if q.is_empty() {
                    break;
                }
                let k = r.below(q.len());
                match r.below(4) {
                    0 => {
                        q.remove(k);
                    }
                    1 => q[k] = r.bytes(40),
                    _ => {
                        let m = gen::mutate(&mut r, &q[k]);
                        q[k] = m
                    }
                }
                let out = guard(|| axon_tools::verify_trie_proof(H256(want), &key, q.clone()).ok().flatten());
                c.event("trie-proofs.corrupted");
                let ok = match &out {
                    Ok(None) => true,
                    Ok(Some(v)) => vals.get(i) == Some(v),
                    Err(_) => true, // counted below: the proof library is third-party code
                };
                if out.is_err() {
                    c.event("trie-proofs.verifier-panicked");
                }
                c.ensure(ok, "trie/forged", || (format!("a corrupted proof proves another value at index {i}"), json!({"proof": q.iter().map(hex).collect::<Vec<_>>()})));
            }
        }
    }
}
