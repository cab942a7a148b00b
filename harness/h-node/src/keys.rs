//! P83: generated and recovered keys.
use std::collections::BTreeSet;
use std::time::Duration;

use common_crypto::{BlsPrivateKey, BlsPublicKey, BlsSignatureVerify, HashValue, PrivateKey};
use serde_json::{json, Value};
use vlib::oracle::keccak256;
use vlib::{hex, unhex, Ctx};

use crate::dir::Dir;
use crate::genesis::{self, k_point, Spec};

fn bytes(v: &Value) -> Vec<u8> {
    unhex(v.as_str().unwrap_or_default().trim_start_matches("0x"))
}

/// Everything in one printed key pair follows from its two secrets.
fn judge(c: &mut Ctx, v: &Value, net: &[u8], bls: &[u8], how: &str) {
    let bad = |what: &str| (format!("{how}: {what}"), json!({ "printed": v, "net": hex(net), "bls": hex(bls) }));
    c.event("observed.keypair");
    c.ensure(net.len() == 32 && bls.len() == 32, "key-length", || bad("a secret of another length than 32 bytes"));
    c.ensure(bytes(&v["net_private_key"]) == net && bytes(&v["bls_private_key"]) == bls, "key-printed", || bad("the secrets printed are not those in the files"));
    let public = gen::k256_secret(net);
    c.ensure(public.as_deref() == Some(&bytes(&v["public_key"])[..]), "key-public", || bad("the public key printed is not the secret's"));
    let addr = public.as_deref().and_then(k_point);
    let text = v["address"].as_str().unwrap_or_default();
    c.ensure(addr.as_deref() == Some(&bytes(&v["address"])[..]), "key-address", || bad("the address printed is not the key's"));
    c.ensure(addr.map(|a| checksum(&a)).as_deref() == Some(text), "key-checksum", || bad("the address is not written as EIP-55 has it"));
    // the peer id a node with this key is known under
    let id = common_crypto_peer(net);
    c.ensure(id.as_deref() == v["peer_id"].as_str(), "key-peer", || bad("the peer id printed is not the key's"));
    // a signature by the BLS secret verifies under the BLS key printed, and under no other
    let m = HashValue::from_bytes_unchecked(keccak256(net));
    let sound = match (BlsPrivateKey::try_from(bls), BlsPublicKey::try_from(bytes(&v["bls_public_key"]).as_slice())) {
        (Ok(s), Ok(p)) => {
            let other = HashValue::from_bytes_unchecked(keccak256(bls));
            let sig = s.sign_message(&m);
            sig.verify(&m, &p, &String::new()).is_ok() && sig.verify(&other, &p, &String::new()).is_err()
        }
        _ => false,
    };
    c.ensure(sound, "key-bls", || bad("the BLS key printed is not the secret's"));
}

pub fn checksum(a: &[u8]) -> String {
    let low = hex(a);
    let h = hex(keccak256(low.as_bytes()));
    let up = low.chars().zip(h.chars()).map(|(c, h)| if h >= '8' { c.to_ascii_uppercase() } else { c });
    format!("0x{}", up.collect::<String>())
}

fn common_crypto_peer(net: &[u8]) -> Option<String> {
    use tentacle::secio::SecioKeyPair;
    Some(SecioKeyPair::secp256k1_raw_key(net).ok()?.peer_id().to_base58())
}

pub fn p83(c: &mut Ctx) {
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut count = 0;
    c.stage("generate");
    let mut i = 0;
    while i < c.scale(40, 400) && (i < 2 || c.within(0.6)) {
        i += 1;
        let d = Dir::new(c.scratch.join(format!("k{i}")));
        let n = *c.rng.pick(&[1, 1, 2, 3, 7, 11]);
        let into = *c.rng.pick(&[".", "out"]);
        std::fs::create_dir_all(d.file(into)).unwrap();
        let Some(r) = d.command_to_end(&["generate-keypair", "-n", &n.to_string(), "-p", into]) else { continue };
        c.event("observed.generate");
        let v: Value = serde_json::from_str(&r.out).unwrap_or_default();
        let list = v["keypairs"].as_array().cloned().unwrap_or_default();
        if !c.ensure(r.ok() && list.len() == n, "generate", || (format!("generate-keypair -n {n} does not print {n} key pairs"), r.brief())) {
            continue;
        }
        for (j, v) in list.iter().enumerate() {
            let net = std::fs::read(d.file(into).join(format!("net_{j}.key"))).unwrap_or_default();
            let bls = std::fs::read(d.file(into).join(format!("bls_{j}.key"))).unwrap_or_default();
            c.ensure(v["index"] == json!(j), "generate-index", || (format!("key pair {j} is numbered otherwise"), v.clone()));
            judge(c, v, &net, &bls, "generated");
            count += 2;
            all.insert(net.clone());
            all.insert(bls.clone());
            // recovering from the files prints the same pair
            let (a, b) = (format!("{into}/net_{j}.key"), format!("{into}/bls_{j}.key"));
            if let Some(r) = d.command_to_end(&["recover-keypair", "-n", &a, "-b", &b]) {
                let w: Value = serde_json::from_str(&r.out).unwrap_or_default();
                let same = ["net_private_key", "public_key", "address", "peer_id", "bls_private_key", "bls_public_key"].iter().all(|k| v[*k] == w[*k] && !w[*k].is_null());
                c.event("observed.recover");
                c.ensure(same, "recover", || ("a recovered key pair is not the one generated".into(), json!({ "generated": v, "recovered": w, "run": r.brief() })));
            }
        }
        // a node runs on what was generated: the pair signs blocks as the validator the printed keys name
        if i <= c.scale(2, 12) {
            let v = &list[0];
            let k = genesis::keys(1);
            let mut s = Spec::single(&k, 50);
            s.validators = vec![(bytes(&v["public_key"]), bytes(&v["bls_public_key"]), 1, 1)];
            let e = genesis::node_dir(c, &format!("n{i}"), &k, &s);
            std::fs::copy(d.file(into).join("net_0.key"), e.file("net.key")).unwrap();
            std::fs::copy(d.file(into).join("bls_0.key"), e.file("bls.key")).unwrap();
            let ok = e.init().is_some_and(|r| r.ok());
            let end = e.run(&["--mine-blocks", "2"]).end(Duration::from_secs(90));
            if let (true, Some((st, text))) = (ok, end) {
                let w = genesis::read(&e, s.chain_id);
                let head = w.as_ref().map(|w| (w.head().number, w.head().proposer));
                let want = bytes(&v["address"]);
                c.event("observed.node");
                c.ensure(head.as_ref().is_some_and(|(n, p)| *n == 2 && p.as_bytes() == want), "key-node", || (format!("a node with the generated keys does not mine as their validator: {head:?}, {st:?}"), json!({ "printed": v, "text": text })));
            } else {
                c.note("a node with generated keys did not mine two blocks in time");
            }
        }
        let _ = std::fs::remove_dir_all(&d.path);
    }
    c.ensure(all.len() == count, "key-repeats", || (format!("{count} secrets generated, {} distinct", all.len()), json!({})));
    c.add("observed.secret", count as u64);

    c.stage("recover");
    let mut i = 0;
    while i < c.scale(60, 3000) && (i < 10 || c.within(0.95)) {
        i += 1;
        let d = Dir::new(c.scratch.join("rec"));
        let pick = |c: &mut Ctx| -> Vec<u8> {
            match c.rng.below(10) {
                0 => vec![0; 32],
                1 => vec![0xff; 32],
                2 => unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
                3 => unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"),
                4 => {
                    let mut v = vec![0; 32];
                    v[31] = 1 + c.rng.below(255) as u8;
                    v
                }
                5 => {
                    let n = *c.rng.pick(&[0, 1, 31, 33, 64]);
                    c.rng.bytes(n)
                }
                _ => {
                    let mut v = c.rng.bytes(32);
                    v[0] &= 0x3f;
                    v
                }
            }
        };
        let (net, bls) = (pick(c), pick(c));
        d.put("a", &net);
        d.put("b", &bls);
        let Some(r) = d.command_to_end(&["recover-keypair", "-n", "a", "-b", "b"]) else { continue };
        c.event("observed.recover");
        let order = unhex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
        let net_ok = gen::k256_secret(&net).is_some();
        let bls_ok = bls.len() == 32 && bls < order && bls.iter().any(|b| *b != 0);
        if net_ok && bls_ok {
            let w: Value = serde_json::from_str(&r.out).unwrap_or_default();
            if c.ensure(r.ok(), "recover-refused", || ("valid secrets are not recovered".into(), json!({ "net": hex(&net), "bls": hex(&bls), "run": r.brief() }))) {
                judge(c, &w, &net, &bls, "recovered");
                c.seen("recovered", &net);
            }
        } else if !net_ok || bls.len() != 32 || bls >= order {
            c.seen("no-secret", (&net, &bls));
            c.ensure(r.refused() && r.out.is_empty(), "recover-garbage", || ("secrets that are none are not refused".into(), json!({ "net": hex(&net), "bls": hex(&bls), "run": r.brief() })));
        }
    }
}
