//! P07: the text forms of byte strings, addresses, quantities and keys.
use k256::elliptic_curve::sec1::ToEncodedPoint;
use protocol::codec::{decode_256bits_key, hex_decode, hex_encode};
use protocol::types::*;
use std::str::FromStr;
use vlib::oracle::keccak256;
use vlib::{guard, hex as hx, json, Ctx, Must, Rng};

fn plain(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn any_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
/// EIP-55, from its text
fn eip55(a: &[u8; 20]) -> String {
    let low = plain(a);
    let h = plain(&keccak256(low.as_bytes()));
    let body: String = low
        .chars()
        .zip(h.chars())
        .map(|(c, n)| if n.to_digit(16).unwrap() >= 8 { c.to_ascii_uppercase() } else { c })
        .collect();
    format!("0x{body}")
}
/// one defect in a well-formed string
fn spoil(r: &mut Rng, s: &str) -> (String, &'static str) {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(7) {
        6 => (format!("0x{s}"), "doubled prefix"),
        0 => (s.trim_start_matches("0x").to_string(), "no prefix"),
        1 => { v.pop(); (v.into_iter().collect(), "a digit short") }
        2 => { v.push('0'); (v.into_iter().collect(), "a digit long") }
        3 => { let i = 2 + r.below(v.len().saturating_sub(2)); if i < v.len() { v[i] = *r.pick(&['g', 'z', ' ', '-', '\u{e9}', 'x', '\0', '+', '_']) } else { v.push('g') }; (v.into_iter().collect(), "not a digit") }
        4 => (format!(" {s}"), "leading space"),
        _ => { v[0] = '1'; (v.into_iter().collect(), "wrong prefix") }
    }
}

pub fn p07(c: &mut Ctx) {
    c.stage("bytes");
    for _ in 0..c.scale(4000, 200_000) {
        if !c.within(0.3) {
            break;
        }
        let mut r = c.rng.fork();
        let b = r.edge_bytes(300);
        let text = format!("0x{}", plain(&b));
        let h = Hex::encode(&b);
        c.event("byte strings");
        c.seen("bytes", &b);
        let d = json!({"bytes": hx(&b)});
        c.ensure(h.as_string() == text && h.to_string() == text && h.as_string_trim0x() == text[2..] && hex_encode(&b) == text[2..],
            "hex/form", || (format!("printed as {} / {}", h.as_string(), h), d.clone()));
        c.ensure(h.as_bytes() == b && h.len() == b.len() && h.is_empty() == b.is_empty() && h.as_ref() == &b[..], "hex/bytes", || ("the bytes of a Hex are not those it was made from".into(), d.clone()));
        let t2 = format!("0x{}", any_case(&mut r, &text[2..]));
        let got = guard(|| Hex::from_str(&t2).ok());
        c.ensure(matches!(&got, Ok(Some(x)) if x.as_ref() == &b[..]), "hex/parse", || (format!("{t2} parsed as {got:?}"), d.clone()));
        let got = guard(|| hex_decode(&t2[2..]).ok());
        c.ensure(matches!(&got, Ok(Some(x)) if x[..] == b[..]), "hex/decode", || (format!("{t2} decoded as {got:?}"), d.clone()));
        let js = serde_json::to_string(&h).must("hex/json");
        c.ensure(js == format!("\"{text}\""), "hex/json", || (format!("serialised as {js}"), d.clone()));
        let back = serde_json::from_str::<Hex>(&format!("\"{t2}\"")).ok();
        c.ensure(back == Some(h.clone()), "hex/json-parse", || (format!("{t2} deserialised as {back:?}"), d.clone()));
        let tools = axon_tools::types::Hex::from_str(&t2).ok();
        c.ensure(tools.as_ref().map(|t| t.as_bytes()) == Some(h.as_bytes()) && tools.as_ref().map(|t| t.as_string()) == Some(text.clone()), "hex/tools", || (format!("axon-tools read {t2} as {tools:?}"), d.clone()));
        let (bad, why) = spoil(&mut r, &text);
        if why == "no prefix" && b.first() == Some(&0) && bad.starts_with("0x") || bad == text {
            continue;
        }
        let got = guard(|| (Hex::from_str(&bad).is_ok(), axon_tools::types::Hex::from_str(&bad).is_ok()));
        c.event("malformed byte strings");
        c.ensure(matches!(got, Ok((false, false))), &format!("hex/accepts/{why}"), || (format!("{bad:?}: {got:?}"), d.clone()));
    }
    c.stage("addresses");
    for _ in 0..c.scale(4000, 200_000) {
        if !c.within(0.6) {
            break;
        }
        let mut r = c.rng.fork();
        let a: [u8; 20] = match r.below(4) { 0 => gen::h160(&mut r).0, _ => r.arr() };
        let want = eip55(&a);
        let ad = Address(H160(a));
        let d = json!({"address": want});
        c.event("addresses");
        c.seen("address", a);
        c.ensure(ad.eip55() == want, "address/eip55", || (format!("printed as {}", ad.eip55()), d.clone()));
        let js = serde_json::to_string(&ad).must("address/json");
        c.ensure(js == format!("\"{want}\""), "address/json", || (format!("serialised as {js}"), d.clone()));
        let got = guard(|| (Address::from_str(&want).ok(), serde_json::from_str::<Address>(&js).ok(), Address::from_bytes(a.to_vec().into()).ok()));
        c.ensure(matches!(&got, Ok((Some(x), Some(y), Some(z))) if *x == ad && *y == ad && *z == ad), "address/parse", || (format!("{want} read as {got:?}"), d.clone()));
        let t2 = format!("{}{}", r.pick(&["0x", "0X"]), any_case(&mut r, &plain(&a)));
        let got = guard(|| Address::from_hex(&t2).ok());
        c.ensure(matches!(&got, Ok(Some(x)) if *x == ad), "address/from-hex", || (format!("{t2} read as {got:?}"), d.clone()));
        // a checksum with one letter's case flipped is a typing error the format exists to catch
        let letters: Vec<usize> = want.char_indices().skip(2).filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
        if !letters.is_empty() {
            let i = *r.pick(&letters);
            let flipped: String = want.char_indices().map(|(j, ch)| if j != i { ch } else if ch.is_ascii_uppercase() { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() }).collect();
            let all_one_case = flipped[2..].chars().all(|c| !c.is_ascii_uppercase()) || flipped[2..].chars().all(|c| !c.is_ascii_lowercase());
            let got = guard(|| (Address::from_str(&flipped).is_ok(), serde_json::from_str::<Address>(&format!("\"{flipped}\"")).is_ok() && !all_one_case));
            c.event("broken checksums");
            c.ensure(matches!(got, Ok((false, false))), "address/accepts-bad-checksum", || (format!("{flipped}: {got:?}"), d.clone()));
        }
        let (bad, why) = spoil(&mut r, &want);
        let got = guard(|| (Address::from_str(&bad).is_ok(), Address::from_hex(&bad).is_ok()));
        c.ensure(matches!(got, Ok((false, false))), &format!("address/accepts/{why}"), || (format!("{bad:?}: {got:?}"), d.clone()));
        let n = r.below(40);
        let got = guard(|| Address::from_bytes(vec![7u8; n].into()).is_ok());
        c.ensure(matches!(got, Ok(x) if x == (n == 20)), "address/length", || (format!("{n} bytes: {got:?}"), json!({})));
    }
    c.stage("public keys");
    for _ in 0..c.scale(150, 3000) {
        if !c.within(0.75) {
            break;
        }
        let mut r = c.rng.fork();
        let sk = k256::ecdsa::SigningKey::from_slice(&keccak256(&r.arr::<32>())).unwrap();
        let full = sk.verifying_key().to_encoded_point(false).as_bytes().to_vec();
        let short = sk.verifying_key().as_affine().to_encoded_point(true).as_bytes().to_vec();
        let want = Address(H160(keccak256(&full[1..])[12..].try_into().unwrap()));
        c.event("public keys");
        c.seen("key", &short);
        let got = guard(|| (Address::from_pubkey_bytes(&full).ok(), Address::from_pubkey_bytes(&short).ok()));
        c.ensure(matches!(&got, Ok((Some(x), Some(y))) if *x == want && *y == want), "address/of-public-key", || (format!("{got:?}, expected {want}"), json!({"key": hx(&short)})));
        let v = Validator { bls_pub_key: Hex::encode(r.bytes(48)), pub_key: Hex::encode(&short), propose_weight: r.u64() as u32, vote_weight: r.u64() as u32 };
        let e: Result<ValidatorExtend, _> = guard(|| v.clone().into());
        c.ensure(matches!(&e, Ok(e) if e.address == want.0 && e.pub_key == v.pub_key && e.bls_pub_key == v.bls_pub_key && e.vote_weight == v.vote_weight && e.propose_weight == v.propose_weight),
            "validator/extend", || (format!("{e:?}"), json!({"key": hx(&short)})));
        let n = r.below(70);
        let bad = if n == 33 || n == 65 { r.bytes(34) } else { r.bytes(n) };
        let got = guard(|| Address::from_pubkey_bytes(&bad).is_ok());
        c.ensure(matches!(got, Ok(false)), "address/bad-public-key", || (format!("{} bytes: {got:?}", bad.len()), json!({})));
    }
    c.stage("quantities");
    #[derive(serde::Serialize)]
    struct Q<T: Into<U256> + Copy>(#[serde(serialize_with = "protocol::codec::serialize_uint")] T);
    for _ in 0..c.scale(4000, 200_000) {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        let (a, b) = (r.edge_u64(), gen::u256(&mut r));
        let got = (serde_json::to_string(&Q(a)).must("quantity"), serde_json::to_string(&Q(a as u32)).must("quantity"), serde_json::to_string(&Q(b)).must("quantity"));
        let want = (format!("\"{a:#x}\""), format!("\"{:#x}\"", a as u32), format!("\"{b:#x}\""));
        c.event("quantities");
        c.seen("quantity", (a, b));
        c.ensure(got == want, "quantity", || (format!("{got:?} instead of {want:?}"), json!({})));
        let key: [u8; 32] = r.arr();
        let text = format!("{}{}", if r.bool() { "0x" } else { "0X" }, plain(&key));
        let got = guard(|| decode_256bits_key(&text).ok().map(|k| *k));
        c.ensure(matches!(got, Ok(Some(k)) if k == key), "key", || (format!("{text} read as {got:?}"), json!({})));
        let (bad, why) = spoil(&mut r, &text.replace("0X", "0x"));
        let got = guard(|| decode_256bits_key(&bad).is_ok());
        c.ensure(matches!(got, Ok(false)), &format!("key/accepts/{why}"), || (format!("{bad:?}: {got:?}"), json!({})));
    }
}
