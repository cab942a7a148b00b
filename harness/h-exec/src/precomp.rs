//! P23: precompiled contracts against independent definitions of them, with their gas.
use crate::ledger::genesis;
use gen::key;
use protocol::types::*;
use ripemd::Digest as _;
use vlib::oracle::keccak256;
use vlib::{guard, hex, json, Ctx, Rng};
use world::World;

fn std_addr(n: u8) -> H160 {
    H160::from_low_u64_be(n as u64)
}
fn axon_addr(n: u8) -> H160 {
    H160::from_low_u64_be(0x100 + n as u64)
}
type Want = Option<(Vec<u8>, u64)>;

struct Bench {
    w: World,
}
impl Bench {
    fn run(&self, to: H160, data: &[u8], gas: u64) -> Result<TxResp, vlib::Panicked> {
        guard(|| self.w.call(None, Some(to), U256::zero(), data.to_vec(), gas, false))
    }
    /// compare one input with what is wanted of it; None: it must fail
    fn judge(&self, c: &mut Ctx, name: &str, to: H160, data: &[u8], want: Want) {
        let base: u64 = 21000 + data.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
        let at = |g: u64| json!({"contract": name, "input": hex(&data[..data.len().min(400)]), "length": data.len(), "gas": g});
        let ample = base + want.as_ref().map_or(3_000_000, |w| w.1 + 1 + c.rng.below(1_000_000) as u64);
        c.event(name);
        let r = match self.run(to, data, ample) {
            Ok(r) => r,
            Err(p) => {
                c.violate(&format!("{name}/panic"), format!("the precompiled contract panicked: {} at {}", p.msg, vlib::short_loc(&p.loc)), at(ample));
                return;
            }
        };
        c.seen(name, (data.to_vec(), r.ret.clone()));
        match want {
            None => {
                c.event(&format!("{name}.refused"));
                c.ensure(!r.exit_reason.is_succeed(), &format!("{name}/accepts-invalid"), || {
                    ("an input without a defined result must fail".into(), at(ample))
                });
                c.ensure(r.exit_reason.is_succeed() || r.gas_used == ample, &format!("{name}/failure-gas"), || {
                    (format!("a failed precompiled contract takes all gas, this one took {}", r.gas_used), at(ample))
                });
            }
            Some((out, cost)) => {
                c.ensure(r.exit_reason.is_succeed(), &format!("{name}/refuses-valid"), || {
                    (format!("a valid input must succeed, but ends with {:?}", r.exit_reason), at(ample))
                });
                if !r.exit_reason.is_succeed() {
                    return;
                }
                c.ensure(r.ret == out, &format!("{name}/result"), || {
                    (format!("result {} instead of {}", hex(&r.ret[..r.ret.len().min(80)]), hex(&out[..out.len().min(80)])), at(ample))
                });
                c.ensure(r.gas_used == base + cost, &format!("{name}/gas"), || (format!("{} gas instead of {}", r.gas_used - base.min(r.gas_used), cost), at(ample)));
                if let Ok(r) = self.run(to, data, base + cost) {
                    c.ensure(r.exit_reason.is_succeed() && r.ret == out, &format!("{name}/exact-gas"), || {
                        (format!("with exactly its cost it must succeed, but ends with {:?}", r.exit_reason), at(base + cost))
                    });
                }
                if cost > 0 {
                    let less = base + if c.rng.bool() { cost - 1 } else { c.rng.below(cost as usize) as u64 };
                    if let Ok(r) = self.run(to, data, less) {
                        c.ensure(!r.exit_reason.is_succeed(), &format!("{name}/underpaid"), || ("with less gas than its cost it must fail".into(), at(less)));
                    }
                }
            }
        }
    }
}
fn words(n: usize) -> u64 {
    (n as u64 + 31) / 32
}

// ---- secp256k1 recovery
fn ec_order() -> U256 {
    U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}
fn w32(x: U256) -> [u8; 32] {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    b
}
fn ecrecover(c: &mut Ctx, b: &Bench) {
    let k = key(c.rng.below(1000) as u64);
    let h: [u8; 32] = c.rng.arr();
    let (v, r, s) = k.sign_hash(&h);
    let mut input = [&h[..], &w32((27 + v as u64).into()), &r, &s].concat();
    let mut out = vec![0; 12];
    out.extend(k.addr.0);
    let a = std_addr(1);
    match c.rng.below(9) {
        0 => input.extend(c.rng.bytes(50)), // what follows is ignored
        1 => {
            // the other of the two signatures recovers the same key
            let hs = w32(ec_order() - U256::from_big_endian(&s));
            input[96..].copy_from_slice(&hs);
            input[63] = 27 + (v ^ 1);
        }
        2 => {
            input[64..96].copy_from_slice(&w32(U256::zero()));
            return invalid(c, b, &input);
        }
        3 => {
            input[96..].copy_from_slice(&w32(ec_order() + c.rng.below(3)));
            return invalid(c, b, &input);
        }
        4 => {
            input[63] = *c.rng.pick(&[0, 1, 26, 29, 30, 255]);
            return invalid(c, b, &input);
        }
        5 => {
            let i = c.rng.below(31);
            input[32 + i] = 1 + c.rng.below(255) as u8;
            return invalid(c, b, &input);
        }
        6 => {
            let n = c.rng.below(96);
            input.truncate(n);
            return invalid(c, b, &input);
        }
        7 => {
            // another message or key half: some other address
            let i = c.rng.below(32);
            input[i] ^= 1 << c.rng.below(8);
            let h2: [u8; 32] = input[..32].try_into().unwrap();
            let sig = k256::ecdsa::Signature::from_slice(&input[64..128]).unwrap();
            let p = k256::ecdsa::VerifyingKey::recover_from_prehash(&h2, &sig, k256::ecdsa::RecoveryId::from_byte(v).unwrap());
            let Ok(p) = p else { return };
            out[12..].copy_from_slice(&keccak256(&p.to_encoded_point(false).as_bytes()[1..])[12..]);
        }
        _ => {}
    }
    b.judge(c, "ecrecover", a, &input, Some((out, 3000)));
}
/// Ethereum answers an invalid signature with an empty result; Axon fails
fn invalid(c: &mut Ctx, b: &Bench, input: &[u8]) {
    let base: u64 = 21000 + input.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
    c.event("ecrecover.invalid");
    let Ok(r) = b.run(std_addr(1), input, base + 3000) else {
        c.violate("ecrecover/panic", "ecrecover panicked", json!({"input": hex(input)}));
        return;
    };
    c.seen("ecrecover", (input.to_vec(), r.ret.clone()));
    if r.exit_reason.is_succeed() {
        c.ensure(r.ret.is_empty(), "ecrecover/accepts-invalid", || ("an address is recovered from an invalid signature".into(), json!({"input": hex(input), "answer": hex(&r.ret)})));
    } else {
        c.ensure(false, "ecrecover-invalid-fails", || ("an invalid signature makes ecrecover fail rather than return nothing".into(), json!({"input": hex(input)})));
    }
}

// ---- modular exponentiation
fn mulmod(a: U256, b: U256, m: U256) -> U256 {
    let r = a.full_mul(b) % U512::from(m);
    U256::try_from(r).unwrap()
}
fn powmod(b: U256, e: U256, m: U256) -> U256 {
    if m <= U256::one() {
        return U256::zero();
    }
    let mut acc = U256::one();
    for i in (0..e.bits()).rev() {
        acc = mulmod(acc, acc, m);
        if e.bit(i) {
            acc = mulmod(acc, b % m, m);
        }
    }
    acc
}
fn modexp_cost(bl: U256, el: U256, ml: U256, tail: &[u8]) -> Option<u64> {
    if bl.is_zero() && ml.is_zero() {
        return Some(200);
    }
    let big = |x: U256| if x > U256::from(1u64 << 40) { None } else { Some(x.as_u128()) };
    let max = big(bl.max(ml))?;
    let w = (max + 7) / 8;
    let mut head = [0u8; 32];
    let hl = el.min(U256::from(32)).as_usize();
    for i in 0..hl {
        let at = bl.saturating_add(i.into());
        if at < U256::from(tail.len()) {
            head[32 - hl + i] = tail[at.as_usize()];
        }
    }
    let bits = U256::from_big_endian(&head).bits() as u128;
    let mut it = bits.saturating_sub(1);
    if el > U256::from(32) {
        it += 8 * big(el - 32)?;
    }
    u64::try_from((w * w * it.max(1) / 3).max(200)).ok()
}
fn modexp(c: &mut Ctx, b: &Bench) {
    let a = std_addr(5);
    let r = &mut c.rng;
    let num = |r: &mut Rng, n: usize| -> Vec<u8> {
        match r.below(5) {
            0 => vec![0; n],
            1 => (0..n).map(|i| (i + 1 == n) as u8).collect(),
            2 => vec![0xff; n],
            _ => r.bytes(n),
        }
    };
    let head = |bl: U256, el: U256, ml: U256| [w32(bl), w32(el), w32(ml)].concat();
    if r.chance(1, 5) {
        // absurd lengths: what costs more than any gas limit fails
        let huge = |r: &mut Rng| match r.below(6) {
            0 => U256::MAX,
            1 => U256::one() << r.range(60, 255),
            2 => U256::from(u64::MAX) - r.below(40),
            3 => (U256::one() << 61) + 31 + r.below(4),
            4 => U256::from(r.below(64)),
            _ => U256::zero(),
        };
        let (bl, el, ml) = (huge(r), huge(r), huge(r));
        let n = r.below(70);
        let tail = num(r, n);
        let mut input = head(bl, el, ml);
        input.extend(&tail);
        let cost = modexp_cost(bl, el, ml, &tail);
        let small = bl.max(el).max(ml) < U256::from(64);
        if bl.is_zero() && ml.is_zero() {
            b.judge(c, "modexp", a, &input, Some((vec![], 200)));
        } else if !small && cost.map_or(true, |x| x > 40_000_000) {
            c.event("modexp.absurd");
            b.judge(c, "modexp", a, &input, None);
        }
        return;
    }
    let (bl, el, ml) = (r.below(33), r.below(70), r.below(33));
    let (bv, mut ev, mv) = (num(r, bl), num(r, el), num(r, ml));
    let special = r.chance(1, 4);
    if special {
        // operands beyond 256 bits with an obvious answer
        let n = r.range(33, 200) as usize;
        let mut m = r.bytes(n);
        m[0] |= 0x80;
        let mut x = r.bytes(n);
        x[0] &= 0x7f;
        let e = r.below(3);
        let (e, want): (Vec<u8>, Vec<u8>) = match e {
            0 => (vec![], [vec![0; n - 1], vec![1]].concat()),
            1 => (vec![0, 0, 1], x.clone()),
            _ => {
                // a power of two modulo a larger power of two
                x = vec![0; n];
                x[n - 1] = 2;
                m = vec![0; n];
                m[0] = 0x80;
                let k = r.below(8 * n - 2);
                let mut out = vec![0; n];
                out[n - 1 - k / 8] = 1 << (k % 8);
                ((k as u32).to_be_bytes().to_vec(), out)
            }
        };
        let tail = [&x[..], &e[..], &m[..]].concat();
        let cost = modexp_cost(n.into(), e.len().into(), n.into(), &tail).unwrap();
        let mut input = head(n.into(), e.len().into(), n.into());
        input.extend(tail);
        b.judge(c, "modexp", a, &input, Some((want, cost)));
        return;
    }
    if el > 32 {
        // keep the value within the oracle's 256 bits
        ev[..el - 32].fill(0);
    }
    let mut tail = [&bv[..], &ev[..], &mv[..]].concat();
    if r.chance(1, 4) {
        let n = r.below(tail.len() + 1);
        tail.truncate(n); // the rest counts as zeros
    } else if r.chance(1, 4) {
        tail.extend(r.bytes(9));
    }
    let part = |from: usize, n: usize| -> U256 {
        let v: Vec<u8> = (from..from + n).map(|i| tail.get(i).copied().unwrap_or(0)).collect();
        U256::from_big_endian(&v[v.len().saturating_sub(32)..])
    };
    let res = w32(powmod(part(0, bl), part(bl, el), part(bl + el, ml)));
    let cost = modexp_cost(bl.into(), el.into(), ml.into(), &tail).unwrap();
    let mut input = head(bl.into(), el.into(), ml.into());
    input.extend(&tail);
    if bl + ml == 0 && r.bool() {
        input.truncate(32);
    }
    b.judge(c, "modexp", a, &input, Some((res[32 - ml..].to_vec(), cost)));
}

// ---- alt_bn128
fn field() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
}
fn group() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap()
}
type Pt = Option<(U256, U256)>;
fn sub(a: U256, b: U256) -> U256 {
    if a >= b { a - b } else { a + (field() - b) }
}
fn padd(a: Pt, b: Pt) -> Pt {
    let p = field();
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.or(b) };
    let l = if x1 == x2 {
        if y1 != y2 || y1.is_zero() {
            return None;
        }
        mulmod(mulmod(U256::from(3), mulmod(x1, x1, p), p), powmod(mulmod(U256::from(2), y1, p), p - 2, p), p)
    } else {
        mulmod(sub(y2, y1), powmod(sub(x2, x1), p - 2, p), p)
    };
    let x = sub(sub(mulmod(l, l, p), x1), x2);
    Some((x, sub(mulmod(l, sub(x1, x), p), y1)))
}
fn pmul(mut a: Pt, k: U256) -> Pt {
    let mut acc = None;
    for i in 0..k.bits() {
        if k.bit(i) {
            acc = padd(acc, a);
        }
        a = padd(a, a);
    }
    acc
}
fn penc(p: Pt) -> Vec<u8> {
    let (x, y) = p.unwrap_or_default();
    [w32(x), w32(y)].concat()
}
fn g1(r: &mut Rng) -> Pt {
    pmul(Some((U256::one(), U256::from(2))), r.range(0, 70000).into())
}
/// an encoding of no point
fn bad_point(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => penc(Some((U256::one(), U256::from(3 + r.below(50))))),
        1 => penc(Some((U256::one() + field(), U256::from(2)))),
        2 => penc(Some((field(), U256::zero()))),
        _ => r.bytes(64),
    }
}
fn short(c: &mut Ctx, b: &Bench, name: &str, n: u8, input: &[u8], want: Vec<u8>, cost: u64) {
    // Ethereum reads missing input as zeros; Axon fails
    let base: u64 = 21000 + input.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
    c.event(&format!("{name}.short"));
    let Ok(r) = b.run(std_addr(n), input, base + cost) else {
        c.violate(&format!("{name}/panic"), "a short input panics", json!({"input": hex(input)}));
        return;
    };
    if r.exit_reason.is_succeed() {
        c.ensure(r.ret == want, &format!("{name}/result"), || ("a short input gives a wrong point".into(), json!({"input": hex(input), "answer": hex(&r.ret)})));
    } else {
        c.ensure(false, "ec-short-input-fails", || ("curve operations fail on input shorter than their arguments rather than reading zeros".into(), json!({"contract": name, "input": hex(input)})));
    }
}
fn curve(c: &mut Ctx, b: &Bench) {
    let (p, q) = (g1(&mut c.rng), g1(&mut c.rng));
    let q = match c.rng.below(5) {
        0 => p,
        1 => p.map(|(x, y)| (x, field() - y)),
        2 => None,
        _ => q,
    };
    let mut input = [penc(p), penc(q)].concat();
    match c.rng.below(6) {
        0 => {
            let bad = bad_point(&mut c.rng);
            let at = 64 * c.rng.below(2);
            input[at..at + 64].copy_from_slice(&bad);
            b.judge(c, "ecadd", std_addr(6), &input, None);
        }
        1 => {
            let n = *c.rng.pick(&[0usize, 64, 96, 127]);
            if input[n..].iter().all(|b| *b == 0) || n == 0 {
                let want = if n == 0 { vec![0; 64] } else { penc(padd(p, q)) };
                short(c, b, "ecadd", 6, &input[..n], want, 150);
            }
        }
        x => {
            if x == 2 {
                input.extend(c.rng.bytes(5));
            }
            b.judge(c, "ecadd", std_addr(6), &input, Some((penc(padd(p, q)), 150)));
        }
    }
    let k = match c.rng.below(8) {
        0 => U256::zero(),
        1 => U256::one(),
        2 => group(),
        3 => group() - 1,
        4 => group() + c.rng.below(3),
        5 => U256::MAX,
        6 => U256::from(c.rng.u64()),
        _ => U256::from_big_endian(&c.rng.arr::<32>()),
    };
    let mut input = [penc(p), w32(k).to_vec()].concat();
    match c.rng.below(6) {
        0 => {
            let bad = bad_point(&mut c.rng);
            input[..64].copy_from_slice(&bad);
            b.judge(c, "ecmul", std_addr(7), &input, None);
        }
        1 => short(c, b, "ecmul", 7, &input[..64], vec![0; 64], 6000),
        x => {
            if x == 2 {
                input.extend(c.rng.bytes(5));
            }
            b.judge(c, "ecmul", std_addr(7), &input, Some((penc(pmul(p, k % group())), 6000)));
        }
    }
}
/// the generator of the second group, or its negative, in the order of EIP-197 (imaginary part first)
fn g2(neg: bool) -> Vec<u8> {
    let n = |s: &str| U256::from_dec_str(s).unwrap();
    let (xi, xr) = (
        n("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        n("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
    );
    let (yi, yr) = (
        n("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        n("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
    );
    let f = |y: U256| if neg { field() - y } else { y };
    [w32(xi), w32(xr), w32(f(yi)), w32(f(yr))].concat()
}
fn pairing(c: &mut Ctx, b: &Bench) {
    let g = Some((U256::one(), U256::from(2)));
    let n = 1 + c.rng.below(3);
    let mut sum: i64 = 0;
    let mut input = vec![];
    let mut ks: Vec<(u64, bool)> = (0..n).map(|_| (c.rng.range(0, 500), c.rng.bool())).collect();
    for (k, neg) in &ks {
        sum += if *neg { -(*k as i64) } else { *k as i64 };
    }
    if c.rng.chance(2, 3) && sum != 0 {
        ks.push((sum.unsigned_abs(), sum > 0));
    }
    for (k, neg) in ks {
        input.extend(penc(pmul(g, k.into())));
        input.extend(g2(neg));
    }
    let total = {
        // recompute from the encoded pairs
        let mut t = None;
        for p in input.chunks(192) {
            let x = U256::from_big_endian(&p[..32]);
            let y = U256::from_big_endian(&p[32..64]);
            let pt = if x.is_zero() && y.is_zero() { None } else { Some((x, y)) };
            let pos = p[64..] == g2(false)[..];
            t = padd(t, if pos { pt } else { pt.map(|(x, y)| (x, field() - y)) });
        }
        t.is_none()
    };
    if c.rng.chance(1, 8) {
        for _ in 0..1 + c.rng.below(2) {
            input.extend(penc(if c.rng.bool() { g } else { None }));
            input.extend([0u8; 128]); // with the neutral element every pairing is one
        }
    }
    let a = std_addr(8);
    let pairs = input.len() / 192;
    match c.rng.below(6) {
        0 => {
            let at = 192 * c.rng.below(pairs);
            if c.rng.bool() {
                let bad = bad_point(&mut c.rng);
                input[at..at + 64].copy_from_slice(&bad);
            } else {
                let i = at + 64 + c.rng.below(128);
                input[i] ^= 1 << c.rng.below(8);
            }
            b.judge(c, "pairing", a, &input, None);
        }
        1 => {
            let n = 1 + c.rng.below(191);
            input.extend(c.rng.bytes(n));
            let base: u64 = 21000 + input.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
            let Ok(r) = b.run(a, &input, base + 45000 + 34000 * (pairs as u64 + 1)) else {
                return c.violate("pairing/panic", "a ragged input panics", json!({"length": input.len()}));
            };
            c.ensure(!r.exit_reason.is_succeed(), "pairing-ragged-length", || {
                ("a pairing input whose length is no multiple of 192 is accepted, its end ignored".into(), json!({"length": input.len()}))
            });
        }
        2 => b.judge(c, "pairing", a, &[], Some((w32(U256::one()).to_vec(), 45000))),
        _ => b.judge(c, "pairing", a, &input, Some((w32(U256::from(total as u64)).to_vec(), 45000 + 34000 * pairs as u64))),
    }
}

// ---- BLAKE2b compression, from RFC 7693
fn blake_f(rounds: u32, h: &mut [u64; 8], m: &[u64; 16], t: u128, last: bool) {
    let sigma: [[usize; 16]; 10] = SIGMA.map(|r| r.map(|x| x as usize));
    let iv: Vec<u64> = [2u32, 3, 5, 7, 11, 13, 17, 19].iter().map(|p| frac_sqrt(*p)).collect();
    let mut v = [0u64; 16];
    for i in 0..8 {
        v[i] = h[i];
        v[8 + i] = iv[i];
    }
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] ^= u64::MAX;
    }
    for r in 0..rounds as usize {
        for (k, q) in [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]].iter().enumerate() {
            let [a, b, c, d] = *q;
            for (x, (r1, r2)) in [(m[sigma[r % 10][2 * k]], (32, 24)), (m[sigma[r % 10][2 * k + 1]], (16, 63))] {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(r1);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(r2);
            }
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}
const SIGMA: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// the first 64 bits of the fraction of the square root of p
fn frac_sqrt(p: u32) -> u64 {
    let n = U256::from(p) << 128;
    n.integer_sqrt().low_u64()
}
fn blake2f(c: &mut Ctx, b: &Bench) {
    let r = &mut c.rng;
    let rounds = *r.pick(&[0u32, 1, 2, 9, 10, 11, 12, 20, 21, 37]);
    let rounds = if r.bool() { rounds } else { r.below(300) as u32 };
    let mut input = rounds.to_be_bytes().to_vec();
    let (h, m, t) = (r.arr::<64>(), r.arr::<128>(), r.arr::<16>());
    input.extend(h);
    input.extend(m);
    input.extend(t);
    let last = r.bool();
    input.push(last as u8);
    let le = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    let mut hh: [u64; 8] = std::array::from_fn(|i| le(&h[8 * i..8 * i + 8]));
    let mm: [u64; 16] = std::array::from_fn(|i| le(&m[8 * i..8 * i + 8]));
    blake_f(rounds, &mut hh, &mm, u128::from_le_bytes(t), last);
    let out: Vec<u8> = hh.iter().flat_map(|x| x.to_le_bytes()).collect();
    let a = std_addr(9);
    match r.below(8) {
        0 => {
            input[212] = 2 + r.below(254) as u8;
            b.judge(c, "blake2f", a, &input, None);
        }
        1 => {
            let n = *r.pick(&[0usize, 1, 4, 212, 214, 300]);
            input.resize(n, 0);
            b.judge(c, "blake2f", a, &input, None);
        }
        2 => {
            // the compression of a whole message is BLAKE2b
            let msg = r.bytes(128);
            let want = blake2b(&msg, b"");
            let mut h: [u64; 8] = std::array::from_fn(|i| frac_sqrt([2, 3, 5, 7, 11, 13, 17, 19][i]));
            h[0] ^= 0x0101_0000 ^ 64;
            let mut input = 12u32.to_be_bytes().to_vec();
            input.extend(h.iter().flat_map(|x| x.to_le_bytes()));
            let mut block = msg.clone();
            block.resize(128, 0);
            input.extend(block);
            input.extend((msg.len() as u128).to_le_bytes());
            input.push(1);
            b.judge(c, "blake2f", a, &input, Some((want, 12)));
        }
        _ => b.judge(c, "blake2f", a, &input, Some((out, rounds as u64))),
    }
}
fn blake2b(msg: &[u8], person: &[u8]) -> Vec<u8> {
    let n = if person.is_empty() { 64 } else { 32 };
    let mut o = vec![0; n];
    let mut p = blake2b_rs::Blake2bBuilder::new(n);
    if !person.is_empty() {
        p = p.personal(person);
    }
    let mut h = p.build();
    h.update(msg);
    h.finalize(&mut o);
    o
}
fn ckb_hash(parts: &[&[u8]]) -> [u8; 32] {
    blake2b(&parts.concat(), b"ckb-default-hash").try_into().unwrap()
}

// ---- complete binary Merkle tree
struct Cbmt {
    nodes: Vec<[u8; 32]>,
    n: usize,
}
impl Cbmt {
    fn new(leaves: &[[u8; 32]]) -> Cbmt {
        let n = leaves.len();
        let mut nodes = vec![[0; 32]; n - 1];
        nodes.extend(leaves);
        for i in (0..n - 1).rev() {
            nodes[i] = ckb_hash(&[&nodes[2 * i + 1], &nodes[2 * i + 2]]);
        }
        Cbmt { nodes, n }
    }
    /// (indices in the order of the leaves' values, lemmas from the bottom up)
    fn prove(&self, picked: &[usize]) -> (Vec<u32>, Vec<[u8; 32]>) {
        let mut idx: Vec<usize> = picked.iter().map(|i| self.n - 1 + i).collect();
        let mut have: std::collections::BTreeSet<usize> = idx.iter().copied().collect();
        let mut lemmas = vec![];
        while let Some(i) = have.iter().next_back().copied() {
            have.remove(&i);
            if i == 0 {
                break;
            }
            let sib = if i % 2 == 1 { i + 1 } else { i - 1 };
            if !have.remove(&sib) {
                lemmas.push(self.nodes[sib]);
            }
            have.insert((i - 1) / 2);
        }
        idx.sort_by_key(|i| self.nodes[*i]);
        (idx.into_iter().map(|i| i as u32).collect(), lemmas)
    }
}
#[derive(Clone)]
struct Cmbt {
    kind: u8,
    roots: [[u8; 32]; 3],
    indices: Vec<u32>,
    lemmas: Vec<[u8; 32]>,
    leaves: Vec<[u8; 32]>,
}
impl Cmbt {
    fn encode(&self) -> Vec<u8> {
        let n = |x: usize| w32(x.into()).to_vec();
        let mut proof = vec![];
        let lens = [self.indices.len(), self.lemmas.len(), self.leaves.len()];
        let mut at = 96;
        for l in lens {
            proof.extend(n(at));
            at += 32 * (l + 1);
        }
        proof.extend(n(lens[0]));
        self.indices.iter().for_each(|i| proof.extend(n(*i as usize)));
        for v in [&self.lemmas, &self.leaves] {
            proof.extend(n(v.len()));
            v.iter().for_each(|x| proof.extend(x));
        }
        let mut o = n(32);
        o.extend(n(self.kind as usize));
        self.roots.iter().for_each(|x| o.extend(x));
        o.extend(n(160));
        o.extend(proof);
        o
    }
}
fn cmbt(c: &mut Ctx, b: &Bench) {
    let a = axon_addr(7);
    let r = &mut c.rng;
    let most = if r.chance(1, 4) { 40 } else { 9 };
    let n = 1 + r.below(most);
    let leaves: Vec<[u8; 32]> = (0..n).map(|_| r.arr()).collect();
    let tree = Cbmt::new(&leaves);
    let mut all: Vec<usize> = (0..n).collect();
    r.shuffle(&mut all);
    all.truncate(1 + r.below(n));
    let (indices, lemmas) = tree.prove(&all);
    let kind = *r.pick(&[0u8, 0, 1, 1, 7]);
    let (root, other) = (tree.nodes[0], r.arr::<32>());
    let (raw, wit) = if kind == 0 { (root, other) } else { (other, root) };
    let good = Cmbt {
        kind,
        roots: [ckb_hash(&[&raw, &wit]), wit, raw],
        indices,
        lemmas,
        leaves: all.iter().map(|i| leaves[*i]).collect(),
    };
    b.judge(c, "cmbt", a, &good.encode(), Some((vec![1], 56000)));
    let mut p = good;
    let r = &mut c.rng;
    let flip = |r: &mut Rng, x: &mut [u8; 32]| x[r.below(32)] ^= 1 << r.below(8);
    match r.below(10) {
        0 => {
            let i = r.below(3);
            flip(r, &mut p.roots[i]);
        }
        1 => {
            let i = r.below(p.leaves.len());
            flip(r, &mut p.leaves[i]);
        }
        2 if !p.lemmas.is_empty() => {
            let i = r.below(p.lemmas.len());
            flip(r, &mut p.lemmas[i]);
        }
        3 => p.kind = (p.kind == 0) as u8,
        4 => p.lemmas.push(r.arr()),
        5 if !p.lemmas.is_empty() => {
            p.lemmas.pop();
        }
        6 => {
            let i = r.below(p.indices.len());
            p.indices[i] = p.indices[i].wrapping_add(1 + r.below(5) as u32);
        }
        7 => {
            p.leaves.clear();
            if r.bool() {
                p.indices.clear();
            }
        }
        8 => {
            // one leaf claimed without its place
            p.indices.pop();
        }
        _ => {
            // a right root under transaction roots in the wrong order
            p.roots[0] = ckb_hash(&[&p.roots[1], &p.roots[2]]);
        }
    }
    b.judge(c, "cmbt", a, &p.encode(), None);
    let mut junk = p.encode();
    let r = &mut c.rng;
    if r.chance(1, 3) {
        // lengths and offsets that point nowhere
        let i = 32 * r.below(junk.len() / 32);
        junk[i..i + 32].copy_from_slice(&if r.bool() { [0xff; 32] } else { w32(U256::from(r.u64())) });
        junk.truncate(r.below(junk.len() + 1));
        let base = 30_000_000;
        if let Err(p) = b.run(a, &junk, base) {
            c.violate("cmbt/panic", format!("malformed input panics: {}", p.msg), json!({"input": hex(&junk)}));
        }
        c.event("cmbt.malformed");
    }
}

pub fn p23(c: &mut Ctx) {
    let g = genesis(&[H160::repeat_byte(7)], |_| U256::from(1000), vec![], 1, 0);
    let dir = c.scratch.join("p23");
    let (w, _) = World::genesis(&dir, 64, &g, vec![]);
    let b = Bench { w };
    c.stage("hashes");
    for i in 0..c.scale(200, 20000) {
        let n = match i % 4 {
            0 => c.rng.below(4) * 32 + c.rng.below(3),
            1 => c.rng.below(700),
            _ => c.rng.below(100),
        };
        let d = c.rng.bytes(n);
        b.judge(c, "sha256", std_addr(2), &d, Some((sha2::Sha256::digest(&d).to_vec(), 60 + 12 * words(n))));
        let h = ripemd::Ripemd160::digest(&d);
        b.judge(c, "ripemd160", std_addr(3), &d, Some(([&[0; 12][..], &h].concat(), 600 + 120 * words(n))));
        b.judge(c, "identity", std_addr(4), &d, Some((d.clone(), 15 + 3 * words(n))));
        b.judge(c, "ckb-blake2b", axon_addr(6), &d, Some((ckb_hash(&[&d]).to_vec(), 60 + 12 * words(n))));
    }
    for (stage, n, f) in [
        ("ecrecover", c.scale(250, 20000), ecrecover as fn(&mut Ctx, &Bench)),
        ("modexp", c.scale(700, 60000), modexp),
        ("curve", c.scale(40, 3000), curve),
        ("pairing", c.scale(25, 400), pairing),
        ("blake2f", c.scale(300, 20000), blake2f),
        ("cmbt", c.scale(200, 20000), cmbt),
    ] {
        c.stage(stage);
        for _ in 0..n {
            f(c, &b);
            if !c.within(1.0) {
                break;
            }
        }
    }
    c.stage("no other");
    for n in [0u64, 10, 11, 0x100, 0x101, 0x103, 0x105, 0x108, 0x109, 0x1ff] {
        let to = H160::from_low_u64_be(n);
        let d = c.rng.bytes(40);
        let base: u64 = 21000 + d.iter().map(|b| if *b == 0 { 4u64 } else { 16 }).sum::<u64>();
        if let Ok(r) = b.run(to, &d, base) {
            c.ensure(r.exit_reason.is_succeed() && r.ret.is_empty() && r.gas_used == base, "unassigned", || {
                ("an address without a contract behaves as if it had one".into(), json!({"address": n, "exit": format!("{:?}", r.exit_reason)}))
            });
        }
    }
}
