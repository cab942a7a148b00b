//! Stand-in for `substrate-bn` (not available offline): BN254 with a plain, unoptimised ate pairing,
//! restricted to the surface core-executor's precompiles use.
use std::ops::{Add, Mul, Neg, Sub};

const P: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
const ORDER: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
const R1: [u64; 4] = [0xd35d438dc58f0d9d, 0x0a78eb28f5c70b3d, 0x666ea36f7879462c, 0x0e0a77c19a07df2f];
const R2: [u64; 4] = [0xf32cfc5b538afa89, 0xb5e71911d44501fb, 0x47ab1eff0a417ff6, 0x06d89f71cab8351f];
const INV: u64 = 0x87d20782e4866389;
/// (p^12 - 1) / r, big endian.
const FINAL_EXP: &str = "2f4b6dc97020fddadf107d20bc842d43bf6369b1ff6a1c71015f3f7be2e1e30a73bb94fec0daf15466b2383a5d3ec3d15ad524d8f70c54efee1bd8c3b21377e563a09a1b705887e72eceaddea3790364a61f676baaf977870e88d5c6c8fef0781361e443ae77f5b63a2a2264487f2940a8b1ddb3d15062cd0fb2015dfc6668449aed3cc48a82d0d602d268c7daab6a41294c0cc4ebe5664568dfc50e1648a45a4a1e3a5195846a3ed011a337a02088ec80e0ebae8755cfe107acf3aafb40494e406f804216bb10cf430b0f37856b42db8dc5514724ee93dfb10826f0dd4a0364b9580291d2cd65664814fde37ca80bb4ea44eacc5e641bbadf423f9a2cbf813b8d145da90029baee7ddadda71c7f3811c4105262945bba1668c3be69a3c230974d83561841d766f9c9d570bb7fbe04c7e8a6c3c760c0de81def35692da361102b6b9b2b918837fa97896e84abb40a4efb7e54523a486964b64ca86f120";
const P_MINUS_2: [u64; 4] = [0x3c208c16d87cfd45, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
const P_MINUS_1_OVER_3: [u64; 4] = [0x69602eb24829a9c2, 0xdd2b2385cd7b4384, 0xe81ac1e7808072c9, 0x10216f7ba065e00d];
const P_MINUS_1_OVER_2: [u64; 4] = [0x9e10460b6c3e7ea3, 0xcbc0b548b438e546, 0xdc2822db40c0ac2e, 0x183227397098d014];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        o[i] = x;
        br = b1 | b2;
    }
    (o, br)
}
fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        o[i] = t as u64;
        c = t >> 64;
    }
    (o, c != 0)
}
fn from_be(d: &[u8]) -> Result<[u64; 4], Error> {
    if d.len() != 32 {
        return Err(Error);
    }
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[3 - i] = u64::from_be_bytes(d[i * 8..i * 8 + 8].try_into().unwrap());
    }
    Ok(o)
}

/// Montgomery form.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fq([u64; 4]);

fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[4] = s as u64;
        t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
        for j in 1..4 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[3] = s as u64;
        t[4] = t[5] + (s >> 64) as u64;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &P) {
        sub_raw(&r, &P).0
    } else {
        r
    }
}

impl Fq {
    pub fn zero() -> Self {
        Fq([0; 4])
    }
    pub fn one() -> Self {
        Fq(R1)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn small(n: u64) -> Self {
        Fq(mont_mul(&[n, 0, 0, 0], &R2))
    }
    pub fn from_slice(d: &[u8]) -> Result<Self, Error> {
        let v = from_be(d)?;
        if geq(&v, &P) {
            return Err(Error);
        }
        Ok(Fq(mont_mul(&v, &R2)))
    }
    pub fn to_big_endian(&self, out: &mut [u8]) -> Result<(), Error> {
        if out.len() != 32 {
            return Err(Error);
        }
        let v = mont_mul(&self.0, &[1, 0, 0, 0]);
        for i in 0..4 {
            out[i * 8..i * 8 + 8].copy_from_slice(&v[3 - i].to_be_bytes());
        }
        Ok(())
    }
    fn inv(&self) -> Self {
        let mut acc = Fq::one();
        for i in (0..256).rev() {
            acc = acc * acc;
            if (P_MINUS_2[i / 64] >> (i % 64)) & 1 == 1 {
                acc = acc * *self;
            }
        }
        acc
    }
}
impl Add for Fq {
    type Output = Fq;
    fn add(self, o: Fq) -> Fq {
        let (r, c) = add_raw(&self.0, &o.0);
        if c || geq(&r, &P) {
            Fq(sub_raw(&r, &P).0)
        } else {
            Fq(r)
        }
    }
}
impl Sub for Fq {
    type Output = Fq;
    fn sub(self, o: Fq) -> Fq {
        let (r, b) = sub_raw(&self.0, &o.0);
        if b {
            Fq(add_raw(&r, &P).0)
        } else {
            Fq(r)
        }
    }
}
impl Mul for Fq {
    type Output = Fq;
    fn mul(self, o: Fq) -> Fq {
        Fq(mont_mul(&self.0, &o.0))
    }
}
impl Neg for Fq {
    type Output = Fq;
    fn neg(self) -> Fq {
        Fq::zero() - self
    }
}

/// A scalar; any 32 bytes are accepted (the group order makes the reduction immaterial).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fr([u64; 4]);
impl Fr {
    pub fn from_slice(d: &[u8]) -> Result<Self, Error> {
        let mut v = from_be(d)?;
        while geq(&v, &ORDER) {
            v = sub_raw(&v, &ORDER).0;
        }
        Ok(Fr(v))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fq2 {
    c0: Fq,
    c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    pub fn zero() -> Self {
        Fq2::new(Fq::zero(), Fq::zero())
    }
    pub fn is_zero(&self) -> bool {
        self.c0.is_zero() && self.c1.is_zero()
    }
    fn conj(self) -> Self {
        Fq2::new(self.c0, -self.c1)
    }
    fn pow(self, e: &[u64; 4]) -> Self {
        let mut acc = Fq2::new(Fq::one(), Fq::zero());
        for i in (0..256).rev() {
            acc = acc * acc;
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                acc = acc * self;
            }
        }
        acc
    }
}
impl Add for Fq2 {
    type Output = Fq2;
    fn add(self, o: Fq2) -> Fq2 {
        Fq2::new(self.c0 + o.c0, self.c1 + o.c1)
    }
}
impl Sub for Fq2 {
    type Output = Fq2;
    fn sub(self, o: Fq2) -> Fq2 {
        Fq2::new(self.c0 - o.c0, self.c1 - o.c1)
    }
}
impl Mul for Fq2 {
    type Output = Fq2;
    fn mul(self, o: Fq2) -> Fq2 {
        Fq2::new(self.c0 * o.c0 - self.c1 * o.c1, self.c0 * o.c1 + self.c1 * o.c0)
    }
}

trait Field: Copy + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> {
    fn f_zero() -> Self;
    fn f_inv(self) -> Self;
}
impl Field for Fq {
    fn f_zero() -> Self {
        Fq::zero()
    }
    fn f_inv(self) -> Self {
        self.inv()
    }
}
impl Field for Fq2 {
    fn f_zero() -> Self {
        Fq2::zero()
    }
    fn f_inv(self) -> Self {
        let n = (self.c0 * self.c0 + self.c1 * self.c1).inv();
        Fq2::new(self.c0 * n, -(self.c1 * n))
    }
}

type Pt<F> = Option<(F, F)>;
fn slope<F: Field>(a: (F, F), b: (F, F)) -> Option<F> {
    if a.0 != b.0 {
        Some((b.1 - a.1) * (b.0 - a.0).f_inv())
    } else if a.1 == b.1 && a.1 != F::f_zero() {
        let x2 = a.0 * a.0;
        Some((x2 + x2 + x2) * (a.1 + a.1).f_inv())
    } else {
        None
    }
}
fn pt_add<F: Field>(a: Pt<F>, b: Pt<F>) -> Pt<F> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => slope(a, b).map(|m| {
            let x = m * m - a.0 - b.0;
            (x, m * (a.0 - x) - a.1)
        }),
    }
}
fn pt_mul<F: Field>(a: Pt<F>, e: &[u64; 4]) -> Pt<F> {
    let mut acc = None;
    for i in (0..256).rev() {
        acc = pt_add(acc, acc);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            acc = pt_add(acc, a);
        }
    }
    acc
}

pub trait Group {
    fn zero() -> Self;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct G1(Pt<Fq>);
impl Group for G1 {
    fn zero() -> Self {
        G1(None)
    }
}
impl Add for G1 {
    type Output = G1;
    fn add(self, o: G1) -> G1 {
        G1(pt_add(self.0, o.0))
    }
}
impl Mul<Fr> for G1 {
    type Output = G1;
    fn mul(self, o: Fr) -> G1 {
        G1(pt_mul(self.0, &o.0))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct G2(Pt<Fq2>);
impl Group for G2 {
    fn zero() -> Self {
        G2(None)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AffineG1 {
    x: Fq,
    y: Fq,
}
impl AffineG1 {
    pub fn new(x: Fq, y: Fq) -> Result<Self, Error> {
        if y * y == x * x * x + Fq::small(3) {
            Ok(AffineG1 { x, y })
        } else {
            Err(Error)
        }
    }
    pub fn from_jacobian(g: G1) -> Option<Self> {
        g.0.map(|(x, y)| AffineG1 { x, y })
    }
    pub fn x(&self) -> Fq {
        self.x
    }
    pub fn y(&self) -> Fq {
        self.y
    }
}
impl From<AffineG1> for G1 {
    fn from(a: AffineG1) -> G1 {
        G1(Some((a.x, a.y)))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AffineG2 {
    x: Fq2,
    y: Fq2,
}
impl AffineG2 {
    pub fn new(x: Fq2, y: Fq2) -> Result<Self, Error> {
        let xi = Fq2::new(Fq::small(9), Fq::one());
        let b = Fq2::new(Fq::small(3), Fq::zero()) * xi.f_inv();
        if y * y != x * x * x + b || pt_mul(Some((x, y)), &ORDER).is_some() {
            return Err(Error);
        }
        Ok(AffineG2 { x, y })
    }
}
impl From<AffineG2> for G2 {
    fn from(a: AffineG2) -> G2 {
        G2(Some((a.x, a.y)))
    }
}

/// Polynomials in w modulo w^12 - 18 w^6 + 82 (w^6 = 9 + i).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Fq12([Fq; 12]);
impl Fq12 {
    fn one() -> Self {
        let mut c = [Fq::zero(); 12];
        c[0] = Fq::one();
        Fq12(c)
    }
    /// x * w^k
    fn embed(x: Fq2, k: usize) -> Self {
        let mut c = [Fq::zero(); 12];
        c[k] = x.c0 - Fq::small(9) * x.c1;
        c[k + 6] = x.c1;
        Fq12(c)
    }
}
impl Sub for Fq12 {
    type Output = Fq12;
    fn sub(self, o: Fq12) -> Fq12 {
        let mut c = self.0;
        for i in 0..12 {
            c[i] = c[i] - o.0[i];
        }
        Fq12(c)
    }
}
impl Mul for Fq12 {
    type Output = Fq12;
    fn mul(self, o: Fq12) -> Fq12 {
        let mut t = [Fq::zero(); 23];
        for i in 0..12 {
            if self.0[i].is_zero() {
                continue;
            }
            for j in 0..12 {
                t[i + j] = t[i + j] + self.0[i] * o.0[j];
            }
        }
        let (c18, c82) = (Fq::small(18), Fq::small(82));
        for k in (12..23).rev() {
            let v = t[k];
            t[k - 6] = t[k - 6] + c18 * v;
            t[k - 12] = t[k - 12] - c82 * v;
        }
        Fq12(t[..12].try_into().unwrap())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Gt(Fq12);
impl Gt {
    pub fn one() -> Self {
        Gt(Fq12::one())
    }
}

/// The line through the twists of a and b, at the G1 point t.
fn line(a: (Fq2, Fq2), b: (Fq2, Fq2), t: (Fq, Fq)) -> Fq12 {
    let xt = Fq12::embed(Fq2::new(t.0, Fq::zero()), 0);
    let yt = Fq12::embed(Fq2::new(t.1, Fq::zero()), 0);
    let dx = xt - Fq12::embed(a.0, 2);
    match slope(a, b) {
        Some(m) => Fq12::embed(m, 1) * dx - (yt - Fq12::embed(a.1, 3)),
        None => dx,
    }
}

fn miller(p: (Fq, Fq), q: (Fq2, Fq2)) -> Fq12 {
    const ATE: u128 = 29793968203157093288;
    let mut r = q;
    let mut f = Fq12::one();
    for i in (0..64).rev() {
        f = f * f * line(r, r, p);
        r = pt_add(Some(r), Some(r)).unwrap();
        if (ATE >> i) & 1 == 1 {
            f = f * line(r, q, p);
            r = pt_add(Some(r), Some(q)).unwrap();
        }
    }
    let xi = Fq2::new(Fq::small(9), Fq::one());
    let (gx, gy) = (xi.pow(&P_MINUS_1_OVER_3), xi.pow(&P_MINUS_1_OVER_2));
    let frob = |a: (Fq2, Fq2)| (a.0.conj() * gx, a.1.conj() * gy);
    let q1 = frob(q);
    let q2 = frob(q1);
    let nq2 = (q2.0, Fq2::zero() - q2.1);
    f = f * line(r, q1, p);
    r = pt_add(Some(r), Some(q1)).unwrap();
    f * line(r, nq2, p)
}

pub fn pairing_batch(pairs: &[(G1, G2)]) -> Gt {
    let mut f = Fq12::one();
    for (a, b) in pairs {
        if let (Some(a), Some(b)) = (a.0, b.0) {
            f = f * miller(a, b);
        }
    }
    if f == Fq12::one() {
        return Gt::one();
    }
    let mut acc = Fq12::one();
    for c in FINAL_EXP.chars() {
        let d = c.to_digit(16).unwrap();
        for i in (0..4).rev() {
            acc = acc * acc;
            if (d >> i) & 1 == 1 {
                acc = acc * f;
            }
        }
    }
    Gt(acc)
}
