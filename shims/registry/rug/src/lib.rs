//! Stand-in for `rug` (GMP is not available offline): a non-negative big integer with just the
//! surface core-executor's modexp precompile uses.  Schoolbook arithmetic on u32 limbs (little endian).
use std::cmp::Ordering;
use std::ops::{Add, BitAnd, Div, Mul, Rem, Sub};

use az::SaturatingCast;

pub mod ops {
    pub trait Pow<Rhs> {
        type Output;
        fn pow(self, rhs: Rhs) -> Self::Output;
    }
}

pub mod integer {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Order {
        MsfBe,
        MsfLe,
        LsfBe,
        LsfLe,
    }
    pub trait UnsignedPrimitive: Sized {
        fn to_vec_be(limbs: &[u32]) -> Vec<Self>;
        fn from_be(d: &[Self]) -> Vec<u32>;
    }
    impl UnsignedPrimitive for u8 {
        fn to_vec_be(limbs: &[u32]) -> Vec<u8> {
            let mut out: Vec<u8> = limbs.iter().rev().flat_map(|l| l.to_be_bytes()).collect();
            let z = out.iter().take_while(|b| **b == 0).count();
            out.drain(..z);
            out
        }
        fn from_be(d: &[u8]) -> Vec<u32> {
            let mut v = Vec::with_capacity(d.len() / 4 + 1);
            for c in d.rchunks(4) {
                let mut x = 0u32;
                for b in c {
                    x = (x << 8) | *b as u32;
                }
                v.push(x);
            }
            v
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Integer(Vec<u32>);

fn norm(mut v: Vec<u32>) -> Integer {
    while v.last() == Some(&0) {
        v.pop();
    }
    Integer(v)
}

fn divrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "division by zero");
    if cmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let x = (r << 32) | a[i] as u64;
            q[i] = (x / d) as u32;
            r = x % d;
        }
        return (norm(q).0, norm(vec![r as u32]).0);
    }
    // Knuth D
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32], extra: bool| {
        let mut o = Vec::with_capacity(v.len() + 1);
        let mut c = 0u64;
        for x in v {
            let t = ((*x as u64) << s) | c;
            o.push(t as u32);
            c = t >> 32;
        }
        if extra {
            o.push(c as u32);
        }
        o
    };
    let v = shl(b, false);
    let mut u = shl(a, true);
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p as u32) as i64;
            u[i + j] = t as u32;
            borrow = (t < 0) as i64;
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = if s == 0 { u[i] } else { (u[i] >> s) | ((u[i + 1] as u64) << (32 - s)) as u32 };
    }
    (norm(q).0, norm(r).0)
}

fn mulv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut o = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + o[i + j] as u64 + c;
            o[i + j] = t as u32;
            c = t >> 32;
        }
        o[i + b.len()] = c as u32;
    }
    norm(o).0
}

fn cmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

impl Integer {
    pub const ZERO: Integer = Integer(Vec::new());

    pub fn new() -> Self {
        Integer(vec![])
    }

    pub fn from_digits<T: integer::UnsignedPrimitive>(d: &[T], order: integer::Order) -> Self {
        assert!(order == integer::Order::MsfBe);
        norm(T::from_be(d))
    }

    pub fn to_digits<T: integer::UnsignedPrimitive>(&self, order: integer::Order) -> Vec<T> {
        assert!(order == integer::Order::MsfBe);
        T::to_vec_be(&self.0)
    }

    pub fn abs_ref(&self) -> &Integer {
        self
    }

    pub fn significant_bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(l) => self.0.len() as u32 * 32 - l.leading_zeros(),
        }
    }

    pub fn pow_mod(self, e: &Integer, m: &Integer) -> Result<Integer, Integer> {
        if m.0.is_empty() {
            return Err(self);
        }
        let mut acc = divrem(&[1], &m.0).1;
        let base = divrem(&self.0, &m.0).1;
        for i in (0..e.significant_bits()).rev() {
            acc = divrem(&mulv(&acc, &acc), &m.0).1;
            if (e.0[(i / 32) as usize] >> (i % 32)) & 1 == 1 {
                acc = divrem(&mulv(&acc, &base), &m.0).1;
            }
        }
        Ok(Integer(acc))
    }
}

impl From<&Integer> for Integer {
    fn from(v: &Integer) -> Self {
        v.clone()
    }
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl From<$t> for Integer {
            fn from(v: $t) -> Self {
                let v = u128::try_from(v).expect("non-negative");
                norm((0..4).map(|i| (v >> (32 * i)) as u32).collect())
            }
        }
        impl PartialEq<$t> for Integer {
            fn eq(&self, o: &$t) -> bool { *self == Integer::from(*o) }
        }
        impl PartialOrd<$t> for Integer {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.partial_cmp(&Integer::from(*o)) }
        }
        impl Add<$t> for Integer { type Output = Integer; fn add(self, o: $t) -> Integer { self + Integer::from(o) } }
        impl Sub<$t> for Integer { type Output = Integer; fn sub(self, o: $t) -> Integer { self - Integer::from(o) } }
        impl Mul<$t> for Integer { type Output = Integer; fn mul(self, o: $t) -> Integer { self * Integer::from(o) } }
        impl Div<$t> for Integer { type Output = Integer; fn div(self, o: $t) -> Integer { self / Integer::from(o) } }
        impl Mul<Integer> for $t { type Output = Integer; fn mul(self, o: Integer) -> Integer { Integer::from(self) * o } }
        impl Rem<$t> for Integer { type Output = Integer; fn rem(self, o: $t) -> Integer { self % Integer::from(o) } }
    )*};
}
prim!(u8, u16, u32, u64, usize, u128, i32, i64);

impl PartialOrd for Integer {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Integer {
    fn cmp(&self, o: &Self) -> Ordering {
        cmp(&self.0, &o.0)
    }
}
impl Add for Integer {
    type Output = Integer;
    fn add(self, o: Integer) -> Integer {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let t = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        norm(v)
    }
}
impl Sub for Integer {
    type Output = Integer;
    fn sub(self, o: Integer) -> Integer {
        assert!(self >= o, "shim: negative integers are not supported");
        let mut v = self.0.clone();
        let mut b = 0i64;
        for i in 0..v.len() {
            let t = v[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            v[i] = t as u32;
            b = (t < 0) as i64;
        }
        norm(v)
    }
}
impl Mul for Integer {
    type Output = Integer;
    fn mul(self, o: Integer) -> Integer {
        Integer(mulv(&self.0, &o.0))
    }
}
impl Div for Integer {
    type Output = Integer;
    fn div(self, o: Integer) -> Integer {
        Integer(divrem(&self.0, &o.0).0)
    }
}
impl Rem for Integer {
    type Output = Integer;
    fn rem(self, o: Integer) -> Integer {
        Integer(divrem(&self.0, &o.0).1)
    }
}
impl BitAnd for Integer {
    type Output = Integer;
    fn bitand(self, o: Integer) -> Integer {
        norm(self.0.iter().zip(o.0.iter()).map(|(a, b)| a & b).collect())
    }
}
impl ops::Pow<u32> for Integer {
    type Output = Integer;
    fn pow(self, e: u32) -> Integer {
        let mut r = Integer::from(1u32);
        for i in (0..32).rev() {
            r = r.clone() * r;
            if (e >> i) & 1 == 1 {
                r = r * self.clone();
            }
        }
        r
    }
}
impl SaturatingCast<usize> for Integer {
    fn saturating_cast(self) -> usize {
        SaturatingCast::<u64>::saturating_cast(self) as usize
    }
}
impl SaturatingCast<u64> for Integer {
    fn saturating_cast(self) -> u64 {
        match self.0.len() {
            0 => 0,
            1 => self.0[0] as u64,
            2 => (self.0[1] as u64) << 32 | self.0[0] as u64,
            _ => u64::MAX,
        }
    }
}
