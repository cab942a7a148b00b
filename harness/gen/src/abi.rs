//! Solidity ABI encoding, written from its specification.
use protocol::types::{H160, H256, U256};
use vlib::oracle::keccak256;

#[derive(Clone)]
pub enum A {
    W([u8; 32]),
    B(Vec<u8>),
    T(Vec<A>),
    L(Vec<A>),
}
pub fn u(x: u128) -> A {
    let mut b = [0; 32];
    U256::from(x).to_big_endian(&mut b);
    A::W(b)
}
pub fn addr(x: &H160) -> A {
    let mut b = [0; 32];
    b[12..].copy_from_slice(&x.0);
    A::W(b)
}
pub fn h(x: &H256) -> A {
    A::W(x.0)
}
impl A {
    fn dynamic(&self) -> bool {
        match self {
            A::W(_) => false,
            A::B(_) | A::L(_) => true,
            A::T(v) => v.iter().any(|a| a.dynamic()),
        }
    }
    fn enc(&self) -> Vec<u8> {
        let len = |n: usize| {
            let A::W(b) = u(n as u128) else { unreachable!() };
            b.to_vec()
        };
        match self {
            A::W(b) => b.to_vec(),
            A::B(b) => {
                let mut o = len(b.len());
                o.extend(b);
                o.resize(32 + (b.len() + 31) / 32 * 32, 0);
                o
            }
            A::T(v) => seq(v),
            A::L(v) => [len(v.len()), seq(v)].concat(),
        }
    }
}
/// heads, then the dynamic parts
pub fn seq(v: &[A]) -> Vec<u8> {
    let enc: Vec<Vec<u8>> = v.iter().map(|a| a.enc()).collect();
    let head: usize = v.iter().zip(&enc).map(|(a, e)| if a.dynamic() { 32 } else { e.len() }).sum();
    let (mut out, mut tail) = (vec![], vec![]);
    for (a, e) in v.iter().zip(enc) {
        if a.dynamic() {
            let A::W(b) = u((head + tail.len()) as u128) else { unreachable!() };
            out.extend(b);
            tail.extend(e);
        } else {
            out.extend(e);
        }
    }
    out.extend(tail);
    out
}
pub fn call(sig: &str, args: &[A]) -> Vec<u8> {
    [&keccak256(sig.as_bytes())[..4], &seq(args)].concat()
}
