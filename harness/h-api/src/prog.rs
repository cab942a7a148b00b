//! Small programs for the virtual machine, and a contract that runs whatever program a transaction carries.
use protocol::types::{H160, H256, U256};

pub struct P(pub Vec<u8>);

pub fn word(x: U256) -> [u8; 32] {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    b
}
impl P {
    pub fn new() -> P {
        P(vec![])
    }
    pub fn op(&mut self, b: &[u8]) -> &mut P {
        self.0.extend(b);
        self
    }
    pub fn push(&mut self, x: &[u8]) -> &mut P {
        assert!(!x.is_empty() && x.len() <= 32);
        self.0.push(0x5f + x.len() as u8);
        self.op(x)
    }
    pub fn n(&mut self, x: u64) -> &mut P {
        let b = x.to_be_bytes();
        let at = b.iter().position(|b| *b != 0).unwrap_or(7);
        self.push(&b[at..])
    }
    /// bytes into memory from 0 on
    pub fn mem(&mut self, data: &[u8]) -> &mut P {
        for (i, c) in data.chunks(32).enumerate() {
            let mut w = [0; 32];
            w[..c.len()].copy_from_slice(c);
            self.push(&w).n(i as u64 * 32).op(&[0x52]);
        }
        self
    }
    pub fn log(&mut self, topics: &[H256], data: &[u8]) -> &mut P {
        self.mem(data);
        for t in topics.iter().rev() {
            self.push(&t.0);
        }
        self.n(data.len() as u64).n(0).op(&[0xa0 + topics.len() as u8])
    }
    pub fn sstore(&mut self, k: U256, v: U256) -> &mut P {
        self.push(&word(v)).push(&word(k)).op(&[0x55])
    }
    pub fn revert(&mut self, data: &[u8]) -> &mut P {
        self.mem(data).n(data.len() as u64).n(0).op(&[0xfd])
    }
    /// returns one word per program: each leaves its value on the stack
    pub fn answers(&mut self, words: &[Vec<u8>]) -> &mut P {
        for (i, w) in words.iter().enumerate() {
            self.op(w).n(i as u64 * 32).op(&[0x52]);
        }
        self.n(words.len() as u64 * 32).n(0).op(&[0xf3])
    }
    /// has another runner run a program; what comes of it is left aside
    pub fn call(&mut self, to: &H160, data: &[u8]) -> &mut P {
        self.mem(data);
        self.n(0).n(0).n(data.len() as u64).n(0).n(0).push(&to.0).op(&[0x5a, 0xf1, 0x50])
    }
    pub fn spin(&mut self, times: u64) -> &mut P {
        // i: JUMPDEST, 1, SWAP1, SUB, DUP1, at, JUMPI
        self.n(times);
        let at = self.0.len() as u64;
        self.op(&[0x5b, 0x60, 1, 0x90, 0x03, 0x80, 0x61, (at >> 8) as u8, at as u8, 0x57, 0x50])
    }
    /// as the calldata of a runner, or the init code of a contract with this code
    pub fn wrap(&self) -> Vec<u8> {
        deploy(&self.0)
    }
}
/// init code for a contract with this code
pub fn deploy(code: &[u8]) -> Vec<u8> {
    let (a, b) = ((code.len() >> 8) as u8, code.len() as u8);
    [&[0x61, a, b, 0x60, 14, 0x60, 0, 0x39, 0x61, a, b, 0x60, 0, 0xf3][..], code].concat()
}
/// creates a contract from the calldata and runs its code as its own
pub fn runner() -> Vec<u8> {
    let mut p = P::new();
    p.op(&[0x36, 0x60, 0, 0x60, 0, 0x37, 0x36, 0x60, 0, 0x60, 0, 0xf0]);
    p.op(&[0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x84, 0x5a, 0xf4]);
    p.op(&[0x3d, 0x60, 0, 0x60, 0, 0x3e, 0x60, 0x24, 0x57, 0x3d, 0x60, 0, 0xfd, 0x5b, 0x3d, 0x60, 0, 0xf3]);
    p.0
}
