//! Straight-line contract programs with a known meaning: an assembler, and a model that runs the same program over a
//! plain map of accounts.
use protocol::types::{Log, H160, H256, U256};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vlib::oracle::{keccak256, R};
use vlib::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Env {
    Address,
    Origin,
    Caller,
    CallValue,
    GasPrice,
    Coinbase,
    Timestamp,
    Number,
    Difficulty,
    GasLimit,
    ChainId,
    SelfBalance,
    BaseFee,
}
pub const ENVS: [(Env, u8); 13] = [
    (Env::Address, 0x30),
    (Env::Origin, 0x32),
    (Env::Caller, 0x33),
    (Env::CallValue, 0x34),
    (Env::GasPrice, 0x3a),
    (Env::Coinbase, 0x41),
    (Env::Timestamp, 0x42),
    (Env::Number, 0x43),
    (Env::Difficulty, 0x44),
    (Env::GasLimit, 0x45),
    (Env::ChainId, 0x46),
    (Env::SelfBalance, 0x47),
    (Env::BaseFee, 0x48),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Call,
    Delegate,
    Static,
    Code,
}

#[derive(Clone, Debug)]
pub enum Op {
    Sstore(H256, H256),
    Copy(H256, H256),
    Log(Vec<H256>, Vec<u8>),
    Call { kind: Kind, to: H160, value: U256, gas: u64, slot: H256 },
    Create { init: Rc<Init>, value: U256, salt: Option<H256>, slot: H256 },
    Env(Env, H256),
    Balance(H160, H256),
    CodeHash(H160, H256),
    BlockHash(U256, H256),
}
#[derive(Clone, Debug)]
pub enum End {
    Stop,
    Return(Vec<u8>),
    Revert(Vec<u8>),
    Invalid,
    Destroy(H160),
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub ops: Vec<Op>,
    pub end: End,
}
#[derive(Clone, Debug)]
pub enum InitEnd {
    Deploy(Rc<Prog>),
    Raw(Vec<u8>),
    Other(End),
}
#[derive(Clone, Debug)]
pub struct Init {
    pub ops: Vec<Op>,
    pub end: InitEnd,
}

struct Asm {
    code: Vec<u8>,
    data: Vec<u8>,
    fix: Vec<(usize, usize)>,
}
impl Asm {
    fn push(&mut self, b: &[u8]) {
        let mut b = b;
        while b.len() > 1 && b[0] == 0 {
            b = &b[1..];
        }
        self.code.push(0x5f + b.len() as u8);
        self.code.extend(b);
    }
    fn num(&mut self, n: u64) {
        self.push(&n.to_be_bytes());
    }
    /// PUSH3 of the code offset of a data segment
    fn seg(&mut self, bytes: &[u8]) {
        self.code.push(0x62);
        self.fix.push((self.code.len(), self.data.len()));
        self.code.extend([0; 3]);
        self.data.extend(bytes);
    }
    /// bring data into memory at 0
    fn load(&mut self, bytes: &[u8]) {
        self.num(bytes.len() as u64);
        self.seg(bytes);
        self.num(0);
        self.code.push(0x39);
    }
    fn u256(&mut self, v: &U256) {
        let mut b = [0; 32];
        v.to_big_endian(&mut b);
        self.push(&b);
    }
    /// store the top of the stack
    fn keep(&mut self, slot: &H256) {
        self.push(&slot.0);
        self.code.push(0x55);
    }
    fn ops(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Sstore(k, v) => {
                    self.push(&v.0);
                    self.keep(k);
                }
                Op::Copy(a, b) => {
                    self.push(&a.0);
                    self.code.push(0x54);
                    self.keep(b);
                }
                Op::Log(topics, data) => {
                    self.load(data);
                    for t in topics.iter().rev() {
                        self.push(&t.0);
                    }
                    self.num(data.len() as u64);
                    self.num(0);
                    self.code.push(0xa0 + topics.len() as u8);
                }
                Op::Call { kind, to, value, gas, slot } => {
                    for _ in 0..4 {
                        self.num(0);
                    }
                    if matches!(kind, Kind::Call | Kind::Code) {
                        self.u256(value);
                    }
                    self.push(&to.0);
                    self.num(*gas);
                    self.code.push(match kind {
                        Kind::Call => 0xf1,
                        Kind::Code => 0xf2,
                        Kind::Delegate => 0xf4,
                        Kind::Static => 0xfa,
                    });
                    self.keep(slot);
                }
                Op::Create { init, value, salt, slot } => {
                    let code = init.code();
                    self.load(&code);
                    if let Some(s) = salt {
                        self.push(&s.0);
                    }
                    self.num(code.len() as u64);
                    self.num(0);
                    self.u256(value);
                    self.code.push(if salt.is_some() { 0xf5 } else { 0xf0 });
                    self.keep(slot);
                }
                Op::Env(e, slot) => {
                    self.code.push(ENVS.iter().find(|x| x.0 == *e).unwrap().1);
                    self.keep(slot);
                }
                Op::Balance(a, slot) => {
                    self.push(&a.0);
                    self.code.push(0x31);
                    self.keep(slot);
                }
                Op::CodeHash(a, slot) => {
                    self.push(&a.0);
                    self.code.push(0x3f);
                    self.keep(slot);
                }
                Op::BlockHash(n, slot) => {
                    self.u256(n);
                    self.code.push(0x40);
                    self.keep(slot);
                }
            }
        }
    }
    fn give(&mut self, data: &[u8], op: u8) {
        self.load(data);
        self.num(data.len() as u64);
        self.num(0);
        self.code.push(op);
    }
    fn end(&mut self, e: &End) {
        match e {
            End::Stop => self.code.push(0),
            End::Return(d) => self.give(d, 0xf3),
            End::Revert(d) => self.give(d, 0xfd),
            End::Invalid => self.code.push(0xfe),
            End::Destroy(a) => {
                self.push(&a.0);
                self.code.push(0xff);
            }
        }
    }
    fn done(mut self) -> Vec<u8> {
        let base = self.code.len();
        for (at, off) in self.fix {
            let v = ((base + off) as u32).to_be_bytes();
            self.code[at..at + 3].copy_from_slice(&v[1..]);
        }
        self.code.extend(self.data);
        self.code
    }
}
fn asm() -> Asm {
    Asm { code: vec![], data: vec![], fix: vec![] }
}
impl Prog {
    pub fn code(&self) -> Vec<u8> {
        let mut a = asm();
        a.ops(&self.ops);
        a.end(&self.end);
        a.done()
    }
    /// an amount of gas that is certainly enough
    pub fn need(&self) -> u64 {
        need(&self.ops)
    }
}
fn need(ops: &[Op]) -> u64 {
    let mut n = 60_000;
    for op in ops {
        n += match op {
            Op::Call { gas, .. } => gas + gas / 50 + 70_000,
            Op::Create { init, .. } => {
                let g = init.need();
                g + g / 40 + 100_000
            }
            _ => 30_000,
        };
    }
    n
}
impl Init {
    pub fn code(&self) -> Vec<u8> {
        let mut a = asm();
        a.ops(&self.ops);
        match &self.end {
            InitEnd::Deploy(p) => a.give(&p.code(), 0xf3),
            InitEnd::Raw(b) => a.give(b, 0xf3),
            InitEnd::Other(e) => a.end(e),
        }
        a.done()
    }
    pub fn need(&self) -> u64 {
        need(&self.ops) + 100_000 + 220 * self.code().len() as u64
    }
}

#[derive(Clone, Debug, Default)]
pub struct Acc {
    pub nonce: U256,
    pub balance: U256,
    pub code: Option<Rc<Prog>>,
    /// code that is not a program of ours (only called by nobody)
    pub raw: Vec<u8>,
    pub storage: BTreeMap<H256, H256>,
}
impl Acc {
    pub fn empty(&self) -> bool {
        self.nonce.is_zero() && self.balance.is_zero() && self.code.is_none() && self.raw.is_empty()
    }
    pub fn code_bytes(&self) -> Vec<u8> {
        self.code.as_ref().map(|p| p.code()).unwrap_or_else(|| self.raw.clone())
    }
    pub fn storage_root(&self) -> [u8; 32] {
        vlib::oracle::mpt_root(
            &self
                .storage
                .iter()
                .filter(|(_, v)| !v.is_zero())
                .map(|(k, v)| (keccak256(&k.0).to_vec(), rlp_num(&U256::from_big_endian(&v.0)).enc()))
                .collect(),
        )
    }
    pub fn rlp(&self) -> Vec<u8> {
        R::L(vec![
            rlp_num(&self.nonce),
            rlp_num(&self.balance),
            R::B(self.storage_root().to_vec()),
            R::B(keccak256(&self.code_bytes()).to_vec()),
        ])
        .enc()
    }
}
pub fn rlp_num(v: &U256) -> R {
    let mut b = [0; 32];
    v.to_big_endian(&mut b);
    let z = b.iter().take_while(|x| **x == 0).count();
    R::B(b[z..].to_vec())
}

#[derive(Clone, Debug)]
pub struct BlockEnv {
    pub number: u64,
    pub timestamp: u64,
    pub coinbase: H160,
    pub gas_limit: u64,
    pub base_fee: u64,
    pub chain_id: u64,
    pub hashes: Rc<Vec<H256>>,
}
#[derive(Clone, Debug, Default)]
pub struct State {
    pub acc: BTreeMap<H160, Acc>,
    /// every address that may have been touched
    pub touched: BTreeSet<H160>,
    pub logs: Vec<Log>,
    pub dead: BTreeSet<H160>,
    pub steps: u64,
    /// the accounts as the transaction found them
    pub orig: Rc<BTreeMap<H160, Acc>>,
    /// writes that may earn a gas refund
    pub refundable: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(Vec<u8>),
    Revert(Vec<u8>),
    Err,
}
pub struct Frame {
    pub this: H160,
    pub caller: H160,
    pub value: U256,
    pub fixed: bool,
    pub origin: H160,
    pub price: U256,
}
fn word(a: &H160) -> H256 {
    let mut w = [0; 32];
    w[12..].copy_from_slice(&a.0);
    H256(w)
}
fn num_word(v: U256) -> H256 {
    let mut w = [0; 32];
    v.to_big_endian(&mut w);
    H256(w)
}
pub fn create_addr(who: &H160, nonce: &U256) -> H160 {
    H160::from_slice(&keccak256(&R::L(vec![R::B(who.0.to_vec()), rlp_num(nonce)]).enc())[12..])
}
pub fn create2_addr(who: &H160, salt: &H256, init: &[u8]) -> H160 {
    let mut b = vec![0xff];
    b.extend(who.0);
    b.extend(salt.0);
    b.extend(keccak256(init));
    H160::from_slice(&keccak256(&b)[12..])
}

impl State {
    pub fn get(&self, a: &H160) -> Acc {
        self.acc.get(a).cloned().unwrap_or_default()
    }
    pub fn m(&mut self, a: &H160) -> &mut Acc {
        self.touched.insert(*a);
        self.acc.entry(*a).or_default()
    }
    fn transfer(&mut self, from: &H160, to: &H160, v: U256) -> bool {
        self.m(from);
        self.m(to);
        if self.m(from).balance < v {
            return false;
        }
        self.m(from).balance -= v;
        self.m(to).balance += v;
        true
    }
    pub fn call(&mut self, f: &Frame, code_of: &H160, transfer: bool, env: &BlockEnv) -> Out {
        self.touched.insert(f.this);
        let keep = self.clone();
        if transfer && !self.transfer(&f.caller, &f.this, f.value) {
            self.back(keep);
            return Out::Err;
        }
        let prog = match self.get(code_of).code {
            Some(p) => p,
            None => return Out::Ok(vec![]),
        };
        let o = self.run(&prog.ops, &prog.end, f, env);
        if !matches!(o, Out::Ok(_)) {
            self.back(keep);
        }
        o
    }
    fn back(&mut self, keep: State) {
        let t = std::mem::take(&mut self.touched);
        let s = self.steps;
        *self = keep;
        self.touched = t;
        self.steps = s;
    }
    /// `None`: failed; the creator's nonce is bumped either way
    pub fn create(&mut self, f: &Frame, init: &Init, salt: Option<&H256>, env: &BlockEnv, limit: usize) -> (Out, H160) {
        let nonce = self.get(&f.this).nonce;
        let addr = match salt {
            Some(s) => create2_addr(&f.this, s, &init.code()),
            None => create_addr(&f.this, &nonce),
        };
        if self.get(&f.this).balance < f.value {
            return (Out::Err, addr);
        }
        self.m(&f.this).nonce += U256::one();
        let keep = self.clone();
        self.m(&addr).storage.clear();
        self.transfer(&f.this, &addr, f.value);
        self.m(&addr).nonce = U256::one();
        let inner = Frame { this: addr, caller: f.this, value: f.value, fixed: false, origin: f.origin, price: f.price };
        let o = match &init.end {
            InitEnd::Deploy(p) => {
                let o = self.run(&init.ops, &End::Stop, &inner, env);
                if matches!(o, Out::Ok(_)) {
                    if p.code().len() > limit {
                        Out::Err
                    } else {
                        self.m(&addr).code = Some(Rc::clone(p));
                        o
                    }
                } else {
                    o
                }
            }
            InitEnd::Raw(b) => {
                let o = self.run(&init.ops, &End::Stop, &inner, env);
                if matches!(o, Out::Ok(_)) {
                    if b.len() > limit || b.first() == Some(&0xef) {
                        Out::Err
                    } else {
                        self.m(&addr).raw = b.clone();
                        o
                    }
                } else {
                    o
                }
            }
            InitEnd::Other(e) => self.run(&init.ops, e, &inner, env),
        };
        if !matches!(o, Out::Ok(_)) {
            self.back(keep);
        }
        (o, addr)
    }
    fn run(&mut self, ops: &[Op], end: &End, f: &Frame, env: &BlockEnv) -> Out {
        macro_rules! put {
            ($slot:expr, $v:expr) => {{
                if f.fixed {
                    return Out::Err;
                }
                let v: H256 = $v;
                let cur = self.acc.get(&f.this).and_then(|a| a.storage.get($slot)).copied().unwrap_or_default();
                let was = self.orig.get(&f.this).and_then(|a| a.storage.get($slot)).copied().unwrap_or_default();
                if v != cur && (v.is_zero() || v == was) {
                    self.refundable += 1;
                }
                self.m(&f.this).storage.insert(*$slot, v);
            }};
        }
        for op in ops {
            self.steps += 1;
            match op {
                Op::Sstore(k, v) => put!(k, *v),
                Op::Copy(a, b) => {
                    let v = self.get(&f.this).storage.get(a).copied().unwrap_or_default();
                    put!(b, v)
                }
                Op::Log(t, d) => {
                    if f.fixed {
                        return Out::Err;
                    }
                    self.logs.push(Log { address: f.this, topics: t.clone(), data: d.clone() });
                }
                Op::Call { kind, to, value, slot, .. } => {
                    let inner = match kind {
                        Kind::Call => Frame { this: *to, caller: f.this, value: *value, fixed: f.fixed, origin: f.origin, price: f.price },
                        Kind::Code => Frame { this: f.this, caller: f.this, value: *value, fixed: f.fixed, origin: f.origin, price: f.price },
                        Kind::Delegate => Frame { this: f.this, caller: f.caller, value: f.value, fixed: f.fixed, origin: f.origin, price: f.price },
                        Kind::Static => Frame { this: *to, caller: f.this, value: U256::zero(), fixed: true, origin: f.origin, price: f.price },
                    };
                    if *kind == Kind::Call && f.fixed && !value.is_zero() {
                        return Out::Err;
                    }
                    let ok = if matches!(kind, Kind::Code) && self.get(&f.this).balance < *value {
                        false
                    } else {
                        matches!(self.call(&inner, to, *kind == Kind::Call, env), Out::Ok(_))
                    };
                    put!(slot, H256::from_low_u64_be(ok as u64))
                }
                Op::Create { init, value, salt, slot } => {
                    if f.fixed {
                        return Out::Err;
                    }
                    let fr = Frame { this: f.this, caller: f.caller, value: *value, fixed: false, origin: f.origin, price: f.price };
                    let (o, a) = self.create(&fr, init, salt.as_ref(), env, usize::MAX);
                    put!(slot, if matches!(o, Out::Ok(_)) { word(&a) } else { H256::zero() })
                }
                Op::Env(e, slot) => {
                    let v = match e {
                        Env::Address => word(&f.this),
                        Env::Origin => word(&f.origin),
                        Env::Caller => word(&f.caller),
                        Env::CallValue => num_word(f.value),
                        Env::GasPrice => num_word(f.price),
                        Env::Coinbase => word(&env.coinbase),
                        Env::Timestamp => H256::from_low_u64_be(env.timestamp),
                        Env::Number => H256::from_low_u64_be(env.number),
                        Env::Difficulty => H256::from_low_u64_be(1),
                        Env::GasLimit => H256::from_low_u64_be(env.gas_limit),
                        Env::ChainId => H256::from_low_u64_be(env.chain_id),
                        Env::SelfBalance => num_word(self.get(&f.this).balance),
                        Env::BaseFee => H256::from_low_u64_be(env.base_fee),
                    };
                    put!(slot, v)
                }
                Op::Balance(a, slot) => {
                    let v = num_word(self.get(a).balance);
                    put!(slot, v)
                }
                Op::CodeHash(a, slot) => {
                    let acc = self.get(a);
                    put!(slot, if acc.empty() { H256::zero() } else { H256(keccak256(&acc.code_bytes())) })
                }
                Op::BlockHash(n, slot) => {
                    let cur = U256::from(env.number);
                    let v = if *n < cur && cur - *n <= U256::from(256) { env.hashes[n.low_u64() as usize] } else { H256::zero() };
                    put!(slot, v)
                }
            }
        }
        match end {
            End::Stop => Out::Ok(vec![]),
            End::Return(d) => Out::Ok(d.clone()),
            End::Revert(d) => Out::Revert(d.clone()),
            End::Invalid => Out::Err,
            End::Destroy(to) => {
                if f.fixed {
                    return Out::Err;
                }
                let b = self.get(&f.this).balance;
                self.transfer(&f.this, to, b);
                self.m(&f.this).balance = U256::zero();
                self.dead.insert(f.this);
                Out::Ok(vec![])
            }
        }
    }
    /// what is left when a transaction is over
    pub fn settle(&mut self) {
        for a in std::mem::take(&mut self.dead) {
            self.acc.remove(&a);
        }
    }
    pub fn root(&self, kept: &[H160], extra: Vec<(H160, Vec<u8>)>) -> H256 {
        let mut m: BTreeMap<H160, Vec<u8>> = self
            .acc
            .iter()
            .filter(|(_, acc)| !acc.empty())
            .map(|(a, acc)| (*a, acc.rlp()))
            .collect();
        m.extend(kept.iter().map(|a| (*a, self.get(a).rlp())));
        m.extend(extra);
        H256(vlib::oracle::mpt_root(&m.into_iter().map(|(a, v)| (keccak256(&a.0).to_vec(), v)).collect()))
    }
    pub fn supply(&self) -> U256 {
        self.acc.values().fold(U256::zero(), |s, a| s + a.balance)
    }
}

/// generators
pub struct Pool {
    pub people: Vec<H160>,
    /// deployed programs that later programs may call
    pub contracts: Vec<(H160, Rc<Prog>)>,
    pub fresh: u64,
}
fn slot(r: &mut Rng) -> H256 {
    match r.below(8) {
        0 => H256(r.arr()),
        1 => H256::repeat_byte(0xff),
        _ => H256::from_low_u64_be(r.below(6) as u64),
    }
}
fn value_word(r: &mut Rng) -> H256 {
    match r.below(5) {
        0 | 1 => H256::zero(),
        2 => H256::from_low_u64_be(r.edge_u64()),
        3 => H256::repeat_byte(0xff),
        _ => H256(r.arr()),
    }
}
fn amount(r: &mut Rng) -> U256 {
    match r.below(6) {
        0 | 1 => U256::zero(),
        2 => U256::one(),
        3 => U256::from(r.u64()) << 40usize,
        4 => U256::from(r.below(1000)) * U256::exp10(15),
        _ => U256::from(r.below(5)),
    }
}
impl Pool {
    pub fn someone(&mut self, r: &mut Rng) -> H160 {
        match r.below(5) {
            0 => {
                self.fresh += 1;
                let h = keccak256(format!("fresh {}", self.fresh).as_bytes());
                H160::from_slice(&h[..20])
            }
            1 if !self.contracts.is_empty() => r.pick(&self.contracts).0,
            _ => *r.pick(&self.people),
        }
    }
    pub fn op(&mut self, r: &mut Rng, nested: u32, once: bool) -> Op {
        match r.below(20) {
            0..=4 => Op::Sstore(slot(r), value_word(r)),
            5 => Op::Copy(slot(r), slot(r)),
            6 | 7 => Op::Log(
                {
                    let n = r.below(5);
                    (0..n).map(|_| value_word(r)).collect()
                },
                {
                    let n = r.below(70);
                    r.bytes(n)
                },
            ),
            8..=12 if !self.contracts.is_empty() => {
                let kind = *r.pick(&[Kind::Call, Kind::Call, Kind::Call, Kind::Delegate, Kind::Static, Kind::Code]);
                let (to, p) = r.pick(&self.contracts).clone();
                let value = if kind == Kind::Call && r.bool() { amount(r) } else { U256::zero() };
                Op::Call { kind, to, value, gas: p.need(), slot: slot(r) }
            }
            8..=13 => Op::Call { kind: Kind::Call, to: self.someone_plain(r), value: amount(r), gas: 3000, slot: slot(r) },
            14 | 15 if nested > 0 => {
                let init = self.init(r, nested - 1, false, once);
                Op::Create { init: Rc::new(init), value: amount(r), salt: (once && r.bool()).then(|| H256(r.arr())), slot: slot(r) }
            }
            16 => Op::Balance(self.someone(r), slot(r)),
            17 if !self.contracts.is_empty() => Op::CodeHash(r.pick(&self.contracts).0, slot(r)),
            18 => Op::BlockHash(U256::from(r.below(40)), slot(r)),
            _ => Op::Env(r.pick(&ENVS).0, slot(r)),
        }
    }
    /// an address without code
    pub fn someone_plain(&mut self, r: &mut Rng) -> H160 {
        loop {
            let a = self.someone(r);
            if !self.contracts.iter().any(|c| c.0 == a) {
                return a;
            }
        }
    }
    pub fn prog(&mut self, r: &mut Rng, nested: u32) -> Prog {
        loop {
            let n = r.below(7);
            let ops: Vec<Op> = (0..n).map(|_| self.op(r, nested, false)).collect();
            let end = match r.below(12) {
                0 | 1 => End::Revert(r.edge_bytes(80)),
                2 => End::Invalid,
                3 => End::Destroy(self.someone(r)),
                4..=6 => End::Return(r.edge_bytes(80)),
                _ => End::Stop,
            };
            let p = Prog { ops, end };
            if p.need() < 8_000_000 && p.code().len() < 0x5000 {
                return p;
            }
        }
    }
    /// `once`: runs at most once, so that a salted creation cannot collide
    pub fn init(&mut self, r: &mut Rng, nested: u32, top: bool, once: bool) -> Init {
        loop {
            let n = r.below(4);
            let ops: Vec<Op> = (0..n).map(|_| self.op(r, nested, once)).collect();
            let end = match r.below(12) {
                0 => InitEnd::Other(End::Revert(r.edge_bytes(40))),
                1 if top => InitEnd::Other(End::Invalid),
                2 => InitEnd::Other(End::Destroy(self.someone(r))),
                3 => InitEnd::Other(End::Stop),
                4 if top => InitEnd::Raw(vec![0xef, 1, 2]),
                5 if top => InitEnd::Raw(vec![0; 0x6000 + r.below(3)]),
                _ => InitEnd::Deploy(Rc::new(self.prog(r, nested))),
            };
            let i = Init { ops, end };
            if i.need() < 12_000_000 {
                return i;
            }
        }
    }
}
