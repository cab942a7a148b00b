//! P26: the CKB headers and cells kept for the chain, and what contracts, scripts and calls read of them.
use crate::abi::{self, seq, u, A};
use crate::ledger::genesis;
use ckb_traits::{CellDataProvider, ExtensionProvider, HeaderProvider};
use ckb_types::core::cell::{CellProvider, CellStatus};
use ckb_types::{packed, prelude::*};
use core_executor::system_contract::{
    swap_header_cell_db, DataProvider, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, HEADER_CELL_ROOT_KEY, IMAGE_CELL_CONTRACT_ADDRESS,
};
use core_executor::{AxonExecutor, RocksTrieDB};
use protocol::traits::Executor;
use protocol::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vlib::oracle::{keccak256, R};
use vlib::{guard, hex, json, Ctx, Rng};
use world::{leaves, rt, unsigned_from, BlockSpec, World};

#[derive(Clone, PartialEq, Debug)]
struct Hd {
    version: u32,
    target: u32,
    time: u64,
    number: u64,
    epoch: u64,
    h: [[u8; 32]; 5], // parent, transactions, proposals, extra, dao
    nonce: u128,
    ext: Vec<u8>,
    hash: [u8; 32],
}
#[derive(Clone, PartialEq, Debug)]
struct Script {
    code: [u8; 32],
    kind: u8,
    args: Vec<u8>,
}
#[derive(Clone, PartialEq, Debug)]
struct Cell {
    capacity: u64,
    lock: Script,
    types: Vec<Script>,
    data: Vec<u8>,
    created: u64,
    consumed: Option<u64>,
}
type Key = ([u8; 32], u32);
#[derive(Clone, Default)]
struct Store {
    headers: BTreeMap<[u8; 32], Hd>,
    cells: BTreeMap<Key, Cell>,
}
struct Up {
    number: u64,
    ins: Vec<Key>,
    outs: Vec<(Key, Cell)>,
}
struct Back {
    ins: Vec<Key>,
    outs: Vec<Key>,
}
enum Act {
    Headers(Vec<Hd>),
    DropHeaders(Vec<[u8; 32]>),
    Cells(Vec<Up>),
    DropCells(Vec<Back>),
    State(bool, bool),
    Junk(bool, Vec<u8>),
    ReadHeader([u8; 32]),
    Run(Key, Vec<Vec<u8>>),
}
impl Store {
    /// what a call does; nothing when it fails
    fn apply(&mut self, a: &Act) -> bool {
        let mut s = self.clone();
        match a {
            Act::Headers(v) => v.iter().for_each(|h| {
                s.headers.insert(h.hash, h.clone());
            }),
            Act::DropHeaders(v) => {
                for h in v {
                    if s.headers.remove(h).is_none() {
                        return false;
                    }
                }
            }
            Act::Cells(v) => {
                for b in v {
                    for (k, x) in &b.outs {
                        s.cells.insert(*k, Cell { created: b.number, consumed: None, ..x.clone() });
                    }
                    for k in &b.ins {
                        if let Some(x) = s.cells.get_mut(k) {
                            x.consumed = Some(b.number);
                        }
                    }
                }
            }
            Act::DropCells(v) => {
                for b in v {
                    for k in &b.outs {
                        if s.cells.remove(k).is_none() {
                            return false;
                        }
                    }
                    for k in &b.ins {
                        if let Some(x) = s.cells.get_mut(k) {
                            x.consumed = None;
                        }
                    }
                }
            }
            Act::State(..) => {}
            Act::Junk(..) => return false,
            Act::ReadHeader(..) | Act::Run(..) => return true,
        }
        *self = s;
        true
    }
}
const SCRIPT_T: &str = "(bytes32,uint8,bytes)";
const POINT_T: &str = "(bytes32,uint32)";
fn a_hash(x: &[u8; 32]) -> A {
    A::W(*x)
}
fn a_point(k: &Key) -> A {
    A::T(vec![A::W(k.0), u(k.1 as u128)])
}
fn a_header(x: &Hd) -> A {
    A::T(vec![
        u(x.version as u128), u(x.target as u128), u(x.time as u128), u(x.number as u128), u(x.epoch as u128),
        a_hash(&x.h[0]), a_hash(&x.h[1]), a_hash(&x.h[2]), a_hash(&x.h[3]), a_hash(&x.h[4]),
        u(x.nonce), A::B(x.ext.clone()), a_hash(&x.hash),
    ])
}
fn a_script(s: &Script) -> A {
    A::T(vec![A::W(s.code), u(s.kind as u128), A::B(s.args.clone())])
}
fn encode(a: &Act) -> (H160, Vec<u8>) {
    let points = |v: &[Key]| A::L(v.iter().map(a_point).collect());
    match a {
        Act::Headers(v) => (
            CKB_LIGHT_CLIENT_CONTRACT_ADDRESS,
            abi::call(
                "update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])",
                &[A::L(v.iter().map(a_header).collect())],
            ),
        ),
        Act::DropHeaders(v) => (CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, abi::call("rollback(bytes32[])", &[A::L(v.iter().map(a_hash).collect())])),
        Act::Cells(v) => {
            let cell = |(k, x): &(Key, Cell)| {
                A::T(vec![
                    a_point(k),
                    A::T(vec![u(x.capacity as u128), a_script(&x.lock), A::L(x.types.iter().map(a_script).collect())]),
                    A::B(x.data.clone()),
                ])
            };
            let blocks = v.iter().map(|b| A::T(vec![u(b.number as u128), points(&b.ins), A::L(b.outs.iter().map(cell).collect())])).collect();
            let sig = format!("update((uint64,{POINT_T}[],({POINT_T},(uint64,{SCRIPT_T},{SCRIPT_T}[]),bytes)[])[])");
            (IMAGE_CELL_CONTRACT_ADDRESS, abi::call(&sig, &[A::L(blocks)]))
        }
        Act::DropCells(v) => {
            let blocks = v.iter().map(|b| A::T(vec![points(&b.ins), points(&b.outs)])).collect();
            (IMAGE_CELL_CONTRACT_ADDRESS, abi::call(&format!("rollback(({POINT_T}[],{POINT_T}[])[])"), &[A::L(blocks)]))
        }
        Act::State(light, on) => (
            if *light { CKB_LIGHT_CLIENT_CONTRACT_ADDRESS } else { IMAGE_CELL_CONTRACT_ADDRESS },
            abi::call("setState(bool)", &[u(*on as u128)]),
        ),
        Act::Junk(light, d) => (if *light { CKB_LIGHT_CLIENT_CONTRACT_ADDRESS } else { IMAGE_CELL_CONTRACT_ADDRESS }, d.clone()),
        Act::ReadHeader(x) => (pre(2), x.to_vec()),
        Act::Run(k, args) => {
            let cell = A::T(vec![a_point(k), u(0)]);
            (pre(4), seq(&[A::T(vec![cell, A::L(args.iter().map(|a| A::B(a.clone())).collect())])]))
        }
    }
}
fn pre(n: u8) -> H160 {
    let mut a = [0; 20];
    (a[18], a[19]) = (1, n);
    H160(a)
}
/// molecule
fn table(fields: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 * (fields.len() + 1);
    let mut at = head;
    let mut out = ((head + fields.iter().map(|f| f.len()).sum::<usize>()) as u32).to_le_bytes().to_vec();
    for f in fields {
        out.extend((at as u32).to_le_bytes());
        at += f.len();
    }
    fields.iter().for_each(|f| out.extend(f));
    out
}
fn m_script(s: &Script) -> Vec<u8> {
    table(&[s.code.to_vec(), vec![s.kind], [&(s.args.len() as u32).to_le_bytes()[..], &s.args].concat()])
}
fn m_output(x: &Cell) -> Vec<u8> {
    table(&[x.capacity.to_le_bytes().to_vec(), m_script(&x.lock), x.types.first().map_or(vec![], m_script)])
}
fn leaf(x: &Cell) -> Vec<u8> {
    let consumed = R::L(x.consumed.iter().map(|n| R::u(*n)).collect());
    R::L(vec![R::B(m_output(x)), R::B(x.data.clone()), R::u(x.created), consumed]).enc()
}
fn blake(d: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    let mut b = blake2b_rs::Blake2bBuilder::new(32).personal(b"ckb-default-hash").build();
    b.update(d);
    b.finalize(&mut o);
    o
}

fn script(r: &mut Rng) -> Script {
    Script { code: r.arr(), kind: *r.pick(&[0, 1, 2, 4]), args: r.edge_bytes(40) }
}
/// the hashes and points used are few, so that they meet again
fn hash_of(n: usize) -> [u8; 32] {
    match n {
        0 => [0; 32],
        1 => [255; 32],
        _ => keccak256(&[n as u8]),
    }
}
fn point(r: &mut Rng) -> Key {
    (hash_of(r.below(7)), *r.pick(&[0, 1, 256, u32::MAX]))
}
/// programs, and what they exit with
fn program(r: &mut Rng) -> Vec<u8> {
    use gen::riscv::*;
    match r.below(6) {
        0 => exits(r.u64() as i8),
        1 => argc(),
        2 => checksum(r.below(100) as i32),
        3 => args_equal(),
        4 => spins(1 << r.range(12, 17)),
        _ => faults(r),
    }
}
fn cell(r: &mut Rng) -> Cell {
    Cell {
        capacity: r.edge_u64(),
        lock: script(r),
        types: (0..*r.pick(&[0usize, 0, 1, 1, 2])).map(|_| script(r)).collect(),
        data: if r.chance(1, 3) { program(r) } else if r.chance(1, 8) { r.bytes(5000) } else { r.edge_bytes(90) },
        created: 0,
        consumed: None,
    }
}
fn header(r: &mut Rng) -> Hd {
    Hd {
        version: r.edge_u64() as u32,
        target: r.edge_u64() as u32,
        time: r.edge_u64(),
        number: r.edge_u64(),
        epoch: r.edge_u64(),
        h: [r.arr(), r.arr(), r.arr(), r.arr(), r.arr()],
        nonce: (r.edge_u64() as u128) << 64 | r.u64() as u128,
        ext: r.edge_bytes(70),
        hash: hash_of(r.below(9)),
    }
}
fn act(r: &mut Rng, s: &Store) -> Act {
    let known = |r: &mut Rng| {
        let ks: Vec<Key> = s.cells.keys().copied().collect();
        if ks.is_empty() || r.chance(1, 7) { point(r) } else { *r.pick(&ks) }
    };
    let hash = |r: &mut Rng| {
        let ks: Vec<[u8; 32]> = s.headers.keys().copied().collect();
        if ks.is_empty() || r.chance(1, 7) { hash_of(r.below(9)) } else { *r.pick(&ks) }
    };
    match r.below(16) {
        0..=2 => Act::Headers((0..r.below(5)).map(|_| header(r)).collect()),
        3 => Act::DropHeaders((0..r.below(3)).map(|_| hash(r)).collect()),
        4 if r.bool() => Act::DropHeaders(s.headers.keys().copied().collect()),
        5..=7 => Act::Cells(
            (0..r.below(4))
                .map(|_| Up {
                    number: r.edge_u64(),
                    ins: (0..r.below(3)).map(|_| known(r)).collect(),
                    outs: (0..r.below(4)).map(|_| (point(r), cell(r))).collect(),
                })
                .collect(),
        ),
        8 => Act::DropCells(
            (0..r.below(3))
                .map(|_| Back { ins: (0..r.below(3)).map(|_| known(r)).collect(), outs: (0..r.below(2)).map(|_| known(r)).collect() })
                .collect(),
        ),
        9 if r.bool() => Act::DropCells(vec![Back { ins: vec![], outs: s.cells.keys().copied().collect() }]),
        10 => Act::State(r.bool(), r.bool()),
        11 => {
            let (to, d) = encode(&match r.below(3) {
                0 => Act::Headers(vec![header(r)]),
                1 => Act::DropHeaders(vec![hash(r)]),
                _ => Act::Cells(vec![Up { number: 1, ins: vec![], outs: vec![(point(r), cell(r))] }]),
            });
            let n = r.below(d.len() - 31); // the padding of the last word may be missing
            Act::Junk(to == CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, d[..n].to_vec())
        }
        12 | 13 => Act::ReadHeader(hash(r)),
        _ => Act::Run(known(r), (0..r.below(4)).map(|_| r.edge_bytes(20)).collect()),
    }
}
/// (exit code, cycles) of the program, by the virtual machine's interpreter
fn vm(prog: &[u8], args: &[Vec<u8>], max: u64) -> Option<(i8, u64)> {
    use ckb_vm::machine::{DefaultMachineBuilder, VERSION1};
    use ckb_vm::{DefaultCoreMachine, SparseMemory, SupportMachine, TraceMachine, WXorXMemory, ISA_B, ISA_IMC, ISA_MOP};
    let core = DefaultCoreMachine::<u64, WXorXMemory<SparseMemory<u64>>>::new(ISA_IMC | ISA_B | ISA_MOP, VERSION1, max);
    let mut m = TraceMachine::new(DefaultMachineBuilder::new(core).build());
    let args: Vec<ckb_vm::Bytes> = args.iter().map(|a| a.clone().into()).collect();
    m.load_program(&prog.to_vec().into(), &args).ok()?;
    let code = m.run().ok()?;
    Some((code, m.machine.cycles()))
}

pub fn p26(c: &mut Ctx) {
    c.stage("histories");
    for n in 0..c.scale(250, 10_000) {
        if !c.within(0.9) {
            break;
        }
        history(c, n);
    }
}

fn history(c: &mut Ctx, n: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let people: Vec<H160> = (1..5).map(|i| H160::repeat_byte(i)).collect();
    let g = genesis(&people, |_| U256::from(crate::ledger::E18), vec![], 5, 0);
    let dir = c.scratch.join(format!("c{n}"));
    let (mut w, _) = match guard(|| World::genesis(&dir, 50, &g, vec![])) {
        Ok(x) => x,
        Err(p) => return c.violate("genesis/panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({})),
    };
    let mut cells_db = Arc::new(RocksTrieDB::new_ckb_light_client(Arc::clone(&w.inner), 100));
    let mut s = Store::default();
    let mut old: Vec<(H256, H256, Store, Header)> = vec![];
    for _ in 0..4 + r.below(10) {
        let mut acts = vec![];
        // what the calls of the block find, and what they are to answer
        let mut sim = s.clone();
        let mut want = vec![];
        for _ in 0..r.below(6) {
            let a = act(r, &sim);
            let ok = sim.apply(&a);
            want.push((ok, sim.clone()));
            acts.push(a);
        }
        let txs = acts
            .iter()
            .map(|a| {
                let (to, data) = encode(a);
                let t = UnsignedTransaction::Legacy(LegacyTransaction {
                    nonce: U64::zero(),
                    gas_price: U64::zero(),
                    gas_limit: U64::from(5_000_000u64),
                    action: TransactionAction::Call(to),
                    value: U256::zero(),
                    data: Bytes::from(data),
                });
                unsigned_from(*r.pick(&people), t, w.chain_id)
            })
            .collect();
        let b = BlockSpec { proposer: people[0], timestamp: w.head().timestamp + 3000, gas_limit: 30_000_000, base_fee: 1337, txs, validators: vec![], extra: vec![] };
        let resp = match guard(|| w.exec(&b)) {
            Ok(x) => x,
            Err(p) => return c.violate("panic", format!("executing a block panicked: {} at {}", p.msg, vlib::short_loc(&p.loc)), json!({})),
        };
        c.event("blocks");
        for (i, a) in acts.iter().enumerate() {
            let (ok, at) = &want[i];
            let t = &resp.tx_resp[i];
            let name = match a {
                Act::Headers(_) => "headers.update",
                Act::DropHeaders(_) => "headers.rollback",
                Act::Cells(_) => "cells.update",
                Act::DropCells(_) => "cells.rollback",
                Act::State(..) => "state",
                Act::Junk(..) => "junk",
                Act::ReadHeader(..) => "read",
                Act::Run(..) => "run",
            };
            match a {
                Act::ReadHeader(h) => reads_header(c, at, h, t, "in a block"),
                Act::Run(k, args) => runs(c, at, k, args, t, "in a block"),
                _ => {
                    c.event(&format!("{name}.{}", if *ok { "accepted" } else { "refused" }));
                    c.ensure(t.exit_reason.is_succeed() == *ok, &format!("{name}/{}", if *ok { "refused" } else { "accepted" }), || {
                        (format!("a call that must {} ended with {:?}", if *ok { "succeed" } else { "be refused" }, t.exit_reason), json!({"block": w.head().number, "call": i}))
                    });
                }
            }
        }
        s = sim;
        let root = w.cell_root();
        c.seen("state", root);
        check(c, r, &w, &cells_db, root, &s, "now");
        for _ in 0..2 {
            let a = act(r, &s);
            if let Act::ReadHeader(_) | Act::Run(..) = &a {
                let (to, data) = encode(&a);
                let t = w.call(None, Some(to), U256::zero(), data, 5_000_000, false);
                match &a {
                    Act::ReadHeader(h) => reads_header(c, &s, h, &t, "in a call"),
                    Act::Run(k, args) => runs(c, &s, k, args, &t, "in a call"),
                    _ => {}
                }
            }
        }
        old.push((root, w.root(), s.clone(), w.head().clone()));
        if r.chance(1, 2) {
            let (root, state, st, head) = r.pick(&old).clone();
            c.event("old roots");
            check(c, r, &w, &cells_db, root, &st, "old");
            // a call on that block, asked of another thread
            let a = match act(r, &st) {
                a @ (Act::ReadHeader(_) | Act::Run(..)) => a,
                _ => Act::ReadHeader(hash_of(r.below(9))),
            };
            let (to, data) = encode(&a);
            let w = &w;
            let t = std::thread::scope(|sc| {
                sc.spawn(|| {
                    let _e = rt().enter();
                    let ro = w.ro_at(state, (&head).into());
                    AxonExecutor.call(&ro, 5_000_000, None, Some(to), U256::zero(), data, false)
                })
                .join()
            });
            match (t, &a) {
                (Ok(t), Act::ReadHeader(h)) => reads_header(c, &st, h, &t, "in an old block"),
                (Ok(t), Act::Run(k, args)) => runs(c, &st, k, args, &t, "in an old block"),
                _ => c.violate("panic", "a call on an old block panicked", json!({})),
            }
        }
        if r.chance(1, 6) {
            c.event("restarts");
            w = w.reopen(1 + r.below(50));
            w.activate();
            cells_db = Arc::new(RocksTrieDB::new_ckb_light_client(Arc::clone(&w.inner), 100));
        } else if r.chance(1, 6) {
            // the cache of a node that has just started
            swap_header_cell_db(Arc::new(RocksTrieDB::new_ckb_light_client(Arc::clone(&w.inner), 1 + r.below(20))));
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    ckb_rocksdb::shim::destroy(&dir);
}

const INTRINSIC: u64 = 21_000;
fn reads_header(c: &mut Ctx, s: &Store, h: &[u8; 32], t: &TxResp, when: &str) {
    let want = s.headers.get(h).map(|x| seq(&[a_header(x)]));
    c.event(if want.is_some() { "read.found" } else { "read.absent" });
    let ok = t.exit_reason.is_succeed() == want.is_some() && want.as_ref().map_or(true, |w| *w == t.ret);
    c.ensure(ok, "precompile/header", || {
        (format!("reading a header {when}: {:?}", t.exit_reason), json!({"hash": hex(h), "known": want.is_some(), "got": hex(&t.ret), "want": want.map(|w| hex(&w))}))
    });
}
fn runs(c: &mut Ctx, s: &Store, k: &Key, args: &[Vec<u8>], t: &TxResp, when: &str) {
    let data = s.cells.get(k).map(|x| x.data.clone());
    let out = data.as_ref().and_then(|d| vm(d, args, 40_000_000_000));
    // 6000 cycles cost one gas; the transaction has a little under 5,000,000
    let clear = out.map_or(true, |o| o.1 / 6000 < 4_000_000);
    if !clear {
        return;
    }
    c.event(if out.is_some() { "run.exits" } else { "run.fails" });
    let ok = t.exit_reason.is_succeed() == out.is_some() && out.map_or(true, |o| t.ret == o.0.to_le_bytes());
    c.ensure(ok, "precompile/program", || {
        (format!("running a cell's program {when} ended with {:?} and {:?}, the machine says {out:?}", t.exit_reason, t.ret), json!({"cell": [hex(&k.0), k.1.to_string()], "known": data.is_some()}))
    });
    if let Some((_, cycles)) = out {
        let (_, d) = encode(&Act::Run(*k, args.to_vec()));
        let base = INTRINSIC + d.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum::<u64>();
        // none of the programs runs for 3,000,000 cycles
        let want = base + 500;
        c.ensure(t.gas_used == want, "precompile/program-gas", || (format!("{cycles} cycles cost {} gas, not {want}", t.gas_used), json!({"when": when})));
    }
}

fn check(c: &mut Ctx, r: &mut Rng, w: &World, db: &RocksTrieDB, root: H256, s: &Store, when: &str) {
    let _e = rt().enter();
    if when == "now" {
        let other = w.storage_at(&IMAGE_CELL_CONTRACT_ADDRESS, &HEADER_CELL_ROOT_KEY);
        c.ensure(other == root, "roots-differ", || ("the light client and the image cell contract hold different roots".into(), json!({"light": format!("{root:?}"), "cells": format!("{other:?}")})));
    }
    // the whole trie
    let empty = root.is_zero() || root.0 == keccak256(&[0x80]);
    let all = if empty { Some(BTreeMap::new()) } else { leaves(db, root) };
    match all {
        None => c.violate("trie", format!("the trie cannot be read ({when})"), json!({"root": format!("{root:?}")})),
        Some(all) => {
            let mut want: BTreeSet<Vec<u8>> = s.headers.keys().map(|h| keccak256(h).to_vec()).collect();
            for (k, x) in &s.cells {
                let path = keccak256(&[&k.0[..], &k.1.to_le_bytes()].concat()).to_vec();
                let got = all.get(&path);
                let exp = leaf(x);
                c.ensure(got == Some(&exp), "cell", || {
                    (format!("a cell is stored otherwise than it was given ({when})"), json!({"cell": [hex(&k.0), k.1.to_string()], "got": got.map(|g| hex(g)), "want": hex(&exp)}))
                });
                want.insert(path);
            }
            let have: BTreeSet<Vec<u8>> = all.keys().cloned().collect();
            c.ensure(have == want, "trie-keys", || {
                (format!("the trie holds {} entries, {} are expected ({when})", have.len(), want.len()), json!({"headers": s.headers.len(), "cells": s.cells.len()}))
            });
        }
    }
    let p = DataProvider::new(root);
    for n in 0..10 {
        let h = hash_of(n);
        let k = packed::Byte32::from_slice(&h).unwrap();
        let want = s.headers.get(&h);
        let got = guard(|| (p.get_header(&k), p.get_block_extension(&k)));
        let Ok((got, ext)) = got else {
            c.violate("panic", "reading a header panicked", json!({"hash": hex(&h)}));
            continue;
        };
        c.event("header reads");
        let got = got.map(|v| {
            let b = |x: packed::Byte32| -> [u8; 32] { x.as_slice().try_into().unwrap() };
            Hd {
                version: v.version(),
                target: v.compact_target(),
                time: v.timestamp(),
                number: v.number(),
                epoch: v.data().raw().epoch().unpack(),
                h: [b(v.parent_hash()), b(v.transactions_root()), b(v.proposals_hash()), b(v.extra_hash()), b(v.dao())],
                nonce: v.nonce(),
                ext: ext.clone().map_or(vec![], |e| e.raw_data().to_vec()),
                hash: h,
            }
        });
        c.ensure(got.as_ref() == want && ext.is_some() == want.is_some(), "header", || {
            (format!("a header reads otherwise than it was given ({when})"), json!({"hash": hex(&h), "got": format!("{got:?}"), "want": format!("{want:?}")}))
        });
    }
    let mut keys: Vec<Key> = s.cells.keys().copied().collect();
    (0..5).for_each(|_| keys.push(point(r)));
    for k in keys {
        let op = packed::OutPoint::new_builder().tx_hash(packed::Byte32::from_slice(&k.0).unwrap()).index(k.1.pack()).build();
        let want = s.cells.get(&k);
        let got = guard(|| (p.get_cell_data(&op), p.get_cell_data_hash(&op), p.cell(&op, false)));
        let Ok((data, hash, status)) = got else {
            c.violate("panic", "reading a cell panicked", json!({"cell": hex(&k.0)}));
            continue;
        };
        c.event("cell reads");
        let digest = want.map(|x| if x.data.is_empty() { [0; 32] } else { blake(&x.data) });
        let mut ok = data.as_ref().map(|d| d.to_vec()) == want.map(|x| x.data.clone()) && hash.map(|h| h.as_slice().to_vec()) == digest.map(|d| d.to_vec());
        match (status, want) {
            (CellStatus::Live(m), Some(x)) => {
                ok &= m.cell_output.as_slice() == m_output(x)
                    && m.out_point == op
                    && m.data_bytes == x.data.len() as u64
                    && m.mem_cell_data.as_ref().map(|d| d.to_vec()) == Some(x.data.clone())
                    && m.mem_cell_data_hash.as_ref().map(|d| d.as_slice().to_vec()) == digest.map(|d| d.to_vec());
            }
            // whether a consumed cell still counts as live is left open
            (_, Some(x)) => ok &= x.consumed.is_some(),
            (CellStatus::Live(_), None) => ok = false,
            _ => {}
        }
        c.ensure(ok, "cell-read", || {
            (format!("a cell reads otherwise than it was given ({when})"), json!({"cell": [hex(&k.0), k.1.to_string()], "known": want.is_some(), "data": data.map(|d| hex(&d))}))
        });
    }
}
