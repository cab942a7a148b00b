//! P09: running CKB scripts.
use ckb_traits::CellDataProvider;
use ckb_types::{packed, prelude::*};
use core_interoperation::{cycle_to_gas, gas_to_cycle, InteroperationImpl};
use protocol::traits::{Context, Interoperation};
use protocol::types::{Bytes, CellDep, OutPoint, Script, VMResp, H256};
use std::collections::HashMap;
use vlib::{guard, hex as hx, json, Ctx, Panicked, Rng};

pub use gen::riscv::*;

#[derive(Clone, Default)]
pub struct Cells(pub HashMap<(H256, u32), Bytes>);
impl CellDataProvider for Cells {
    fn get_cell_data(&self, p: &packed::OutPoint) -> Option<Bytes> {
        self.0.get(&(H256(p.tx_hash().unpack().0), p.index().unpack())).cloned()
    }
    fn get_cell_data_hash(&self, _: &packed::OutPoint) -> Option<packed::Byte32> {
        None
    }
}
fn run(c: &Cells, d: &CellDep, args: &[Bytes], max: u64) -> Result<Result<VMResp, String>, Panicked> {
    guard(|| InteroperationImpl::call_ckb_vm(Context::new(), c, d.clone(), args, max).map_err(|e| e.to_string()))
}
fn code_of(r: &Result<Result<VMResp, String>, Panicked>) -> Option<i8> {
    match r {
        Ok(Ok(v)) => Some(v.exit_code),
        _ => None,
    }
}

pub fn p09(c: &mut Ctx) {
    c.stage("programs");
    let big = u64::MAX;
    for _ in 0..c.scale(250, 8000) {
        if !c.within(0.8) {
            break;
        }
        let mut r = c.rng.fork();
        let mut cells = Cells::default();
        // several programs behind neighbouring out points
        let h = gen::h256(&mut r);
        let mut deps = vec![];
        let n = r.below(4) + 2;
        for i in 0..n {
            let d = CellDep { tx_hash: if i % 2 == 0 { h } else { gen::h256(&mut r) }, index: if i < 2 { i as u32 * 3 } else { (i as u32 - 2) << (8 * r.below(4)) | 0x10 * i as u32 }, dep_type: r.below(3) as u8 };
            let v = r.u64() as i8;
            cells.0.insert((d.tx_hash, d.index), exits(v).into());
            deps.push((d, v));
        }
        for (d, v) in &deps {
            let got = run(&cells, d, &[], big);
            c.event("runs");
            c.seen("exit", (d.tx_hash, v));
            let ok = cells.0[&(d.tx_hash, d.index)] == Bytes::from(exits(*v));
            c.ensure(!ok || code_of(&got) == Some(*v), "vm/exit-code", || (format!("the program exits with {v}, the call answered {got:?}"), json!({"dep": format!("{d:?}")})));
        }
        // arguments
        let args: Vec<Bytes> = (0..r.below(6) + 1).map(|_| { let n = r.below(40) + 1; Bytes::from(r.bytes(n).iter().map(|b| b | 1).collect::<Vec<u8>>()) }).collect();
        let d = CellDep { tx_hash: h, index: 1000, dep_type: r.below(2) as u8 };
        let mut one = |c: &mut Ctx, p: Vec<u8>, args: &[Bytes], want: i8, key: &str| {
            let mut cells = Cells::default();
            cells.0.insert((d.tx_hash, d.index), p.into());
            let a = run(&cells, &d, args, big);
            let b = run(&cells, &d, args, big);
            c.event("runs");
            c.seen(key, (args, want));
            let show = || json!({"args": args.iter().map(hx).collect::<Vec<_>>(), "got": format!("{a:?}")});
            c.ensure(code_of(&a) == Some(want), key, || (format!("expected exit code {want}"), show()));
            c.ensure(matches!((&a, &b), (Ok(Ok(x)), Ok(Ok(y))) if x == y), "vm/deterministic", || (format!("two runs of the same program: {a:?} and {b:?}"), show()));
        };
        // any bytes at all, empty arguments included
        let n_any = if r.chance(1, 6) { r.below(127) } else { r.below(12) };
        let any: Vec<Bytes> = (0..n_any).map(|_| match r.below(5) {
            0 => Bytes::new(),
            1 => Bytes::from(vec![0u8; r.below(4)]),
            2 => r.pick(&args).clone(),
            3 => { let n = r.below(1500); Bytes::from(r.bytes(n)) }
            _ => { let n = r.below(40); Bytes::from(r.bytes(n)) }
        }).collect();
        one(c, argc(), &any, any.len() as i8, "vm/argc");
        one(c, argc(), &args, args.len() as i8, "vm/argc");
        if !any.is_empty() {
            let i = r.below(any.len());
            // each argument is followed by a NUL
            let off = r.below(any[i].len() + 1);
            one(c, arg_byte(i as u32, off as u32), &any, any[i].get(off).copied().unwrap_or(0) as i8, "vm/argument");
        }
        let k = r.below(128) as i32;
        let sum = args[0].iter().fold(0u8, |a, b| a.wrapping_add(*b)) ^ k as u8;
        one(c, checksum(k), &args, sum as i8, "vm/argument-bytes");
        let eq = r.bool();
        let mut two = vec![args[0].clone(), args[0].clone()];
        if !eq {
            let mut x = args[0].to_vec();
            let i = r.below(x.len());
            x[i] ^= 2;
            two[r.below(2)] = x.into();
        }
        one(c, args_equal(), &two, !eq as i8, "vm/compare-arguments");
        // nothing there
        let miss = CellDep { tx_hash: h, index: if r.bool() { 1001 } else { u32::MAX - r.edge_u64() as u32 / 2 }, dep_type: 0 };
        let got = run(&cells, &miss, &args, big);
        c.ensure(matches!(got, Ok(Err(_))), "vm/missing-program", || (format!("a call of a cell that does not exist answered {got:?}"), json!({})));
        // and the caller is told which one
        let named = matches!(&got, Ok(Err(e)) if e.contains(&hx(h.0).trim_start_matches("0x").to_string()) && e.contains(&miss.index.to_string()));
        c.ensure(named, "vm/missing-program-named", || (format!("cell {h:#x} index {} does not exist, the call said {got:?}", miss.index), json!({})));
        // the forms CKB itself reads
        let dep = CellDep { tx_hash: gen::h256(&mut r), index: r.edge_u64() as u32, dep_type: r.u64() as u8 };
        let p: packed::CellDep = (&dep).into();
        let same = H256(p.out_point().tx_hash().unpack().0) == dep.tx_hash && Unpack::<u32>::unpack(&p.out_point().index()) == dep.index && p.dep_type().as_slice() == [dep.dep_type];
        let back = OutPoint::from(&p.out_point());
        c.ensure(same && back == OutPoint { tx_hash: dep.tx_hash, index: dep.index }, "vm/ckb-form-of-a-dependency", || (format!("{dep:?} is {p} for CKB, and its out point read back {back}"), json!({})));
        let script = Script { code_hash: gen::h256(&mut r), args: { let n = r.below(60); r.bytes(n).into() }, hash_type: r.u64() as u8 };
        let p: packed::Script = (&script).into();
        let same = p.code_hash().as_slice() == script.code_hash.0 && p.args().raw_data() == script.args && p.hash_type().as_slice() == [script.hash_type];
        c.ensure(same, "vm/ckb-form-of-a-script", || (format!("{script:?} is {p} for CKB"), json!({})));
        // crashes of the program are errors of the call
        let mut cells = Cells::default();
        let p = faults(&mut r);
        cells.0.insert((d.tx_hash, d.index), p.clone().into());
        let got = run(&cells, &d, &args, big);
        c.event("faulting programs");
        c.ensure(matches!(got, Ok(Err(_))), "vm/fault", || (format!("a program that faults answered {got:?}"), json!({"elf": hx(&p)})));
        // junk
        let base = checksum(k);
        let mut junk = base.clone();
        for _ in 0..r.below(4) + 1 {
            // keep the code itself: a mutated loop could run forever
            let i = r.below(120);
            junk[i] = r.u64() as u8;
        }
        if r.chance(1, 4) {
            junk.truncate(r.below(base.len()));
        }
        cells.0.insert((d.tx_hash, d.index), junk.clone().into());
        // entry changed into the middle of the loop still ends: the code is loop-free apart from a NUL-bounded scan
        let got = run(&cells, &d, &args, big);
        c.event("malformed programs");
        c.seen("junk", &junk);
        c.ensure(got.is_ok(), "vm/malformed-panics", || (format!("a malformed program made the caller panic: {got:?}"), json!({"elf": hx(&junk)})));
    }
    c.stage("cycles");
    for (n, max) in [(0x1000u32, 100u64), (0x8000, 1000), (0x10_0000, 1_000_000)] {
        let mut cells = Cells::default();
        let d = CellDep { tx_hash: H256::zero(), index: 0, dep_type: 0 };
        cells.0.insert((d.tx_hash, d.index), spins(n).into());
        let got = run(&cells, &d, &[], max);
        c.event("metered runs");
        c.ensure(matches!(got, Ok(Err(_))), "vm/cycle-limit-not-enforced", || (format!("a program of about {} instructions under a limit of {max} cycles answered {got:?}", 2 * n), json!({"instructions": 2 * n, "max_cycles": max})));
        let got = run(&cells, &d, &[], big);
        c.ensure(code_of(&got) == Some(0), "vm/loop", || (format!("{got:?}"), json!({})));
    }
    for _ in 0..2000 {
        let g = c.rng.edge_u64();
        let got = guard(|| (gas_to_cycle(g), cycle_to_gas(g)));
        let want = ((g as u128 * 6000).min(u64::MAX as u128) as u64, g / 6000);
        c.ensure(matches!(got, Ok(x) if x == want), "vm/gas-conversion", || (format!("gas {g}: {got:?}"), json!({})));
    }
    // the same calls from several threads at once
    c.stage("threads");
    let outs: Vec<(usize, bool)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                let mut r = Rng::new(c.seed ^ t);
                s.spawn(move || {
                    let (mut n, mut ok) = (0, true);
                    for _ in 0..100 {
                        let v = r.u64() as i8;
                        let mut cells = Cells::default();
                        let d = CellDep { tx_hash: H256::zero(), index: 0, dep_type: 0 };
                        cells.0.insert((d.tx_hash, d.index), exits(v).into());
                        ok &= code_of(&run(&cells, &d, &[], u64::MAX)) == Some(v);
                        n += 1;
                    }
                    (n, ok)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (n, ok) in outs {
        c.add("concurrent runs", n as u64);
        c.ensure(ok, "vm/concurrent", || ("concurrent calls mixed their results up".into(), json!({})));
    }
}
