//! P12: the real CKB client (reqwest and all) against HTTP servers on the loopback interface that keep every request
//! they receive and answer it well, badly, late or not at all.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use ckb_sdk::rpc::ckb_indexer::SearchKey;
use ckb_types::H256;
use common_crypto::Secp256k1RecoverablePrivateKey;
use core_rpc_client::RpcClient;
use futures::future::join_all;
use protocol::tokio;
use protocol::traits::{CkbClient, Context};
use protocol::types::{CrossChainTransferPayload, Hex, Identity, SubmitCheckpointPayload, TransactionCompletionResponse};
use protocol::ProtocolResult;
use serde_json::{json, Value};
use vlib::{hex, Ctx, Rng, PANICS};

// ---- the servers ----

#[derive(Clone, Debug)]
enum Answer {
    Result(Value),
    Error(i64, String),
    /// a body that is no JSON-RPC answer
    Body(u16, Vec<u8>),
    /// fewer bytes than announced
    Cut(Value),
    /// the connection ends without a byte of answer
    Close,
}

struct Seen {
    server: usize,
    line: String,
    head: String,
    body: Value,
    raw: String,
}

#[derive(Default)]
struct State {
    answers: HashMap<String, (Answer, u64)>,
    seen: Vec<Seen>,
}

fn key(method: &str, params: &Value) -> String {
    format!("{method} {}", bare(params))
}

/// absent, null: the same in what CKB reads and writes
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), bare(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        v => v.clone(),
    }
}

struct Server {
    port: u16,
    stop: Arc<AtomicBool>,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn serve(index: usize, state: Arc<Mutex<State>>) -> Server {
    let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let port = l.local_addr().unwrap().port();
    let stop = Arc::new(AtomicBool::new(false));
    let stop2 = Arc::clone(&stop);
    std::thread::spawn(move || {
        for s in l.incoming() {
            if stop2.load(Ordering::SeqCst) {
                return;
            }
            let Ok(s) = s else { continue };
            let state = Arc::clone(&state);
            std::thread::spawn(move || {
                let _ = connection(index, s, &state);
            });
        }
    });
    Server { port, stop }
}

fn connection(server: usize, mut s: TcpStream, state: &Mutex<State>) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(20)))?;
    s.set_nodelay(true)?;
    let mut buf: Vec<u8> = vec![];
    loop {
        let mut chunk = [0u8; 65536];
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            let n = s.read(&mut chunk)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&chunk[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..end]).into_owned();
        let len: usize = head
            .lines()
            .filter_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse().unwrap_or(0)))
            .next()
            .unwrap_or(0);
        while buf.len() < end + len {
            let n = s.read(&mut chunk)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&chunk[..n]);
        }
        let raw = String::from_utf8_lossy(&buf[end..end + len]).into_owned();
        buf.drain(..end + len);
        let body: Value = serde_json::from_str(&raw).unwrap_or(Value::Null);
        let id = body["id"].clone();
        let k = key(body["method"].as_str().unwrap_or_default(), &body["params"]);
        let line = head.lines().next().unwrap_or_default().to_string();
        let (answer, wait) = {
            let mut st = state.lock().unwrap();
            st.seen.push(Seen { server, line, head, body, raw });
            st.answers.get(&k).cloned().unwrap_or((Answer::Error(-32601, "unknown to the harness".into()), 0))
        };
        if wait > 0 {
            std::thread::sleep(Duration::from_millis(wait));
        }
        let (status, bytes, announced) = match answer {
            Answer::Result(v) => (200, json!({"jsonrpc": "2.0", "id": id, "result": v}).to_string().into_bytes(), 0),
            Answer::Error(code, m) => {
                (200, json!({"jsonrpc": "2.0", "id": id, "error": {"code": code, "message": m}}).to_string().into_bytes(), 0)
            }
            Answer::Body(st, b) => (st, b, 0),
            Answer::Cut(v) => (200, json!({"jsonrpc": "2.0", "id": id, "result": v}).to_string().into_bytes(), 10),
            Answer::Close => return Ok(()),
        };
        let cut = announced > 0;
        s.write_all(
            format!("HTTP/1.1 {status} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", bytes.len() + announced).as_bytes(),
        )?;
        s.write_all(&bytes)?;
        s.flush()?;
        if cut {
            return Ok(());
        }
    }
}

// ---- CKB's values, in its own notation ----

fn q(r: &mut Rng) -> Value {
    json!(format!("{:#x}", r.edge_u64()))
}
fn q32(r: &mut Rng) -> Value {
    json!(format!("{:#x}", r.edge_u64() as u32))
}
fn h(r: &mut Rng, n: usize) -> Value {
    json!(format!("0x{}", hex(r.bytes(n))))
}
fn data(r: &mut Rng, max: usize) -> Value {
    let n = r.below(max);
    h(r, n)
}
fn many(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> Value) -> Value {
    let n = r.below(max + 1);
    Value::Array((0..n).map(|_| f(r)).collect())
}
fn script(r: &mut Rng) -> Value {
    json!({"code_hash": h(r, 32), "hash_type": r.pick(&["data", "type", "data1"][..]), "args": data(r, 60)})
}
fn out_point(r: &mut Rng) -> Value {
    json!({"tx_hash": h(r, 32), "index": q32(r)})
}
fn output(r: &mut Rng) -> Value {
    let ty = if r.bool() { script(r) } else { Value::Null };
    json!({"capacity": q(r), "lock": script(r), "type": ty})
}
fn tx(r: &mut Rng, view: bool) -> Value {
    let mut v = json!({
        "version": q32(r),
        "cell_deps": many(r, 3, |r| json!({"out_point": out_point(r), "dep_type": r.pick(&["code", "dep_group"][..])})),
        "header_deps": many(r, 2, |r| h(r, 32)),
        "inputs": many(r, 3, |r| json!({"since": q(r), "previous_output": out_point(r)})),
        "outputs": many(r, 3, output),
        "outputs_data": many(r, 3, |r| data(r, 80)),
        "witnesses": many(r, 3, |r| data(r, 120)),
    });
    if view {
        v["hash"] = h(r, 32);
    }
    v
}
fn header(r: &mut Rng) -> Value {
    json!({
        "version": q32(r), "compact_target": q32(r), "timestamp": q(r), "number": q(r), "epoch": q(r), "parent_hash": h(r, 32),
        "transactions_root": h(r, 32), "proposals_hash": h(r, 32), "extra_hash": h(r, 32), "dao": h(r, 32),
        "nonce": format!("{:#x}", (r.u64() as u128) << r.below(65) | r.u64() as u128), "hash": h(r, 32),
    })
}
fn block(r: &mut Rng, big: bool) -> Value {
    let mut b = json!({
        "header": header(r),
        "uncles": many(r, 2, |r| json!({"header": header(r), "proposals": many(r, 2, |r| h(r, 10))})),
        "transactions": many(r, if big { 400 } else { 4 }, |r| tx(r, true)),
        "proposals": many(r, 3, |r| h(r, 10)),
    });
    if r.bool() {
        b["extension"] = data(r, 96);
    }
    b
}
fn located(r: &mut Rng) -> Value {
    let t = if r.chance(1, 5) { Value::Null } else { tx(r, true) };
    let block = if r.bool() { h(r, 32) } else { Value::Null };
    json!({"transaction": t, "tx_status": {"status": r.pick(&["pending", "proposed", "committed", "unknown", "rejected"][..]), "block_hash": block, "reason": null}})
}
fn completion(r: &mut Rng) -> Value {
    json!({
        "tx_view": tx(r, true),
        "signature_actions": many(r, 3, |r| json!({
            "signature_location": {"index": r.below(9), "offset": r.below(99)},
            "signature_info": {"algorithm": "Secp256k1", "address": format!("ckt1{}", r.u64())},
            "hash_algorithm": "Blake2b",
            "other_indexes_in_group": (0..r.below(3)).collect::<Vec<_>>(),
        })),
    })
}
fn range(r: &mut Rng) -> Value {
    if r.bool() {
        json!([q(r), q(r)])
    } else {
        Value::Null
    }
}
fn search(r: &mut Rng) -> Value {
    let filter = if r.bool() {
        let s = if r.bool() { script(r) } else { Value::Null };
        json!({"script": s, "script_len_range": range(r), "output_data_len_range": range(r), "output_capacity_range": range(r), "block_range": range(r)})
    } else {
        Value::Null
    };
    json!({
        "script": script(r), "script_type": r.pick(&["lock", "type"][..]), "script_search_mode": r.pick(&[json!(null), json!("prefix"), json!("exact")]),
        "filter": filter, "with_data": r.pick(&[json!(null), json!(true), json!(false)]), "group_by_transaction": r.pick(&[json!(null), json!(true)]),
    })
}
fn cells(r: &mut Rng) -> Value {
    json!({
        "objects": many(r, 4, |r| {
            let d = if r.bool() { data(r, 50) } else { Value::Null };
            json!({"output": output(r), "output_data": d, "out_point": out_point(r), "block_number": q(r), "tx_index": q32(r)})
        }),
        "last_cursor": data(r, 80),
    })
}

/// something wrong somewhere inside
fn mangle(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Object(o) if !o.is_empty() && !r.chance(1, 6) => {
            let mut o = o.clone();
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            if r.chance(1, 4) {
                o.remove(&k);
            } else {
                let m = mangle(r, &o[&k]);
                o.insert(k, m);
            }
            Value::Object(o)
        }
        Value::Array(a) if !a.is_empty() && !r.chance(1, 6) => {
            let mut a = a.clone();
            let i = r.below(a.len());
            a[i] = mangle(r, &a[i]);
            Value::Array(a)
        }
        _ => r
            .pick(&[
                json!(null), json!(1), json!(-1), json!("0x"), json!("0x0g"), json!("12"), json!("0x10000000000000000"), json!([]), json!({}), json!(true),
                json!("0x123"), json!(1.5), json!("pending"), json!([1, 2]),
            ])
            .clone(),
    }
}

// ---- the calls ----

fn h256(v: &Value) -> H256 {
    serde_json::from_value(v.clone()).unwrap()
}

fn out<T: serde_like::Ser>(r: ProtocolResult<T>) -> Result<Value, String> {
    r.map(|t| t.value()).map_err(|e| e.to_string())
}
mod serde_like {
    use super::*;
    pub trait Ser {
        fn value(&self) -> Value;
    }
    macro_rules! ser {
        ($($t:ty),*) => { $(impl Ser for $t { fn value(&self) -> Value { serde_json::to_value(self).unwrap() } })* };
    }
    use ckb_jsonrpc_types::*;
    use ckb_sdk::rpc::ckb_indexer::{Cell, Pagination};
    ser!(BlockView, HeaderView, Option<TransactionView>, Vec<Option<TransactionView>>, ckb_types::H256, TransactionCompletionResponse, Pagination<Cell>);
}

/// whether `v` can be read as what the call returns
fn readable(op: &Op, v: &Value) -> bool {
    use ckb_jsonrpc_types::*;
    use ckb_sdk::rpc::ckb_indexer::{Cell, Pagination};
    let v = v.clone();
    match op {
        Op::Block(_) => serde_json::from_value::<BlockView>(v).is_ok(),
        Op::Tip => serde_json::from_value::<HeaderView>(v).is_ok(),
        Op::Tx(_) | Op::Txs(_) => {
            v.get("tx_status").map_or(false, |s| serde_json::from_value::<TxStatus>(s.clone()).is_ok())
                && serde_json::from_value::<Option<TransactionView>>(v.get("transaction").cloned().unwrap_or(Value::Null)).is_ok()
        }
        Op::Send(..) => serde_json::from_value::<H256>(v).is_ok(),
        Op::Transfer(_) | Op::Checkpoint(_) => serde_json::from_value::<TransactionCompletionResponse>(v).is_ok(),
        Op::Cells(..) => serde_json::from_value::<Pagination<Cell>>(v).is_ok(),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Block(Value),
    Tip,
    Tx(Value),
    Send(Value, Value),
    Txs(Vec<Value>),
    Transfer(Value),
    Checkpoint(Value),
    Cells(Value, u32, Value),
}

async fn call(c: &RpcClient, op: &Op) -> Result<Value, String> {
    let ctx = Context::new();
    match op.clone() {
        Op::Block(n) => out(c.get_block_by_number(ctx, serde_json::from_value(n).unwrap()).await),
        Op::Tip => out(c.get_tip_header(ctx).await),
        Op::Tx(h) => out(CkbClient::get_transaction(c, ctx, &h256(&h)).await),
        Op::Send(t, v) => {
            let t = serde_json::from_value(t).unwrap();
            out(c.send_transaction(ctx, &t, serde_json::from_value(v).unwrap()).await)
        }
        Op::Txs(hs) => out(c.get_txs_by_hashes(ctx, hs.iter().map(h256).collect()).await),
        Op::Transfer(p) => {
            let p = CrossChainTransferPayload {
                sender:    p["sender"].as_str().unwrap().into(),
                receiver:  p["receiver"].as_str().unwrap().into(),
                udt_hash:  h256(&p["udt_hash"]),
                amount:    p["amount"].as_str().unwrap().into(),
                direction: p["direction"].as_u64().unwrap() as u8,
                memo:      serde_json::from_value(p["memo"].clone()).unwrap(),
            };
            out(c.build_cross_chain_transfer_transaction(ctx, p).await)
        }
        Op::Checkpoint(p) => {
            let id = |v: &Value| Identity { flag: v["flag"].as_u64().unwrap() as u8, content: Hex::encode(vlib::unhex(&v["content"].as_str().unwrap()[2..])) };
            let p = SubmitCheckpointPayload {
                node_id:              id(&p["node_id"]),
                admin_id:             id(&p["admin_id"]),
                period_number:        p["period_number"].as_u64().unwrap(),
                checkpoint:           p["checkpoint"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<_>>().into(),
                selection_lock_hash:  h256(&p["selection_lock_hash"]),
                checkpoint_type_hash: h256(&p["checkpoint_type_hash"]),
            };
            out(c.build_submit_checkpoint_transaction(ctx, p).await)
        }
        Op::Cells(k, n, cur) => {
            let k: SearchKey = serde_json::from_value(k).unwrap();
            out(c.fetch_live_cells(ctx, k, n, serde_json::from_value(cur).unwrap()).await)
        }
    }
}

/// (server, method, params) the documentation of the three services asks for
fn due(op: &Op) -> Vec<(usize, &'static str, Value)> {
    match op {
        Op::Block(n) => vec![(0, "get_block_by_number", json!([n]))],
        Op::Tip => vec![(0, "get_tip_header", Value::Null)],
        Op::Tx(h) => vec![(0, "get_transaction", json!([h]))],
        Op::Send(t, v) => vec![(0, "send_transaction", json!([t, v]))],
        Op::Txs(hs) => hs.iter().map(|h| (0, "get_transaction", json!([h]))).collect(),
        Op::Transfer(p) => vec![(1, "build_cross_chain_transfer_transaction", json!([p]))],
        Op::Checkpoint(p) => vec![(1, "build_submit_checkpoint_transaction", json!([p]))],
        Op::Cells(k, n, cur) => vec![(2, "get_cells", json!([k, "asc", format!("{n:#x}"), cur]))],
    }
}

fn some_op(r: &mut Rng) -> Op {
    match r.below(9) {
        0 => Op::Block(q(r)),
        1 => Op::Tip,
        2 | 3 => Op::Tx(h(r, 32)),
        4 => Op::Send(tx(r, false), r.pick(&[json!(null), json!("passthrough"), json!("well_known_scripts_only")]).clone()),
        5 => {
            let n = r.below(7);
            let mut hs: Vec<Value> = (0..n).map(|_| h(r, 32)).collect();
            if n > 1 && r.chance(1, 3) {
                hs[0] = hs[n - 1].clone();
            }
            Op::Txs(hs)
        }
        6 => {
            let odd = ["ckt1qyq", "0xabc", "", "quo\"te", "ünï \\ \n", "{}", "\",\"method\":\"x"];
            Op::Transfer(json!({
                "sender": r.pick(&odd[..]), "receiver": format!("{}{}", r.pick(&odd[..]), r.u64()), "udt_hash": h(r, 32), "amount": r.u64().to_string(),
                "direction": r.below(256), "memo": h(r, 20),
            }))
        }
        7 => Op::Checkpoint(json!({
            "node_id": {"flag": r.below(256), "content": h(r, 20)}, "admin_id": {"flag": r.below(256), "content": data(r, 30)}, "period_number": r.edge_u64(),
            "checkpoint": r.bytes(r.clone_below(40)), "selection_lock_hash": h(r, 32), "checkpoint_type_hash": h(r, 32),
        })),
        _ => {
            let cur = if r.bool() { data(r, 60) } else { Value::Null };
            Op::Cells(search(r), r.edge_u64() as u32, cur)
        }
    }
}
trait CloneBelow {
    fn clone_below(&self, n: usize) -> usize;
}
impl CloneBelow for Rng {
    fn clone_below(&self, n: usize) -> usize {
        let mut f = self.clone();
        f.below(n)
    }
}

fn good(r: &mut Rng, op: &Op) -> Value {
    match op {
        Op::Block(_) => {
            let big = r.chance(1, 20);
            block(r, big)
        }
        Op::Tip => header(r),
        Op::Tx(_) | Op::Txs(_) => located(r),
        Op::Send(..) => h(r, 32),
        Op::Transfer(_) | Op::Checkpoint(_) => completion(r),
        Op::Cells(..) => cells(r),
    }
}

fn some_answer(r: &mut Rng, op: &Op) -> Answer {
    match r.below(14) {
        0 => Answer::Error(r.u64() as i32 as i64, format!("no: {} \"q\"", r.u64())),
        1 => {
            let g = good(r, op);
            let m = mangle(r, &g);
            if readable(op, &m) {
                Answer::Result(g)
            } else {
                Answer::Result(m)
            }
        }
        2 => {
            let bodies: [&[u8]; 10] = [
                b"", b"null", b"[]", b"{}", b"<html>502</html>", b"{\"jsonrpc\":\"2.0\"", b"\xff\xfe", b"{\"jsonrpc\":\"1.0\",\"result\":1,\"id\":0}",
                b"{\"jsonrpc\":\"2.0\",\"id\":0,\"error\":{}}", b"[[[[[[[[[[[[[[[[",
            ];
            Answer::Body(*r.pick(&[200, 200, 500, 404, 502]), r.pick(&bodies[..]).to_vec())
        }
        3 => Answer::Cut(good(r, op)),
        4 => Answer::Close,
        _ => Answer::Result(good(r, op)),
    }
}

pub fn p12(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    c.stage("calls");
    let mut n = 0;
    while n < c.scale(150, 1_000_000) && c.within(if c.thorough { 0.9 } else { 0.8 }) {
        calls(c, &rt);
        n += 1;
    }
    c.note(format!("{n} exchanges with the three services"));
    c.stage("signing");
    let mut n = 0;
    while n < c.scale(120, 20_000) && c.within(0.95) {
        signing(c);
        n += 1;
    }
    c.note(format!("{n} transactions completed and signed"));
    rt.shutdown_background();
}

fn calls(c: &mut Ctx, rt: &tokio::runtime::Runtime) {
    let mut r = c.rng.fork();
    let state = Arc::new(Mutex::new(State::default()));
    let servers: Vec<Server> = (0..3).map(|i| serve(i, Arc::clone(&state))).collect();
    let paths = ["/", "/ckb/rpc", "/mercury?x=1", "/idx/"];
    let at: Vec<&str> = (0..3).map(|_| *r.pick(&paths[..])).collect();
    let uri = |i: usize| format!("http://127.0.0.1:{}{}", servers[i].port, at[i]);
    let client = RpcClient::new(&uri(0), &uri(1), &uri(2));

    // what will be asked, and what will be answered
    let n = r.range(1, 12) as usize;
    let mut ops = vec![];
    for _ in 0..n {
        let op = some_op(&mut r);
        let mut answers = vec![];
        for (_, m, p) in due(&op) {
            let k = key(m, &p);
            let mut st = state.lock().unwrap();
            let a = st
                .answers
                .entry(k)
                .or_insert_with(|| (some_answer(&mut r, &op), if r.chance(1, 8) { r.range(1, 60) } else { 0 }))
                .0
                .clone();
            answers.push(a);
        }
        ops.push((op, answers));
    }
    let together = r.bool();
    let before = PANICS.lock().unwrap().len();
    let got: Vec<Option<Result<Value, String>>> = rt.block_on(async {
        let run = |op: Op, client: RpcClient| {
            tokio::spawn(async move { tokio::time::timeout(Duration::from_secs(40), call(&client, &op)).await })
        };
        let mut out = vec![];
        if together {
            let tasks: Vec<_> = ops.iter().map(|(op, _)| run(op.clone(), client.clone())).collect();
            for t in join_all(tasks).await {
                out.push(t);
            }
        } else {
            for (op, _) in &ops {
                out.push(run(op.clone(), client.clone()).await);
            }
        }
        out.into_iter()
            .map(|o| match o {
                Ok(Ok(v)) => Some(v),
                Ok(Err(_)) => Some(Err("HARNESS-TIMEOUT".into())),
                Err(_) => None, // the call panicked
            })
            .collect()
    });
    let panics: Vec<_> = PANICS.lock().unwrap()[before..].to_vec();
    let brief = |v: &Value| v.to_string().chars().take(600).collect::<String>();
    for ((op, answers), got) in ops.iter().zip(&got) {
        let shown = || json!({"call": format!("{op:?}").chars().take(600).collect::<String>(), "answers": format!("{answers:?}").chars().take(900).collect::<String>(), "got": format!("{got:?}").chars().take(900).collect::<String>()});
        let Some(got) = got else {
            c.ensure(false, "panic", || {
                let mut d = shown();
                d["panics"] = json!(panics.iter().take(3).map(|p| format!("{} {}", p.0, p.1.chars().take(200).collect::<String>())).collect::<Vec<_>>());
                ("an answer from outside crashed the caller".into(), d)
            });
            continue;
        };
        if got.as_ref().err().map_or(false, |e| e == "HARNESS-TIMEOUT") {
            c.note("a call was given up after 40 s");
            continue;
        }
        // the first answer that is no result, if any
        let mut bad = None;
        let mut parts = vec![];
        for a in answers {
            match a {
                Answer::Result(v) if readable(op, v) => parts.push(v.clone()),
                a => {
                    bad = Some(a.clone());
                    break;
                }
            }
        }
        c.seen("call", (format!("{op:?}").split('(').next().unwrap_or_default().to_string(), answers.iter().map(|a| format!("{a:?}").chars().take(4).collect::<String>()).collect::<Vec<_>>(), together));
        match bad {
            None => {
                let tx_of = |v: &Value| v.get("transaction").cloned().unwrap_or(Value::Null);
                let want = match op {
                    Op::Tx(_) => tx_of(&parts[0]),
                    Op::Txs(_) => Value::Array(parts.iter().map(tx_of).collect()),
                    _ => parts[0].clone(),
                };
                c.event("rpc.results");
                c.ensure(got.as_ref().map_or(false, |g| bare(g) == bare(&want)), "result", || ("a call returns what the service answered".into(), {
                    let mut d = shown();
                    d["want"] = json!(brief(&want));
                    d
                }));
            }
            Some(a) => {
                c.event("rpc.refusals");
                c.ensure(got.is_err(), "refusal", || ("a failed or unreadable answer is an error to the caller".into(), shown()));
                if let (Answer::Error(code, m), Err(e), false) = (&a, got, matches!(op, Op::Txs(_))) {
                    c.ensure(e.contains(&m[4..12]) || e.contains(&code.to_string()), "reason", || ("the error tells what the service said".into(), shown()));
                }
            }
        }
    }
    // what the services saw
    let st = state.lock().unwrap();
    let mut expected: HashMap<String, (usize, u64)> = HashMap::new();
    let mut excused: HashMap<String, bool> = HashMap::new();
    for (op, answers) in &ops {
        let failed = matches!(op, Op::Txs(_)) && answers.iter().any(|a| !matches!(a, Answer::Result(v) if readable(op, v)));
        for (s, m, p) in due(op) {
            let k = key(m, &p);
            *excused.entry(k.clone()).or_default() |= failed;
            expected.entry(k.clone()).or_insert((s, 0)).1 += 1;
        }
    }
    let mut times: HashMap<String, u64> = HashMap::new();
    let mut ids: HashMap<String, u64> = HashMap::new();
    for s in &st.seen {
        c.event("rpc.requests");
        let k = key(s.body["method"].as_str().unwrap_or_default(), &s.body["params"]);
        *times.entry(k.clone()).or_default() += 1;
        let form = s.body.as_object().map_or(false, |o| o.keys().all(|k| ["id", "jsonrpc", "method", "params"].contains(&k.as_str())))
            && s.body["jsonrpc"] == "2.0"
            && s.body["id"].is_u64()
            && s.line == format!("POST {} HTTP/1.1", at[s.server])
            && s.head.to_ascii_lowercase().contains("content-type: application/json");
        c.ensure(form, "form", || ("a request is a JSON-RPC 2.0 POST to the configured address".into(), json!({"line": s.line, "body": s.raw.chars().take(800).collect::<String>()})));
        let known = expected.get(&k).map(|e| e.0);
        c.ensure(known == Some(s.server), "request", || {
            ("each call asks the right service for the right method with its own arguments".into(), json!({"service": s.server, "body": s.raw.chars().take(1500).collect::<String>(), "known": known}))
        });
        *ids.entry(s.body["id"].to_string()).or_default() += 1;
    }
    for (k, (_, n)) in &expected {
        let got = times.get(k).copied().unwrap_or(0);
        // a request that was taken is not sent again, also when the connection ends without an answer; and a list that
        // failed early need not have asked for the rest
        let fair = got <= *n && (excused[k] || got >= *n);
        c.ensure(fair, "once", || ("each call asks exactly once".into(), json!({"request": k.chars().take(600).collect::<String>(), "calls": n, "requests": got})));
    }
    if let Some((id, n)) = ids.iter().find(|(_, n)| **n > 1) {
        c.ensure(false, "ids", || ("two requests of one client carry the same id".into(), json!({"id": id, "requests": n, "together": together, "calls": ops.len()})));
    } else {
        c.ensure(true, "ids", || (String::new(), json!({})));
    }
}

/// CKB's own rule for an ordinary lock: what is signed is the transaction's hash and the witnesses of the group, the
/// first one with an empty signature in it.
fn signing(c: &mut Ctx) {
    use ckb_types::{packed, prelude::*};
    let mut r = c.rng.fork();
    let n = r.range(1, 6) as usize;
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    // the groups: a first index (its witness holds the signature) and the others
    let mut groups: Vec<Vec<usize>> = vec![];
    for i in order {
        if groups.is_empty() || r.chance(1, 2) {
            groups.push(vec![i]);
        } else {
            let k = r.below(groups.len());
            groups[k].push(i);
        }
    }
    for g in groups.iter_mut() {
        g.sort_unstable();
    }
    if groups.len() > 1 && r.chance(1, 3) {
        groups.pop();
    }
    let mut t = tx(&mut r, true);
    let mut wit: Vec<Vec<u8>> = (0..n).map(|_| { let k = r.below(50); r.bytes(k) }).collect();
    for g in &groups {
        let opt = |r: &mut Rng| -> packed::BytesOpt {
            let b: Option<packed::Bytes> = if r.bool() {
                let k = r.below(30);
                Some(r.bytes(k).pack())
            } else {
                None
            };
            packed::BytesOpt::new_builder().set(b).build()
        };
        let empty: packed::Bytes = vec![0u8; 65].pack();
        let w = packed::WitnessArgs::new_builder()
            .lock(packed::BytesOpt::new_builder().set(Some(empty)).build())
            .input_type(opt(&mut r))
            .output_type(opt(&mut r))
            .build();
        wit[g[0]] = w.as_slice().to_vec();
    }
    t["witnesses"] = json!(wit.iter().map(|w| format!("0x{}", hex(w))).collect::<Vec<_>>());
    let full: ckb_jsonrpc_types::TransactionView = serde_json::from_value(t.clone()).unwrap();
    let raw: packed::Transaction = full.inner.clone().into();
    let hash = raw.calc_tx_hash();
    let resp: TransactionCompletionResponse = serde_json::from_value(json!({
        "tx_view": t,
        "signature_actions": groups.iter().map(|g| json!({
            "signature_location": {"index": g[0], "offset": 20}, "signature_info": {"algorithm": "Secp256k1", "address": "ckt1"},
            "hash_algorithm": "Blake2b", "other_indexes_in_group": g[1..],
        })).collect::<Vec<_>>(),
    }))
    .unwrap();
    let sk = loop {
        let b: [u8; 32] = r.arr();
        if k256::ecdsa::SigningKey::from_slice(&b).is_ok() {
            break b;
        }
    };
    let key = Secp256k1RecoverablePrivateKey::try_from(&sk[..]).unwrap();
    let public = *k256::ecdsa::SigningKey::from_slice(&sk).unwrap().verifying_key();
    let signed = match vlib::guard(|| resp.sign(&key)) {
        Ok(s) => s,
        Err(p) => {
            c.ensure(false, "sign-panic", || ("signing a completed transaction crashed".into(), json!({"at": p.loc, "msg": p.msg, "groups": groups})));
            return;
        }
    };
    let signed = serde_json::to_value(&signed).unwrap();
    let detail = || json!({"groups": groups, "before": t, "after": signed});
    // nothing but the witnesses changes
    let mut a = signed.clone();
    let mut b = t.clone();
    b.as_object_mut().unwrap().remove("hash");
    let after: Vec<Vec<u8>> = a["witnesses"].as_array().unwrap().iter().map(|w| vlib::unhex(&w.as_str().unwrap()[2..])).collect();
    a["witnesses"] = json!([]);
    b["witnesses"] = json!([]);
    c.event("rpc.signed");
    c.seen("groups", groups.clone());
    c.ensure(bare(&a) == bare(&b) && after.len() == n, "sign-rest", || ("signing changes nothing but the witnesses".into(), detail()));
    if after.len() != n {
        return;
    }
    for (i, w) in after.iter().enumerate() {
        let group = groups.iter().find(|g| g[0] == i);
        let Some(g) = group else {
            c.ensure(*w == wit[i], "sign-other", || ("a witness without a signature is left alone".into(), detail()));
            continue;
        };
        let Ok(args) = packed::WitnessArgs::from_slice(w) else {
            c.ensure(false, "sign-witness", || ("a signed witness is still a witness".into(), detail()));
            continue;
        };
        let sig: Option<Vec<u8>> = args.lock().to_opt().map(|b| b.raw_data().to_vec());
        let empty: packed::Bytes = vec![0u8; 65].pack();
        let cleared = args.clone().as_builder().lock(packed::BytesOpt::new_builder().set(Some(empty)).build()).build();
        c.ensure(cleared.as_slice() == &wit[i][..], "sign-fields", || ("signing keeps the other fields of the witness".into(), detail()));
        let mut b2 = ckb_hash::new_blake2b();
        b2.update(hash.as_slice());
        for (k, j) in g.iter().enumerate() {
            let src = if k == 0 { cleared.as_slice() } else { &wit[*j] };
            b2.update(&(src.len() as u64).to_le_bytes());
            b2.update(src);
        }
        let mut digest = [0u8; 32];
        b2.finalize(&mut digest);
        let ok = sig.as_ref().filter(|s| s.len() == 65).and_then(|s| {
            let rec = k256::ecdsa::RecoveryId::from_byte(s[64])?;
            let sg = k256::ecdsa::Signature::from_slice(&s[..64]).ok()?;
            k256::ecdsa::VerifyingKey::recover_from_prehash(&digest, &sg, rec).ok()
        }) == Some(public);
        c.ensure(ok, "sign-valid", || ("the signature is the one CKB's lock accepts".into(), {
            let mut d = detail();
            d["group"] = json!(g);
            d
        }));
    }
}
