//! P72/P76: logs and blocks reach those who ask for them, once and in order.
use crate::node::*;
use crate::reads::{logs_of, same};
use core_consensus::{SyncStatus, SYNC_STATUS};
use jsonrpsee::sim::Socket;
use protocol::types::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vlib::{guard, Ctx, Rng};

/// which logs are wanted
#[derive(Clone, Debug)]
pub struct Want {
    addr: Option<Vec<H160>>,
    topics: Vec<Option<Vec<Option<H256>>>>,
}
impl Want {
    fn some(r: &mut Rng, n: &Node) -> (Want, Value) {
        let a = |r: &mut Rng| if r.chance(4, 5) { *r.pick(&n.runners) } else { H160(r.arr()) };
        let mut v = json!({});
        let addr = match r.below(6) {
            0 | 1 => None,
            2 => {
                v["address"] = Value::Null;
                None
            }
            3 => {
                let x = a(r);
                v["address"] = d(x);
                Some(vec![x])
            }
            _ => {
                let x: Vec<H160> = (0..1 + r.below(3)).map(|_| a(r)).collect();
                v["address"] = json!(x.iter().map(d).collect::<Vec<_>>());
                Some(x)
            }
        };
        let k = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4]);
        let t = |r: &mut Rng| if r.chance(9, 10) { topic(r.below(TOPICS)) } else { H256(r.arr()) };
        let topics: Vec<_> = (0..k)
            .map(|_| match r.below(5) {
                0 | 1 => None,
                2 => Some(vec![Some(t(r))]),
                3 if r.chance(1, 4) => Some(vec![Some(t(r)), None]),
                _ => Some((0..1 + r.below(4)).map(|_| Some(t(r))).collect::<Vec<_>>()),
            })
            .collect();
        if k > 0 || r.bool() {
            let one = |x: &Option<H256>| x.map_or(Value::Null, d);
            v["topics"] = topics
                .iter()
                .map(|t| match t {
                    None => Value::Null,
                    Some(l) if l.len() == 1 && r.chance(2, 3) => one(&l[0]),
                    Some(l) => json!(l.iter().map(one).collect::<Vec<_>>()),
                })
                .collect();
        }
        (Want { addr, topics }, v)
    }
    fn takes(&self, l: &Log) -> bool {
        self.addr.as_ref().map_or(true, |a| a.contains(&l.address))
            && l.topics.len() >= self.topics.len()
            && self.topics.iter().zip(&l.topics).all(|(w, t)| w.as_ref().map_or(true, |w| w.contains(&None) || w.contains(&Some(*t))))
    }
    fn of(&self, rec: &Rec) -> Vec<Value> {
        logs_of(rec).into_iter().filter(|(t, i, _)| self.takes(&rec.resp[*t].logs[*i])).map(|x| x.2).collect()
    }
    fn between(&self, n: &Node, from: u64, to: u64) -> Vec<Value> {
        if from > to {
            return vec![];
        }
        n.chain[from as usize..=(to.min(n.height()) as usize)].iter().flat_map(|b| self.of(b)).collect()
    }
}
/// where a log stands
fn place(v: &Value) -> (u64, u64) {
    (uint(&v["blockNumber"]).unwrap_or_default().low_u64(), uint(&v["logIndex"]).unwrap_or_default().low_u64())
}
fn list(v: Option<&Value>) -> Vec<Value> {
    v.and_then(|v| v.as_array()).cloned().unwrap_or_default()
}
/// two sequences of logs are the same, or how they first differ
fn alike(c: &mut Ctx, key: &str, want: &[Value], got: &[Value], info: &Value) -> bool {
    if want.len() != got.len() {
        let p = |l: &[Value]| l.iter().take(30).map(place).collect::<Vec<_>>();
        return c.ensure(false, &format!("{key}:which"), || {
            (format!("{} logs where {} were to be given", got.len(), want.len()), json!({"info": info, "expected": p(want), "got": p(got)}))
        });
    }
    c.event("oracle.judgements");
    let mut ok = true;
    for (w, g) in want.iter().zip(got) {
        ok &= same(c, &format!("{key}.log"), w, g, info);
    }
    ok
}

pub fn p72(c: &mut Ctx) {
    c.stage("logs");
    for num in 0..c.scale(150, 12000) {
        if !c.within(0.9) {
            break;
        }
        let grow = num % 3 == 2;
        let done = guard(|| if grow { crowd(c, num) } else { history(c, num) });
        if let Err(p) = done {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "serving logs and filters", json!({"history": num}));
    }
}

enum What {
    Blocks,
    Logs(Want, Option<u64>, Option<u64>),
}
struct Filter {
    id: Value,
    what: What,
    made: u64,
    /// blocks up to here have been given
    upto: u64,
    /// virtual and real time of the last use
    used: (u64, Instant),
    polls: usize,
    dead: bool,
}

fn some_get_logs(c: &mut Ctx, r: &mut Rng, n: &Node) {
    let (w, mut f) = Want::some(r, n);
    let head = n.height();
    if r.chance(1, 4) {
        let known = r.chance(4, 5);
        let b = r.below(head as usize + 1);
        let h = if known { n.chain[b].hash } else { H256(r.arr()) };
        f["blockHash"] = d(h);
        let rep = crate::reads::ask(c, n, "eth_getLogs", json!([f]));
        c.seen("logs by hash", (b, known, f.to_string().len()));
        if known {
            let want = w.of(&n.chain[b]);
            c.add("logs.matched", want.len() as u64);
            if rep.ok().is_none() {
                c.ensure(false, "getLogs:hash", || ("the logs of a block are refused".into(), json!({"filter": f, "got": format!("{rep:?}")})));
            }
            alike(c, "getLogs", &want, &list(rep.ok()), &f);
        } else {
            c.ensure(matches!(rep, Reply::Err { .. }), "getLogs:unknown-hash", || ("logs of a block nobody made".into(), json!({"filter": f, "got": format!("{rep:?}")})));
        }
        return;
    }
    let edge = |r: &mut Rng, f: &mut Value, k: &str, none: u64| match r.below(8) {
        0 => none,
        1 => {
            f[k] = json!("latest");
            head
        }
        2 => {
            f[k] = json!("earliest");
            0
        }
        3 if r.bool() => {
            f[k] = json!("pending");
            head
        }
        4 if r.bool() => {
            let b = head + 1 + *r.pick(&[0, 1, 1 << 40, u64::MAX >> 1]);
            f[k] = q(b);
            b
        }
        _ => {
            let b = r.below(head as usize + 1) as u64;
            f[k] = q(b);
            b
        }
    };
    let from = edge(r, &mut f, "fromBlock", head);
    let to = edge(r, &mut f, "toBlock", head).min(head);
    let rep = crate::reads::ask(c, n, "eth_getLogs", json!([f]));
    c.seen("logs between", (from, to, head));
    let span = to.saturating_sub(from);
    if from > head {
        c.ensure(rep.code() == Some(-40015), "getLogs:from", || ("a range that starts after the chain is not refused as such".into(), json!({"filter": f, "head": head, "got": format!("{rep:?}").chars().take(300).collect::<String>()})));
    } else if span > n.opt.range {
        c.event("logs.too-wide");
        c.ensure(rep.code() == Some(-40016), "getLogs:range", || ("a range wider than allowed is not refused as such".into(), json!({"filter": f, "range": n.opt.range, "head": head, "got": format!("{rep:?}").chars().take(300).collect::<String>()})));
    } else {
        let want = w.between(n, from, to);
        c.add("logs.matched", want.len() as u64);
        if rep.ok().is_none() {
            c.ensure(false, "getLogs:refused", || ("logs in range are refused".into(), json!({"filter": f, "head": head, "range": n.opt.range, "got": format!("{rep:?}")})));
            return;
        }
        alike(c, "getLogs", &want, &list(rep.ok()), &json!({"filter": f, "head": head}));
    }
}

fn make(c: &mut Ctx, r: &mut Rng, n: &Node, now: u64) -> Option<Filter> {
    let head = n.height();
    let (what, rep) = if r.chance(1, 3) {
        (What::Blocks, crate::reads::ask(c, n, "eth_newBlockFilter", json!([])))
    } else {
        let (w, mut f) = Want::some(r, n);
        let mut edge = |k: &str, r: &mut Rng| match r.below(6) {
            0 | 1 => None,
            2 => {
                f[k] = json!("latest");
                None
            }
            // a `from` at the head itself may or may not include the head
            3 if k == "toBlock" => {
                let b = 1 + r.below(head as usize + 1) as u64;
                f[k] = q(b);
                Some(b)
            }
            3 => {
                let b = r.below(head as usize) as u64;
                f[k] = q(b);
                Some(b)
            }
            4 => {
                let b = head + 1 + r.below(5) as u64;
                f[k] = q(b);
                Some(b)
            }
            _ if k == "toBlock" => {
                f[k] = json!("pending");
                None
            }
            _ => {
                f[k] = json!("earliest");
                Some(0)
            }
        };
        let (from, to) = (edge("fromBlock", r), edge("toBlock", r));
        let rep = crate::reads::ask(c, n, "eth_newFilter", json!([f]));
        (What::Logs(w, from, to), rep)
    };
    let id = rep.ok().cloned();
    c.ensure(id.as_ref().map_or(false, |v| uint(v).is_some()), "newFilter", || ("no filter is made".into(), json!({"got": format!("{rep:?}")})));
    c.event("filters.made");
    Some(Filter { id: id?, what, made: head, upto: head, used: (now, Instant::now()), polls: 0, dead: false })
}

fn poll(c: &mut Ctx, n: &Node, f: &mut Filter, now: u64) {
    let (idle, real) = (now - f.used.0, f.used.1.elapsed().as_secs());
    let rep = crate::reads::ask(c, n, "eth_getFilterChanges", json!([f.id]));
    c.event("filters.polled");
    let head = n.height();
    if f.dead {
        c.ensure(rep.code() == Some(-40022), "filter:dead", || ("a filter that is gone is answered".into(), json!({"got": format!("{rep:?}").chars().take(300).collect::<String>()})));
        return;
    }
    if rep.code() == Some(-40022) {
        f.dead = true;
        c.event("filters.expired");
        c.ensure(idle + real >= 39, "filter:lost", || ("a filter in use is forgotten".into(), json!({"idle for": idle, "made at": f.made, "polls": f.polls})));
        return;
    }
    c.ensure(idle < 62, "filter:kept", || ("a filter nobody used is still there".into(), json!({"idle for": idle})));
    f.used = (now, Instant::now());
    f.polls += 1;
    let info = json!({"made at": f.made, "given up to": f.upto, "head": head, "polls": f.polls});
    match &f.what {
        What::Blocks => {
            let want: Vec<Value> = n.chain[f.upto as usize + 1..].iter().map(|b| d(b.hash)).collect();
            c.seen("block filter", (f.polls, want.len()));
            c.ensure(rep.ok() == Some(&json!(want)), "blockFilter", || ("not the blocks since the last time".into(), json!({"info": info, "expected": want, "got": format!("{rep:?}").chars().take(500).collect::<String>()})));
            f.upto = head;
        }
        What::Logs(w, from, to) => {
            let start = (f.upto + 1).max(from.unwrap_or(0));
            let end = to.unwrap_or(head).min(head);
            c.seen("log filter", (f.polls, start, end));
            if start <= head && end.saturating_sub(start) > n.opt.range {
                c.ensure(rep.code() == Some(-40016), "filter:range", || ("a range wider than allowed is not refused as such".into(), json!({"info": info, "range": n.opt.range, "got": format!("{rep:?}").chars().take(300).collect::<String>()})));
                f.dead = true;
                return;
            }
            let want = if start <= end { w.between(n, start, end) } else { vec![] };
            c.add("logs.matched", want.len() as u64);
            if rep.ok().is_none() {
                c.ensure(false, "filter:refused", || ("a filter is refused its logs".into(), json!({"info": info, "got": format!("{rep:?}")})));
            }
            alike(c, "filter", &want, &list(rep.ok()), &json!({"info": info, "from": from, "to": to}));
            f.upto = head;
        }
    }
}

fn history(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("l{num}"));
    let mut n = Node::new(&dir, Options { range: *r.pick(&[1, 2, 4, 25000, 25000]), cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    n.some_block(r, 7);
    let mut filters: Vec<Filter> = vec![];
    let mut now = 0;
    for _ in 0..40 {
        match r.below(16) {
            0..=2 => filters.extend(make(c, r, &n, now)),
            3..=5 => n.some_block(r, 7),
            6 => {
                let secs = *r.pick(&[5, 10, 19, 25, 25, 30, 70]);
                warp(secs);
                now += secs;
                c.event("time.passed");
            }
            7 if !filters.is_empty() => {
                let i = r.below(filters.len());
                let f = &mut filters[i];
                let sure = f.dead || (now - f.used.0 + f.used.1.elapsed().as_secs() < 39);
                let rep = crate::reads::ask(c, &n, "eth_uninstallFilter", json!([f.id]));
                c.event("filters.uninstalled");
                if sure {
                    c.ensure(rep.ok() == Some(&json!(!f.dead)), "uninstall", || ("uninstalling is not answered as it is".into(), json!({"was there": !f.dead, "got": format!("{rep:?}")})));
                }
                f.dead = true;
            }
            8..=12 if !filters.is_empty() => {
                let i = r.below(filters.len());
                poll(c, &n, &mut filters[i], now);
            }
            _ => some_get_logs(c, r, &n),
        }
    }
    n.some_block(r, 7);
    for f in &mut filters {
        poll(c, &n, f, now);
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}

/// clients poll while the chain grows
fn crowd(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("g{num}"));
    let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    let mut filters: Vec<Filter> = (0..5).filter_map(|_| make(c, r, &n, 0)).collect();
    for f in &mut filters {
        if let What::Logs(_, from, _) = &mut f.what {
            // from the head on, whatever was asked for before it
            *from = from.filter(|x| *x > f.made);
        }
    }
    let stop = Arc::new(AtomicBool::new(false));
    type Got = Arc<Mutex<Vec<(usize, usize, Reply)>>>;
    let got: Got = Default::default();
    let asked: Arc<Mutex<Vec<(u64, Want, Value, Reply)>>> = Default::default();
    let height = Arc::new(std::sync::atomic::AtomicU64::new(n.height()));
    let mut tasks = vec![];
    let req = |m: &str, p: Value| json!({"jsonrpc": "2.0", "id": 1, "method": m, "params": p}).to_string();
    for (i, f) in filters.iter().enumerate() {
        for who in 0..1 + r.below(2) {
            let (stop, got, http, text) = (Arc::clone(&stop), Arc::clone(&got), n.http, req("eth_getFilterChanges", json!([f.id])));
            let pause = r.below(1500) as u64;
            tasks.push(art().spawn(async move {
                loop {
                    let last = stop.load(Ordering::SeqCst);
                    let rep = reply(jsonrpsee::sim::post(http, &text).await.map_err(|e| (String::new(), e.into())));
                    got.lock().unwrap().push((i, who, rep));
                    if last {
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(pause)).await;
                }
            }));
        }
    }
    for _ in 0..2 {
        let (w, mut f) = Want::some(r, &n);
        f["fromBlock"] = json!("earliest");
        let (stop, asked, http, height) = (Arc::clone(&stop), Arc::clone(&asked), n.http, Arc::clone(&height));
        let text = req("eth_getLogs", json!([f]));
        tasks.push(art().spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                let before = height.load(Ordering::SeqCst);
                let rep = reply(jsonrpsee::sim::post(http, &text).await.map_err(|e| (String::new(), e.into())));
                asked.lock().unwrap().push((before, w.clone(), f.clone(), rep));
                tokio::time::sleep(Duration::from_micros(500)).await;
            }
        }));
    }
    for _ in 0..6 + r.below(6) {
        n.some_block(r, 5);
        height.store(n.height(), Ordering::SeqCst);
    }
    stop.store(true, Ordering::SeqCst);
    for t in tasks {
        if let Err(e) = art().block_on(t) {
            c.violate("broke:concurrent", format!("a request is not answered: {e}"), json!({"history": num}));
        }
    }
    let got = std::mem::take(&mut *got.lock().unwrap());
    for (i, f) in filters.iter().enumerate() {
        let mut all: Vec<Value> = vec![];
        let mut each: HashMap<usize, Vec<Value>> = HashMap::new();
        for (_, who, rep) in got.iter().filter(|g| g.0 == i) {
            c.event("filters.polled-while-growing");
            c.ensure(rep.ok().is_some(), "filter:refused", || ("a filter is refused while the chain grows".into(), json!({"got": format!("{rep:?}")})));
            all.extend(list(rep.ok()));
            each.entry(*who).or_default().extend(list(rep.ok()));
        }
        c.seen("polls while growing", (num, i, got.iter().filter(|g| g.0 == i).count()));
        match &f.what {
            What::Blocks => {
                let at: HashMap<String, u64> = n.chain.iter().map(|b| (d(b.hash).to_string(), b.block.header.number)).collect();
                let mut nums: Vec<u64> = all.iter().map(|h| at.get(&h.to_string()).copied().unwrap_or(u64::MAX)).collect();
                nums.sort();
                let want: Vec<u64> = (f.made + 1..=n.height()).collect();
                c.ensure(nums == want, "blockFilter:growing", || ("not every new block exactly once".into(), json!({"expected": want, "got": nums})));
            }
            What::Logs(w, from, to) => {
                let want = w.between(&n, from.unwrap_or(0).max(f.made + 1), to.unwrap_or(u64::MAX));
                all.sort_by_key(place);
                c.add("logs.matched", want.len() as u64);
                alike(c, "filter:growing", &want, &all, &json!({"made at": f.made, "from": from, "to": to, "head": n.height()}));
            }
        }
        for l in each.values() {
            let p: Vec<_> = l.iter().map(place).collect();
            c.ensure(matches!(f.what, What::Blocks) || p.windows(2).all(|w| w[0] < w[1]), "filter:order", || ("logs out of order".into(), json!({"got": p})));
        }
    }
    for (before, w, f, rep) in std::mem::take(&mut *asked.lock().unwrap()) {
        c.event("logs.asked-while-growing");
        let l = list(rep.ok());
        // the chain as it was at some time between question and answer
        let fits = rep.ok().is_some() && (before..=n.height()).any(|h| {
            let want = w.between(&n, 0, h);
            want.len() == l.len() && want.iter().zip(&l).all(|(w, g)| place(w) == place(g))
        });
        c.ensure(fits, "getLogs:growing", || ("not the logs of the chain at any time while it was asked".into(), json!({"filter": f, "height before": before, "got": l.iter().map(place).collect::<Vec<_>>(), "reply": rep.code()})));
    }
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}

// ---- P76

enum Topic {
    Heads,
    Logs(Want),
    Sync,
}
struct Sub {
    sock: usize,
    id: Value,
    topic: Topic,
    since: u64,
    got: Vec<Value>,
    over: bool,
}
struct Client {
    sock: Socket,
    stuck: bool,
    gone: bool,
    answers: BTreeMap<u64, Value>,
}
fn header_json(rec: &Rec) -> Value {
    let h = &rec.block.header;
    json!({
        "number": q(h.number), "parentHash": d(h.prev_hash), "stateRoot": d(h.state_root), "transactionsRoot": d(h.transactions_root),
        "receiptsRoot": d(h.receipts_root), "miner": d(h.proposer), "gasLimit": q(h.gas_limit.as_u64()), "gasUsed": q(h.gas_used.as_u64()),
        "timestamp": q(h.timestamp),
    })
}

pub fn p76(c: &mut Ctx) {
    c.stage("subscriptions");
    for num in 0..c.scale(24, 2400) {
        if !c.within(0.9) {
            break;
        }
        if let Err(p) = guard(|| watchers(c, num)) {
            c.violate(format!("panic:{}", vlib::short_loc(&p.loc)), format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": num}));
        }
        no_panics(c, "serving subscribers", json!({"history": num}));
    }
}

/// takes in what has come, and waits for what has to
fn take(clients: &mut [Client], subs: &mut [Sub], strays: &mut Vec<Value>, mut enough: impl FnMut(&[Client], &[Sub]) -> bool) -> bool {
    let start = Instant::now();
    loop {
        for (i, cl) in clients.iter_mut().enumerate() {
            if cl.stuck || cl.gone {
                continue;
            }
            while let Some(t) = cl.sock.try_recv() {
                let v: Value = serde_json::from_str(&t).unwrap_or(Value::String(t));
                if let Some(id) = v["id"].as_u64() {
                    cl.answers.insert(id, v);
                    continue;
                }
                let p = &v["params"];
                match subs.iter_mut().find(|s| s.sock == i && s.id == p["subscription"] && v["method"] == "eth_subscription") {
                    Some(s) => s.got.push(p["result"].clone()),
                    None => strays.push(json!({"client": i, "message": v})),
                }
            }
        }
        if enough(clients, subs) {
            return true;
        }
        if start.elapsed() > Duration::from_secs(4) {
            return false;
        }
        wait(async { tokio::time::sleep(Duration::from_millis(1)).await });
    }
}

fn watchers(c: &mut Ctx, num: u64) {
    let mut rng = c.rng.fork();
    let r = &mut rng;
    let dir = c.scratch.join(format!("w{num}"));
    let mut n = Node::new(&dir, Options { cache: *r.pick(&[1, 3, 100]), ..Default::default() });
    n.equip(r, 3);
    let _e = art().enter();
    let mut clients: Vec<Client> = vec![];
    let mut subs: Vec<Sub> = vec![];
    let mut strays = vec![];
    let mut next = 1;
    let mut status = json!(false);
    for round in 0..4 {
        // who comes
        for _ in 0..if round == 0 { 3 } else { r.below(2) } {
            let stuck = r.chance(1, 4);
            let Some(sock) = Socket::open(n.ws, if stuck { 1 + r.below(3) } else { 1024 }) else {
                c.violate("ws:refused", "a client is refused a connection", json!({"clients": clients.len()}));
                return;
            };
            clients.push(Client { sock, stuck, gone: false, answers: Default::default() });
        }
        for i in 0..clients.len() {
            if clients[i].gone || (round > 0 && !r.chance(1, 3)) {
                continue;
            }
            for _ in 0..1 + r.below(2) {
                let (params, topic) = match r.below(5) {
                    0 | 1 => (json!(["newHeads"]), Topic::Heads),
                    2 => (json!(["syncing"]), Topic::Sync),
                    _ => {
                        let (w, f) = Want::some(r, &n);
                        (json!(["logs", f]), Topic::Logs(w))
                    }
                };
                let me = next;
                next += 1;
                clients[i].sock.send(json!({"jsonrpc": "2.0", "id": me, "method": "eth_subscribe", "params": params}).to_string());
                c.event("subscribed");
                if clients[i].stuck {
                    continue;
                }
                let came = take(&mut clients, &mut subs, &mut strays, |cl, _| cl[i].answers.contains_key(&me));
                let id = clients[i].answers.get(&me).map(|v| v["result"].clone()).unwrap_or_default();
                if !c.ensure(came && id.is_string(), "subscribe", || ("a subscription is not confirmed".into(), json!({"params": params, "got": clients[i].answers.get(&me)}))) {
                    return;
                }
                c.ensure(!subs.iter().any(|s| s.sock == i && s.id == id), "subscribe:id", || ("an id is given twice".into(), json!({"id": id})));
                subs.push(Sub { sock: i, id, topic, since: n.height(), got: vec![], over: false });
            }
        }
        // what is not there to subscribe to
        if round == 1 {
            if let Some(i) = clients.iter().position(|c| !c.stuck && !c.gone) {
                let me = next;
                next += 1;
                let p = r.pick(&[json!(["nothing"]), json!([]), json!(["logs", {"topics": 7}]), json!([{}])]).clone();
                clients[i].sock.send(json!({"jsonrpc": "2.0", "id": me, "method": "eth_subscribe", "params": p}).to_string());
                let came = take(&mut clients, &mut subs, &mut strays, |cl, _| cl[i].answers.contains_key(&me));
                let a = clients[i].answers.get(&me).cloned().unwrap_or_default();
                c.ensure(came && a.get("error").is_some(), "subscribe:bad", || ("a subscription to nothing is confirmed".into(), json!({"params": p, "got": a})));
            }
        }
        // the subscriptions are in place once the loop has taken them in
        wait(async { tokio::time::sleep(Duration::from_millis(25)).await });
        for _ in 0..3 {
            if r.chance(1, 3) {
                let k = r.below(50) as u64;
                let doing = r.bool();
                *SYNC_STATUS.write() = if doing { SyncStatus::Syncing { start: k.into(), current: (k + 1).into(), highest: (k + 9).into() } } else { SyncStatus::False };
                status = if doing { json!({"startingBlock": q(k), "currentBlock": q(k + 1), "highestBlock": q(k + 9)}) } else { json!(false) };
                let rep = crate::reads::ask(c, &n, "eth_syncing", json!([]));
                same(c, "eth_syncing", &status, &rep.ok().cloned().unwrap_or_default(), &json!(k));
            }
            for _ in 0..r.below(4) {
                n.some_block(r, 4);
            }
            let before: Vec<usize> = subs.iter().map(|s| s.got.len()).collect();
            let news = subs.iter().any(|s| matches!(s.topic, Topic::Sync));
            let grew = n.height();
            warp(4);
            c.event("rounds");
            // what each is to have by now
            let due: Vec<Vec<Value>> = subs
                .iter()
                .map(|s| match &s.topic {
                    Topic::Heads => n.chain[s.since as usize + 1..].iter().map(header_json).collect(),
                    Topic::Logs(w) => w.between(&n, s.since + 1, grew),
                    Topic::Sync => vec![],
                })
                .collect();
            let came = take(&mut clients, &mut subs, &mut strays, |_, ss| {
                ss.iter().zip(&due).all(|(s, d)| s.over || s.got.iter().filter(|v| at(s, v) > s.since).count() >= d.len())
            });
            if !came {
                for (s, d) in subs.iter().zip(&due).filter(|(s, d)| !s.over && s.got.iter().filter(|v| at(s, v) > s.since).count() < d.len()) {
                    let kind = if matches!(s.topic, Topic::Heads) { "heads" } else { "logs" };
                    c.event("oracle.judgements");
                    c.violate(format!("missing:{kind}"), format!("a subscriber to {kind} is not sent what is new"), json!({
                        "due": d.len(), "since": s.since, "got": s.got.iter().map(|v| at(s, v)).collect::<Vec<_>>(), "head": grew, "round": round,
                    }));
                }
                return;
            }
            for ((s, d), b) in subs.iter().zip(&due).zip(before) {
                if s.over {
                    continue;
                }
                match &s.topic {
                    Topic::Heads => {
                        let l: Vec<&Value> = s.got.iter().filter(|v| at(s, v) > s.since).collect();
                        c.add("heads.sent", (s.got.len() - b) as u64);
                        let nums: Vec<u64> = s.got.iter().map(|v| at(s, v)).collect();
                        if c.ensure(l.len() == d.len() && nums.windows(2).all(|w| w[0] < w[1]), "heads:which", || ("heads sent twice or out of order".into(), json!({"since": s.since, "head": grew, "got": nums}))) {
                            for (w, g) in d.iter().zip(l) {
                                same(c, "head", w, g, &json!({"since": s.since}));
                            }
                        }
                    }
                    Topic::Logs(w) => {
                        let l: Vec<Value> = s.got.iter().filter(|v| at(s, v) > s.since).cloned().collect();
                        c.add("logs.sent", (s.got.len() - b) as u64);
                        alike(c, "ws", d, &l, &json!({"want": format!("{w:?}"), "since": s.since, "head": grew}));
                        let all: Vec<_> = s.got.iter().map(place).collect();
                        c.ensure(all.windows(2).all(|w| w[0] < w[1]), "logs:order", || ("logs sent twice or out of order".into(), json!({"got": all})));
                    }
                    Topic::Sync => {
                        for v in &s.got[b..] {
                            c.event("status.sent");
                            same(c, "syncing", &status, v, &json!({}));
                        }
                    }
                }
            }
            let _ = news;
            c.seen("watching", (subs.len(), clients.len(), grew));
        }
        // who leaves
        if r.bool() && !subs.is_empty() {
            let i = r.below(subs.len());
            let (sock, id, over) = (subs[i].sock, subs[i].id.clone(), subs[i].over);
            if !clients[sock].gone {
                let me = next;
                next += 1;
                clients[sock].sock.send(json!({"jsonrpc": "2.0", "id": me, "method": "eth_unsubscribe", "params": [id]}).to_string());
                let came = take(&mut clients, &mut subs, &mut strays, |cl, _| cl[sock].answers.contains_key(&me));
                let a = clients[sock].answers.get(&me).cloned().unwrap_or_default();
                c.event("unsubscribed");
                c.ensure(came && a["result"] == json!(!over), "unsubscribe", || ("unsubscribing is not answered as it is".into(), json!({"was there": !over, "got": a})));
                subs[i].over = true;
                let had = subs[i].got.len();
                n.some_block(r, 3);
                warp(4);
                take(&mut clients, &mut subs, &mut strays, |_, ss| ss.iter().all(|s| s.over || !matches!(s.topic, Topic::Heads) || s.got.last().map_or(false, |v| at(s, v) >= n.height())));
                c.ensure(subs[i].got.len() == had, "unsubscribed", || ("what nobody is subscribed to is sent".into(), json!({"more": subs[i].got.len() - had})));
            }
        }
        if r.chance(1, 3) {
            let i = r.below(clients.len());
            if !clients[i].gone {
                clients[i].gone = true;
                let dead = Socket::open(n.ws, 1).unwrap();
                drop(std::mem::replace(&mut clients[i].sock, dead));
                c.event("hung up");
                for s in subs.iter_mut().filter(|s| s.sock == i) {
                    s.over = true;
                }
            }
        }
    }
    c.ensure(strays.is_empty(), "stray", || ("a client is sent what it did not ask for".into(), json!({"first": strays.first()})));
    *SYNC_STATUS.write() = SyncStatus::False;
    drop(clients);
    drop(n);
    let _ = std::fs::remove_dir_all(&dir);
}
fn at(s: &Sub, v: &Value) -> u64 {
    match s.topic {
        Topic::Heads => uint(&v["number"]).unwrap_or_default().low_u64(),
        Topic::Logs(_) => place(v).0,
        Topic::Sync => u64::MAX,
    }
}
