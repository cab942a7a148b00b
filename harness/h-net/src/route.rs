//! Messages between nodes: who gets what (P60), and calls and their answers (P61).
use crate::sim::*;
use core_network::{NetworkContext, PeerId};
use protocol::traits::{Context, Gossip, Priority, Rpc};
use protocol::types::Bytes;
use protocol::ProtocolResult;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::Duration;
use tentacle::ether;
use tentacle::SessionId;
use vlib::{Ctx, Rng};

fn prio(r: &mut Rng) -> Priority {
    if r.bool() {
        Priority::High
    } else {
        Priority::Normal
    }
}
fn short(b: &[u8]) -> String {
    let h = vlib::hex(&b[..b.len().min(24)]);
    format!("{h}({})", b.len())
}

fn payload(r: &mut Rng, serial: u64) -> Vec<u8> {
    let mut v = serial.to_be_bytes().to_vec();
    let n = match r.below(60) {
        0 => r.range(100_000, 3_000_000) as usize,
        1..=9 => r.range(900, 1200) as usize,
        10..=18 => 0,
        _ => r.below(300),
    };
    if r.chance(1, 3) {
        v.resize(8 + n, serial as u8);
    } else {
        v.extend(r.bytes(n));
    }
    v
}

/// what a received message came as: (receiver, endpoint, sender, payload) -> times
type Tally = BTreeMap<(String, String, String, Vec<u8>), u64>;

struct Expected {
    what: String,
    end: String,
    from: String,
    data: Vec<u8>,
    to: Vec<String>,
    never: Vec<String>,
    /// at least this many of `to`
    least: usize,
}

pub fn p60(c: &mut Ctx) {
    let n = c.scale(42, 900);
    for e in 0..n {
        if !c.within(0.9) {
            break;
        }
        c.event("episodes");
        let mut r = c.rng.fork();
        paused(routing(c, &mut r, e));
        ether::reset();
    }
}

async fn routing(c: &mut Ctx, r: &mut Rng, episode: u64) {
    run_clock(1_700_000_000_000);
    let w = r.below(3);
    weather(r, w);
    let (k, extra) = (r.range(2, 6), r.range(1, 4));
    let Some((nodes, raws)) = mesh(c, k, extra).await else {
        c.ensure(false, "mesh", || ("nodes that list each other as bootstraps did not get connected in 300 s".into(), json!({"nodes": k})));
        return;
    };
    c.seen("shape", (k, extra, w));
    let name = |id: &PeerId| id.to_base58();
    let all: Vec<String> = nodes.iter().map(|n| name(&n.id)).chain(raws.iter().map(|x| name(&x.id))).collect();
    let ids_of: BTreeMap<String, Bytes> = nodes.iter().map(|n| &n.id).chain(raws.iter().map(|x| &x.id)).map(|i| (name(i), i.as_bytes().to_vec().into())).collect();
    // everybody says hello, so that sessions are known by their id
    let mut serial = 1000;
    let mut exp: Vec<Expected> = vec![];
    let others = |i: usize| -> Vec<String> { all.iter().enumerate().filter(|(j, _)| *j != i && (i == 0 || *j < k as usize)).map(|x| x.1.clone()).collect() };
    for (i, x) in nodes.iter().enumerate() {
        serial += 1;
        let data = payload(r, serial);
        let _ = x.handle.broadcast(Context::new(), GOSSIPS[0], Bytes::from(data.clone()), Priority::Normal).await;
        exp.push(Expected { what: "hello".into(), end: GOSSIPS[0].into(), from: all[i].clone(), data, least: others(i).len(), to: others(i), never: vec![] });
    }
    for x in &raws {
        serial += 1;
        let data = payload(r, serial);
        x.send(TRANSMITTER, &network_message(&[], GOSSIPS[0], &rlp(&data)));
        exp.push(Expected { what: "hello".into(), end: GOSSIPS[0].into(), from: name(&x.id), data, least: 1, to: vec![all[0].clone()], never: vec![] });
    }
    tokio::time::sleep(secs(30)).await;
    let sids: Vec<BTreeMap<String, usize>> = nodes.iter().map(|n| n.log.lock().unwrap().iter().map(|g| (name(&g.from), g.sid)).collect()).collect();
    let mut gossips: BTreeMap<(String, String), (u64, Vec<Vec<u8>>)> = BTreeMap::new();
    let ops = c.scale(60, 160);
    for _ in 0..ops {
        serial += 1;
        let i = r.below(nodes.len());
        let x = &nodes[i];
        let mut data = payload(r, serial);
        let end = *r.pick(&GOSSIPS);
        let b = Bytes::from(data.clone());
        let (from, p) = (all[i].clone(), prio(r));
        match r.below(12) {
            0 | 1 => {
                let ret = x.handle.broadcast(Context::new(), end, b, p).await;
                c.event("broadcasts");
                c.ensure(ret.is_ok(), "broadcast/failed", || (format!("a broadcast failed: {ret:?}"), json!({})));
                exp.push(Expected { what: "broadcast".into(), end: end.into(), from, data, least: others(i).len(), to: others(i), never: vec![] });
            }
            2 | 3 => {
                let mut to = others(i);
                r.shuffle(&mut to);
                to.truncate(r.below(to.len() + 1));
                let mut ids: Vec<Bytes> = to.iter().map(|t| ids_of[t].clone()).collect();
                if r.chance(1, 3) {
                    // one that nobody has ever seen
                    ids.push(key(900 + r.below(9) as u64).1.peer_id().into_bytes().into());
                    r.shuffle(&mut ids);
                }
                let bad = r.chance(1, 8);
                if bad {
                    let b = r.edge_bytes(40);
                    ids.push(b.into());
                    r.shuffle(&mut ids);
                }
                let ret = x.handle.multicast(Context::new(), end, ids, b, p).await;
                c.event(if bad { "multicasts to an impossible id" } else { "multicasts" });
                c.ensure(ret.is_ok() != bad, "multicast/result", || (format!("multicast ({}): {ret:?}", if bad { "impossible id" } else { "possible ids" }), json!({})));
                let never = all.iter().filter(|a| bad || !to.contains(a)).cloned().collect();
                let to = if bad { vec![] } else { to };
                exp.push(Expected { what: "multicast".into(), end: end.into(), from, data, least: to.len(), to, never });
            }
            4..=6 => {
                let origin = if r.bool() { sids[i].iter().nth(r.below(sids[i].len().max(1))).map(|(a, b)| (a.clone(), *b)) } else { None };
                let ret = x.handle.gossip(Context::new(), origin.as_ref().map(|o| o.1), end, b, p).await;
                c.event("gossips");
                c.ensure(ret.is_ok(), "gossip/failed", || (format!("a gossip failed: {ret:?}"), json!({})));
                let never: Vec<String> = origin.iter().map(|o| o.0.clone()).collect();
                let to: Vec<String> = others(i).into_iter().filter(|a| !never.contains(a)).collect();
                for t in &to {
                    let g = gossips.entry((from.clone(), t.clone())).or_default();
                    g.0 += 1;
                    g.1.push(data.clone());
                }
                let least = to.len() - (to.len() + 2) / 3;
                exp.push(Expected { what: format!("gossip, origin {}", origin.is_some()), end: end.into(), from, data, least, to, never });
            }
            7 => {
                // endpoints that are none
                let long = format!("/gossip/test/{}", "x".repeat(120));
                let e = *r.pick(&["", "/", "gossip/test/a", "/gossip", "/gossip/test", "/news/test/a", "/gossip/test/a/b/c", long.as_str()]);
                let ret = match r.below(3) {
                    0 => x.handle.broadcast(Context::new(), e, b, p).await,
                    1 => x.handle.gossip(Context::new(), None, e, b, p).await,
                    _ => x.handle.multicast(Context::new(), e, vec![Bytes::from(nodes[(i + 1) % nodes.len()].id.as_bytes().to_vec())], b, p).await,
                };
                c.event("impossible endpoints");
                c.ensure(ret.is_err(), "endpoint/accepted", || ("a message went to an impossible endpoint".into(), json!({"endpoint": e})));
                exp.push(Expected { what: format!("impossible endpoint {e:?}"), end: String::new(), from, data, least: 0, to: vec![], never: all.clone() });
            }
            8 => {
                // an endpoint nobody has a handler for
                let e = *r.pick(&["/gossip/test/b", "/gossip/tes/a", "/gossip/test/aa", "/gossip/a/test", "/gossip/Test/a"]);
                let ret = x.handle.broadcast(Context::new(), e, b, p).await;
                c.event("endpoints without a handler");
                c.ensure(ret.is_ok(), "broadcast/failed", || (format!("a broadcast failed: {ret:?}"), json!({})));
                let to: Vec<String> = others(i).into_iter().filter(|a| raws.iter().any(|x| name(&x.id) == *a)).collect();
                exp.push(Expected { what: "no handler".into(), end: e.into(), from, data, least: to.len(), to, never: nodes.iter().map(|n| name(&n.id)).collect() });
            }
            _ => {
                // by hand
                let x = r.pick(&raws);
                let (mut url, mut hit, mut content) = (end.to_string(), true, rlp(&data));
                let mut rid = None;
                match r.below(10) {
                    0 => url = format!("{end}/{}", r.pick(&["x", "12", "%2f"])),
                    1 => (url, hit) = (format!("{end}{}", r.pick(&["x", ".", " ", "\0"])), false),
                    2 => (url, hit) = (end[1..].to_string(), false),
                    3 => (url, hit) = (end.to_uppercase(), false),
                    4 => (url, hit) = (format!("{end}/a/b"), false),
                    5 | 6 => {
                        let id = r.edge_u64();
                        let call = CALLS[r.below(2)].0;
                        // these are not scripts for the callee
                        data[0] = 2;
                        content = rlp(&data);
                        rid = Some(id);
                        url = format!("{call}/{id}");
                    }
                    7 => {
                        let call = CALLS[r.below(2)].0;
                        hit = false;
                        url = format!("{call}{}", r.pick(&["", "/", "/x", "/-1", "/18446744073709551616", "/0x10", "/1/2", "/ 1"]));
                    }
                    8 => {
                        hit = false;
                        content = match r.below(3) {
                            0 => content[..content.len() - 1].to_vec(),
                            1 => vec![],
                            _ => vec![0xf8, 0xff, 1],
                        };
                    }
                    _ => (),
                }
                let (junk, span) = (r.edge_bytes(40), r.edge_bytes(12));
                let heads: Vec<(&str, &[u8])> = match r.below(4) {
                    0 => vec![("trace_id", b"0000000000000001000000000000000f".as_slice()), ("span_id", &[0, 0, 0, 0, 0, 0, 0, 9])],
                    1 => vec![("trace_id", &junk)],
                    2 => vec![("span_id", &span), ("trace_id", b"12"), ("other", &junk)],
                    _ => vec![],
                };
                let squeeze = r.bool();
                let mut m = network_message(&heads, &url, &content);
                if r.chance(1, 5) {
                    field(&mut m, 9, &junk);
                    num(&mut m, 12, 77);
                }
                x.put(TRANSMITTER, frame(&m, squeeze));
                c.event(if hit { "hand-made messages" } else { "hand-made messages for nobody" });
                c.seen("hand-made", (url.split('/').count(), hit, heads.len(), squeeze, rid.is_some()));
                let end = match rid {
                    Some(i) => format!("{}#{i}", url.rsplit_once('/').unwrap().0),
                    None => end.into(),
                };
                exp.push(Expected {
                    what: format!("hand-made {url:?}, headers {:?}", heads.iter().map(|h| (h.0, vlib::hex(h.1))).collect::<Vec<_>>()),
                    end,
                    from: name(&x.id),
                    data,
                    least: hit as usize,
                    to: if hit { vec![all[0].clone()] } else { vec![] },
                    never: if hit { all[1..].to_vec() } else { all.clone() },
                });
            }
        }
        if r.chance(1, 4) {
            tokio::time::sleep(Duration::from_millis(r.range(1, 3000))).await;
        }
    }
    tokio::time::sleep(secs(400)).await;
    // what came
    let mut came: Tally = BTreeMap::new();
    for x in &nodes {
        for g in x.log.lock().unwrap().iter() {
            let end = match g.rpc {
                Some(i) => format!("{}#{i}", g.end),
                None => g.end.into(),
            };
            *came.entry((name(&x.id), end, name(&g.from), g.data.to_vec())).or_default() += 1;
            c.event("messages at handlers");
        }
    }
    for x in &raws {
        for (url, content) in x.messages() {
            let data = unrlp(&content).map(|b| b.to_vec()).unwrap_or_default();
            *came.entry((name(&x.id), url, all[0].clone(), data)).or_default() += 1;
            c.event("messages at hand-made peers");
        }
    }
    let who = |a: &String| all.iter().position(|x| x == a).map(|i| if i < nodes.len() { format!("node {i}") } else { format!("hand-made {}", i - nodes.len()) }).unwrap_or_else(|| "stranger".into());
    for e in &exp {
        let mut got = vec![];
        for t in &e.to {
            let n = came.remove(&(t.clone(), e.end.clone(), e.from.clone(), e.data.clone())).unwrap_or(0);
            c.ensure(n <= 1, "route/twice", || (format!("a message ({}) came {n} times", e.what), json!({"to": who(t), "from": who(&e.from), "data": short(&e.data)})));
            if n > 0 {
                got.push(t);
            }
        }
        c.ensure(got.len() >= e.least, "route/lost", || {
            (
                format!("a message ({}) on {} reached {} of {}, at least {} have to get it", e.what, e.end, got.len(), e.to.len(), e.least),
                json!({"from": who(&e.from), "to": e.to.iter().map(who).collect::<Vec<_>>(), "data": short(&e.data), "episode": episode}),
            )
        });
        for t in &e.never {
            let stray: Vec<_> = came.keys().filter(|k| k.0 == *t && k.3 == e.data).map(|k| k.1.clone()).collect();
            c.ensure(stray.is_empty(), "route/astray", || {
                (format!("a message ({}) came to {} on {stray:?}", e.what, who(t)), json!({"from": who(&e.from), "data": short(&e.data)}))
            });
        }
        c.seen("kind", (e.what.split('/').next().map(str::to_string), e.to.len(), got.len()));
    }
    // gossip stays off a third of the peers at most, not the same ones for ever
    for ((f, t), (n, datas)) in &gossips {
        if *n >= 25 {
            let got = nodes.iter().filter(|x| name(&x.id) == *t).flat_map(|x| x.log.lock().unwrap().iter().map(|g| g.data.to_vec()).collect::<Vec<_>>()).filter(|d| datas.contains(d)).count();
            let hand = raws.iter().any(|x| name(&x.id) == *t);
            c.ensure(hand || got > 0, "gossip/starved", || (format!("{} sent {n} gossips and {} got none", who(f), who(t)), json!({})));
        }
    }
    if let Some((k, n)) = came.iter().next() {
        c.ensure(false, "route/unsent", || {
            (format!("{} got, {n} times, on {}, a message nobody sent it", who(&k.0), k.1), json!({"said to be from": who(&k.2), "data": short(&k.3), "all": came.len()}))
        });
    }
    c.event("oracle.judgements");
    crash(c, "routing");
}

/// no thread of the node may have panicked: that ends the process in production
pub fn crash(c: &mut Ctx, what: &str) {
    for (loc, msg, _) in vlib::PANICS.lock().unwrap().drain(..).collect::<Vec<_>>() {
        if vlib::in_tree(&loc) {
            let file = loc.split(':').next().unwrap_or("").to_string();
            c.ensure(false, &format!("panic/{file}"), || (format!("{what}: the node panicked at {loc}: {}", msg.chars().take(200).collect::<String>()), json!({})));
        }
    }
}

pub fn p61(c: &mut Ctx) {
    let n = c.scale(80, 2000);
    for _ in 0..n {
        if !c.within(0.9) {
            break;
        }
        c.event("episodes");
        let mut r = c.rng.fork();
        paused(calls(c, &mut r));
        ether::reset();
    }
}

#[derive(Clone, Debug)]
enum Hope {
    Ok(Vec<u8>),
    /// an error that says this
    Err(String),
    /// an error, of whatever kind
    Fail,
    Timeout,
}

async fn calls(c: &mut Ctx, r: &mut Rng) {
    run_clock(1_700_000_000_000);
    let w = r.below(3);
    weather(r, w);
    let k = r.range(2, 4);
    let Some((nodes, raws)) = mesh(c, k, 2).await else {
        c.ensure(false, "mesh", || ("nodes that list each other as bootstraps did not get connected in 300 s".into(), json!({"nodes": k})));
        return;
    };
    // sessions by peer
    let name = |id: &PeerId| id.to_base58();
    for x in &nodes {
        let _ = x.handle.broadcast(Context::new(), GOSSIPS[1], Bytes::from_static(b"hello"), Priority::Normal).await;
    }
    for x in &raws {
        x.send(TRANSMITTER, &network_message(&[], GOSSIPS[1], &rlp(b"hello")));
    }
    tokio::time::sleep(secs(30)).await;
    let sids: Vec<BTreeMap<String, usize>> = nodes.iter().map(|n| n.log.lock().unwrap().iter().map(|g| (name(&g.from), g.sid)).collect()).collect();
    for x in &nodes {
        x.log.lock().unwrap().clear();
    }
    for x in &raws {
        x.messages();
    }
    let mut serial = 0u64;
    let mut jobs = vec![];
    let mut asked: BTreeMap<(usize, String, Vec<u8>), u64> = BTreeMap::new();
    let (helpful, hostile) = (&raws[0], &raws[1]);
    // the hand-made callee answers by script too; the other one answers what it was never asked
    let (htx, hframes) = (helpful.tx.clone(), std::sync::Arc::clone(&helpful.frames));
    let answerer = tokio::spawn(async move {
        let put = |url: &str, content: &[u8]| drop(htx.send(tentacle::ether::Wire::Frame(TRANSMITTER.into(), frame(&network_message(&[], url, content), false).into())));
        loop {
            tokio::time::sleep(Duration::from_millis(10)).await;
            let got: Vec<_> = std::mem::take(&mut *hframes.lock().unwrap());
            for (_, f) in got.into_iter().filter(|x| x.0 == TRANSMITTER) {
                let v = parse(&f).unwrap_or_default();
                let url = String::from_utf8_lossy(&bytes_of(&v, 2)).into_owned();
                let Some((root, rid)) = url.strip_prefix("/rpc_call").and_then(|u| u.rsplit_once('/')) else { continue };
                let data = unrlp(&bytes_of(&v, 3)).unwrap_or_default();
                let back = format!("/rpc_resp{root}/{rid}");
                let n: u64 = rid.parse().unwrap();
                match data.first() {
                    Some(0) => {
                        put(&format!("/rpc_resp{root}/{}", n + 1000), &[vec![0], rlp(b"not yours")].concat());
                        put(&back, &[vec![0], rlp(&echo(&data))].concat())
                    }
                    Some(1) => put(&back, &[vec![1], b"no \xff way".to_vec()].concat()),
                    Some(2) => put(&format!("/rpc_resp/test/none/{rid}"), &[vec![0], rlp(b"elsewhere")].concat()),
                    Some(3) => {
                        put(&back, &[vec![0], rlp(&echo(&data))].concat());
                        put(&back, &[vec![0], rlp(b"again")].concat());
                    }
                    Some(4) => put(&back, &[0, 0xb8, 0xff]),
                    _ => put(&back, &[]),
                }
            }
        }
    });
    let (xtx, stop) = (hostile.tx.clone(), std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false)));
    let (stop2, mut xr) = (std::sync::Arc::clone(&stop), r.fork());
    let liar = tokio::spawn(async move {
        let mut n = 0u64;
        while !stop2.load(std::sync::atomic::Ordering::Relaxed) {
            tokio::time::sleep(Duration::from_millis(xr.range(5, 40))).await;
            for _ in 0..20 {
                let rid = if xr.chance(9, 10) { xr.range(0, 150) } else { xr.edge_u64() };
                let url = format!("{}/{rid}", CALLS[xr.below(2)].1);
                let content = if xr.bool() { [vec![0], rlp(b"a lie")].concat() } else { [vec![1], b"a lie".to_vec()].concat() };
                let _ = xtx.send(tentacle::ether::Wire::Frame(TRANSMITTER.into(), frame(&network_message(&[], &url, &content), false).into()));
                n += 1;
            }
        }
        n
    });
    let total = c.scale(60, 200);
    for _ in 0..total {
        serial += 1;
        let i = r.below(nodes.len());
        // the hand-made peers are on node 0 only
        let peers: Vec<(&String, &usize)> = sids[i].iter().filter(|(a, _)| **a != name(&hostile.id) || r.chance(1, 10)).collect();
        let (to, sid) = *r.pick(&peers);
        let which = r.below(2);
        let deed = DEEDS[r.below(6)];
        let late = r.below(40) as u8;
        let mut data = vec![deed as u8, late];
        data.extend(serial.to_be_bytes());
        data.extend(r.edge_bytes(60));
        let by_node = nodes.iter().any(|n| name(&n.id) == *to);
        let mut end = CALLS[which].0;
        let mut ctx = Context::new().set_session_id(SessionId::new(*sid));
        let mut sent = true;
        let mut hope = if *to == name(&hostile.id) {
            sent = false;
            // it lies to whom it likes when asked itself: any answer but a long silence or its own lies will do
            Hope::Fail
        } else {
            match (by_node, deed) {
                (_, Deed::Echo) | (_, Deed::Twice) => Hope::Ok(echo(&data)),
                (true, Deed::Fail) => Hope::Err(format!("no: {}", vlib::hex(&data))),
                (false, Deed::Fail) => Hope::Err("no \u{fffd} way".into()),
                (true, Deed::Empty) => Hope::Ok(vec![]),
                (_, Deed::Silent) => Hope::Timeout,
                (true, Deed::Late) => Hope::Timeout,
                (false, _) => Hope::Fail,
            }
        };
        let kind = r.below(20);
        match kind {
            0 => {
                // no such session
                ctx = Context::new().set_session_id(SessionId::new(7777));
                (hope, sent) = (Hope::Timeout, false);
            }
            1 => {
                ctx = Context::new();
                (hope, sent) = (Hope::Fail, false);
            }
            2 => {
                // not an endpoint anybody answers on
                end = "/rpc_call/test/nobody";
                sent = false;
                hope = if by_node {
                    Hope::Timeout
                } else {
                    match deed {
                        Deed::Echo | Deed::Twice | Deed::Fail | Deed::Late | Deed::Empty | Deed::Silent => Hope::Timeout,
                    }
                };
            }
            3 => {
                end = *r.pick(&["", "/rpc_call", "/call/test/x", "rpc_call/test/x"]);
                (hope, sent) = (Hope::Fail, false);
            }
            _ => (),
        }
        if sent && by_node {
            let t = nodes.iter().position(|n| name(&n.id) == *to).unwrap();
            *asked.entry((t, format!("{end}|{}", name(&nodes[i].id)), data.clone())).or_default() += 1;
        }
        let h = nodes[i].handle.clone();
        let (b, p, wait) = (Bytes::from(data.clone()), prio(r), Duration::from_millis(r.range(0, 4000)));
        let lies = *to == name(&hostile.id);
        jobs.push(async move {
            tokio::time::sleep(wait).await;
            let t0 = tokio::time::Instant::now();
            let ret: ProtocolResult<Bytes> = h.call(ctx, end, b, p).await;
            (deed, kind, by_node, lies, hope, data, ret.map_err(|e| e.to_string()), t0.elapsed())
        });
    }
    let done = futures::future::join_all(jobs).await;
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let lies = liar.await.unwrap();
    answerer.abort();
    c.add("answers nobody asked for", lies);
    for (deed, kind, by_node, lied, hope, data, ret, took) in done {
        c.event("calls");
        let slow = took >= secs(10) && took <= Duration::from_millis(10_050);
        let gave_up = ret.is_err() && slow;
        let ok = match &hope {
            _ if lied => true,
            Hope::Ok(v) => matches!(&ret, Ok(b) if b.as_ref() == v.as_slice()) && took < secs(10) || (w == 2 && gave_up),
            Hope::Err(s) => matches!(&ret, Err(e) if e.contains(s.as_str())) || (w == 2 && gave_up),
            Hope::Fail => ret.is_err() && took <= Duration::from_millis(10_050),
            Hope::Timeout => gave_up,
        };
        let lie = ret.as_ref().map_or_else(|e| e.contains("a lie"), |b| b.as_ref() == b"a lie");
        c.ensure(lied || !lie, "call/forged", || ("a call was answered by a peer that had not been asked".into(), json!({"answer": format!("{ret:?}")})));
        c.ensure(ok, &format!("call/{}", ["node", "hand-made"][!by_node as usize]), || {
            (
                format!("a call ({deed:?}, kind {kind}) hoped for {hope:?}, got {:?} after {took:?}", ret.as_ref().map(|b| short(b))),
                json!({"request": short(&data), "weather": w}),
            )
        });
        c.seen("outcome", (deed, kind.min(4), by_node, ret.is_ok(), slow));
        c.event(match &ret {
            Ok(_) => "calls answered",
            Err(_) if slow => "calls given up",
            Err(_) => "calls refused",
        });
    }
    tokio::time::sleep(secs(60)).await;
    // every request reached its handler once, and nothing else did
    for (t, x) in nodes.iter().enumerate() {
        for g in x.log.lock().unwrap().iter() {
            let k = (t, format!("{}|{}", g.end, name(&g.from)), g.data.to_vec());
            let left = asked.get(&k).copied().unwrap_or(0);
            c.ensure(left > 0, "call/unasked", || (format!("a handler on {} got a request nobody made, or got it twice", g.end), json!({"data": short(&g.data)})));
            if left > 0 {
                asked.insert(k, left - 1);
            }
            c.event("requests at handlers");
        }
    }
    let lost = asked.values().filter(|n| **n > 0).count();
    c.ensure(lost == 0, "call/lost", || (format!("{lost} requests never reached the handler"), json!({})));
    crash(c, "calls");
}
