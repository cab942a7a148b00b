//! Who is let in and kept (P63), and what the handshake, ping and discovery protocols put up with (P64).
use crate::route::crash;
use crate::sim::*;
use core_network::PeerId;
use protocol::traits::{Context, Gossip, Network, PeerTag, Priority};
use protocol::types::Bytes;
use serde_json::json;
use std::collections::BTreeSet;
use std::time::Duration;
use tentacle::ether;
use tentacle::multiaddr::Multiaddr;
use vlib::{Ctx, Rng};

/// inbound connections a node takes, as its default configuration has it
const INBOUND: usize = 20;

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
async fn settle(n: u64) {
    tokio::time::sleep(ms(n)).await
}
fn count(n: &Node) -> usize {
    n.handle.peer_count(Context::new()).unwrap()
}
fn id_bytes(id: &PeerId) -> Bytes {
    id.as_bytes().to_vec().into()
}
fn alone(c: &Ctx, n: u64, bootstraps: Vec<Multiaddr>, max: Option<usize>) -> Node {
    let d = dir(c, n);
    let _ = std::fs::remove_dir_all(&d);
    node(Setup { n, bootstraps, chain: 7, dir: d, max })
}

pub fn p63(c: &mut Ctx) {
    let n = c.scale(150, 4000);
    for e in 0..n {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        c.event("episodes");
        paused(async {
            run_clock(1_700_000_000_000);
            let w = r.below(2);
            weather(&mut r, w);
            match e % 3 {
                0 => inbound(c, &mut r).await,
                1 => outbound(c, &mut r).await,
                _ => bans(c, &mut r).await,
            }
            crash(c, "connections");
        });
        ether::reset();
    }
}

struct Guest {
    raw: Raw,
    n: u64,
    host: u64,
    inside: bool,
}

/// peers come, go, misbehave and come again
async fn inbound(c: &mut Ctx, r: &mut Rng) {
    let max = r.range(21, 24) as usize;
    let boots: Vec<u64> = (0..r.range(0, 2)).map(|i| 300 + i).collect();
    let boot_addrs = boots.iter().map(|n| with_id(addr(*n, 4000), &key(*n).1.peer_id())).collect();
    let x = alone(c, 0, boot_addrs, Some(max));
    settle(2000).await;
    let mut guests: Vec<Guest> = vec![];
    let mut banned: Vec<(u64, tokio::time::Instant)> = vec![];
    let mut validators: BTreeSet<u64> = BTreeSet::new();
    let mut next = 100;
    let crowd = r.range(15, 22);
    let steps = r.range(40, 90);
    for step in 0..steps {
        let now = tokio::time::Instant::now();
        let act = if step < crowd { 0 } else { r.below(10) };
        match act {
            0..=4 => {
                // a newcomer, a returning one, a bootstrap
                let n = match r.below(8) {
                    0 if !boots.is_empty() => *r.pick(&boots),
                    1 | 2 if next > 101 => r.range(100, next - 1),
                    _ => {
                        next += 1;
                        next - 1
                    }
                };
                if guests.iter().any(|g| g.n == n && g.inside) {
                    continue;
                }
                // several peers may share a host
                let home = if r.chance(1, 5) { 100 + n % 7 } else { n };
                let shut = banned.iter().any(|(h, until)| *h == home && *until > now);
                if banned.iter().any(|(h, until)| *h == home && (*until > now) != (*until > now + ms(3000))) {
                    continue; // too close to call
                }
                let open = guests.iter().filter(|g| g.inside).count();
                let vip = boots.contains(&n) || validators.contains(&n);
                let want = open < max && (vip || open < INBOUND && !shut);
                let (_, kp) = key(n);
                let Some((_, tx, rx)) = ether::connect(kp.public_key(), addr(home, 4000 + n as u16), x.sock) else {
                    c.ensure(false, "deaf", || ("the node no longer listens".into(), json!({})));
                    return;
                };
                let raw = Raw::on(kp.public_key(), addr(home, 4000 + n as u16), tx, rx);
                raw.open(IDENTIFY);
                settle(300).await;
                raw.identify("7", &[], None);
                raw.open(PING);
                raw.open(TRANSMITTER);
                raw.pong();
                settle(500).await;
                let got = !raw.is_closed();
                c.event(if got { "peers let in" } else { "peers kept out" });
                c.seen("arrival", (open, vip, shut, got));
                c.ensure(got == want, &format!("inbound/{}", if got { "let in" } else { "kept out" }), || {
                    (
                        format!("a peer was {}; {open} of {INBOUND} inbound and {open} of {max} connections taken, bootstrap or validator: {vip}, banned: {shut}", if got { "let in" } else { "kept out" }),
                        json!({"peer": n, "host": home}),
                    )
                });
                guests.push(Guest { raw, n, host: home, inside: got });
            }
            5 | 6 => {
                let open: Vec<usize> = (0..guests.len()).filter(|i| guests[*i].inside).collect();
                if !open.is_empty() {
                    let g = &mut guests[*r.pick(&open)];
                    g.raw.bye();
                    g.inside = false;
                    settle(500).await;
                    c.event("departures");
                }
            }
            7 | 8 => {
                // breaks the framing of a protocol: out, and not in again for five minutes
                let open: Vec<usize> = (0..guests.len()).filter(|i| guests[*i].inside).collect();
                if !open.is_empty() {
                    let i = *r.pick(&open);
                    let g = &mut guests[i];
                    let p = *r.pick(&[PING, IDENTIFY, TRANSMITTER]);
                    let wire = match r.below(5) {
                        0 => 0xf000_0000u32.to_be_bytes().to_vec(),
                        1 => raw_frame(&[0x80, 0xff, 0xff, 0xff, 0xff, 0x0f]),
                        2 => raw_frame(&[]),
                        3 => {
                            // far more than it says it holds
                            let mut b = vec![0x80];
                            varint(&mut b, 9_000_000 + r.below(1000) as u64);
                            b.extend([0u8; 30]);
                            raw_frame(&b)
                        }
                        _ => raw_frame(&[&[0x80, 0x20][..], &r.bytes(10)].concat()),
                    };
                    g.raw.put(p, wire);
                    settle(500).await;
                    let gone = g.raw.is_closed();
                    c.event("broken frames");
                    c.ensure(gone, "frame/kept", || ("a peer that broke the framing was not disconnected".into(), json!({"protocol": p})));
                    g.inside = false;
                    banned.push((g.host, tokio::time::Instant::now() + secs(300)));
                }
            }
            _ => {
                match r.below(3) {
                    0 => {
                        let ids: Vec<u64> = (0..r.below(4)).map(|_| r.range(100, next + 3)).collect();
                        x.handle.tag_consensus(Context::new(), ids.iter().map(|n| id_bytes(&key(*n).1.peer_id())).collect()).unwrap();
                        validators = ids.into_iter().collect();
                        c.event("validator sets");
                    }
                    1 => {
                        let n = r.range(100, next + 3);
                        x.handle.tag(Context::new(), id_bytes(&key(n).1.peer_id()), PeerTag::Consensus).unwrap();
                        validators.insert(n);
                    }
                    _ => {
                        let n = r.range(100, next + 3);
                        x.handle.untag(Context::new(), id_bytes(&key(n).1.peer_id()), &PeerTag::Consensus).unwrap();
                        validators.remove(&n);
                    }
                }
            }
        }
        if r.chance(1, 6) {
            settle(r.range(1, 200) * 1000).await;
        }
        // nobody is thrown out without cause, and the node counts right
        for g in guests.iter_mut().filter(|g| g.inside) {
            let gone = g.raw.is_closed();
            c.ensure(!gone, "inbound/thrown out", || ("a peer that behaved was disconnected".into(), json!({"peer": g.n})));
            g.inside = !gone;
        }
        let open = guests.iter().filter(|g| g.inside).count();
        let n = count(&x);
        c.ensure(n == open, "count", || (format!("the node counts {n} peers, {open} are connected"), json!({})));
    }
}

/// a node that has learnt of many addresses
async fn outbound(c: &mut Ctx, r: &mut Rng) {
    let max = INBOUND + r.range(2, 5) as usize;
    let slots = max - INBOUND;
    let hosts: Vec<Host> = (0..r.range(8, 14)).map(|i| host(400 + i, addr(400 + i, 4000), "7")).collect();
    // addresses nobody should dial: not of the public network
    let odd: Vec<Host> = ["10.1.2.3", "127.0.0.1", "192.168.4.4", "169.254.1.1", "172.16.9.9"]
        .iter()
        .enumerate()
        .map(|(i, a)| host(450 + i as u64, format!("/ip4/{a}/tcp/4000").parse().unwrap(), "7"))
        .collect();
    let x = alone(c, 0, vec![], Some(max));
    settle(2000).await;
    // inbound slots may be taken or not: outbound connections are made all the same
    let full = r.bool();
    let mut raws = vec![];
    for i in 0..if full { INBOUND as u64 } else { 2 } {
        match Raw::join(500 + i, x.sock, "7").await {
            Some(raw) => raws.push(raw),
            None => return,
        }
    }
    settle(1000).await;
    let mut m = vec![];
    let items: Vec<Vec<u8>> = hosts.iter().chain(&odd).map(|h| pb(&[(1, &h.addr.to_vec())])).collect();
    for i in &items {
        field(&mut m, 2, i);
    }
    raws[0].send(DISCOVERY, &pb(&[(2, &m)]));
    let mut most = 0;
    for t in 0..600 {
        settle(1000).await;
        let live: usize = hosts.iter().map(|h| h.live()).sum();
        most = most.max(live);
        c.ensure(live <= slots, "outbound/limit", || (format!("{live} outbound connections, {slots} are allowed"), json!({"second": t, "full": full})));
        let inside = raws.iter().filter(|r| !r.is_closed()).count();
        c.ensure(inside == raws.len(), "inbound/thrown out", || (format!("{} of {} well-behaved peers were disconnected", raws.len() - inside, raws.len()), json!({"second": t})));
        if r.chance(1, 60) {
            // a peer leaves; another has to take its place
            if let Some(s) = hosts.iter().flat_map(|h| h.got.lock().unwrap().clone()).find(|s| !s.is_closed() && s.has(TRANSMITTER)) {
                s.bye();
                c.event("outbound departures");
            }
        }
    }
    let live: usize = hosts.iter().map(|h| h.live()).sum();
    let felt: usize = hosts.iter().map(|h| h.felt()).sum();
    c.add("outbound dials", hosts.iter().map(|h| h.dials() as u64).sum());
    c.add("feeler connections", felt as u64);
    c.seen("outbound", (slots, full, most, felt.min(20)));
    c.ensure(felt > 0, "outbound/feeler", || ("discovered addresses were never tried".into(), json!({"full": full})));
    c.ensure(most == slots, "outbound/missing", || {
        (format!("at most {most} outbound connections in ten minutes, with {slots} allowed and {} reachable peers known", hosts.len()), json!({"inbound slots taken": full, "now": live}))
    });
    let strange: Vec<_> = odd.iter().filter(|h| h.dials() > 0).map(|h| h.addr.to_string()).collect();
    c.ensure(strange.is_empty(), "outbound/private", || (format!("{strange:?}, announced by a peer, were dialed"), json!({})));
}

/// a ban by the node's own modules
async fn bans(c: &mut Ctx, r: &mut Rng) {
    let x = alone(c, 0, vec![], None);
    settle(2000).await;
    let mut peers = vec![];
    for i in 0..r.range(3, 8) {
        match Raw::join(600 + i, x.sock, "7").await {
            Some(raw) => peers.push(raw),
            None => return,
        }
    }
    settle(1000).await;
    let victim = r.below(peers.len());
    let t = *r.pick(&[5_000u64, 60_000, 600_000]);
    let strange = r.chance(1, 6);
    let id = if strange { key(999).1.peer_id() } else { peers[victim].id.clone() };
    x.handle.tag(Context::new(), id_bytes(&id), PeerTag::ban(t)).unwrap();
    settle(1000).await;
    for (i, p) in peers.iter().enumerate() {
        let want = i == victim && !strange;
        c.ensure(p.is_closed() == want, "ban/connection", || {
            (format!("a peer that {} is {}", if want { "was banned" } else { "was not banned" }, if want { "still connected" } else { "disconnected" }), json!({"ban of a stranger": strange}))
        });
    }
    c.event("bans");
    if strange {
        return;
    }
    let n = 600 + victim as u64;
    let vip = r.chance(1, 3);
    if vip {
        x.handle.tag(Context::new(), id_bytes(&id), PeerTag::Consensus).unwrap();
    }
    // comes back during the ban, as itself or as another from the same host, and afterwards
    for late in [false, true] {
        let at = if late { t + 2000 } else { r.range(0, t.saturating_sub(3000)) };
        let gone = 1000 * !late as u64;
        settle(if late { at } else { at.saturating_sub(gone) }).await;
        let who = if r.bool() { n } else { n + 50 };
        let (_, kp) = key(who);
        let Some((_, tx, rx)) = ether::connect(kp.public_key(), addr(n, 4100), x.sock) else { return };
        let raw = Raw::on(kp.public_key(), addr(n, 4100), tx, rx);
        raw.open(IDENTIFY);
        settle(300).await;
        raw.identify("7", &[], None);
        raw.pong();
        settle(700).await;
        let want = late || vip && who == n;
        let got = !raw.is_closed();
        c.seen("ban", (t, late, vip, who == n, got));
        c.ensure(got == want, if got { "ban/let in" } else { "ban/kept out" }, || {
            (format!("{} the ban, a peer of the host was {}; a validator: {}", if late { "after" } else { "during" }, if got { "let in" } else { "kept out" }, vip && who == n), json!({"ban ms": t, "after ms": at}))
        });
        raw.bye();
        settle(500).await;
    }
}

pub fn p64(c: &mut Ctx) {
    let n = c.scale(200, 6000);
    for e in 0..n {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        c.event("episodes");
        paused(async {
            run_clock(1_700_000_000_000);
            let w = r.below(2);
            weather(&mut r, w);
            match e % 4 {
                0 => manners(c, &mut r).await,
                1 => strangers(c, &mut r).await,
                2 => gather(c, &mut r).await,
                _ => noise(c, &mut r).await,
            }
            crash(c, "handshakes");
        });
        ether::reset();
    }
}

/// Each peer does one thing; the node keeps it or not.
async fn manners(c: &mut Ctx, r: &mut Rng) {
    let x = alone(c, 0, vec![], None);
    settle(2000).await;
    let mut peers = vec![];
    for i in 0..INBOUND as u64 {
        let what = r.below(24);
        let Some(p) = Raw::connect(700 + i, 4000, x.sock) else { return };
        p.open(IDENTIFY);
        settle(150).await;
        let good = |p: &Raw| p.identify("7", &[], None);
        // what it did, whether it is to be kept, and by when it is to be gone
        let many = |n: u64| -> Vec<Multiaddr> { (0..n).map(|k| with_id(addr(2000 + k, 4), &key(2000 + k).1.peer_id())).collect() };
        let node_of = |n: u64| pb(&[(1, &addr(3000 + n, 4).to_vec())]);
        let nodes = |announce: bool, items: &[Vec<u8>]| {
            let mut m = vec![];
            if announce {
                num(&mut m, 1, 1);
            }
            for i in items {
                field(&mut m, 2, i);
            }
            pb(&[(2, &m)])
        };
        let get = |n: u64| {
            let mut m = vec![];
            num(&mut m, 2, n);
            pb(&[(1, &m)])
        };
        let up = |p: &Raw| {
            good(p);
            for q in [PING, DISCOVERY, TRANSMITTER] {
                p.open(q);
            }
        };
        let (act, keep): (&str, bool) = match what {
            0 => ("says nothing", false),
            1 => {
                p.identify(*r.pick(&["8", "", "77", "07", " 7", "0x7"]), &[], None);
                ("is of another chain", false)
            }
            2 => {
                good(&p);
                settle(100).await;
                good(&p);
                ("identifies itself twice", false)
            }
            3 => {
                p.identify("7", &many(11), None);
                ("has eleven addresses", false)
            }
            4 => {
                p.identify("7", &many(10), Some(&addr(0, 9)));
                ("has ten addresses", true)
            }
            5 => {
                p.send(IDENTIFY, &pb(&[(1, b"7")]));
                ("identifies itself without addresses", false)
            }
            6 => {
                let mut b = identity("7", &[], None);
                b.truncate(b.len() - 1 - r.below(b.len() - 1));
                b.push(0xff);
                p.send(IDENTIFY, &b);
                ("sends broken bytes for an identity", false)
            }
            7 => {
                let mut info = vec![];
                for _ in 0..9 {
                    field(&mut info, 1, &r.edge_bytes(20));
                }
                field(&mut info, 2, &r.edge_bytes(20));
                p.send(IDENTIFY, &pb(&[(1, b"7"), (2, &info)]));
                ("has addresses that are none", true)
            }
            8 | 9 => {
                up(&p);
                ("behaves", true)
            }
            10 => {
                up(&p);
                settle(100).await;
                p.send(PING, &ping_msg(2, r.range(1_000_000, 1 << 31)));
                ("answers a ping it did not get", false)
            }
            11 => {
                up(&p);
                ("does not answer pings", false)
            }
            12 => {
                up(&p);
                settle(100).await;
                let n = r.edge_u64() as u32 as u64;
                p.send(PING, &ping_msg(1, n));
                settle(300).await;
                let all: Vec<_> = p.take(PING).iter().filter_map(|f| ping_of(f)).collect();
                let back: Vec<_> = all.iter().filter(|x| x.0 == 2).map(|x| x.1).collect();
                for (_, n) in all.iter().filter(|x| x.0 == 1) {
                    p.send(PING, &ping_msg(2, *n));
                }
                c.event("pings answered");
                c.ensure(back == [n] || n == 0 && back.len() <= 1, "ping/answer", || (format!("a ping {n} was answered with {back:?}"), json!({})));
                ("pings", true)
            }
            13 => {
                up(&p);
                settle(100).await;
                p.send(DISCOVERY, &get(5));
                p.send(DISCOVERY, &get(5));
                ("asks for addresses twice", false)
            }
            14 => {
                up(&p);
                settle(100).await;
                let n = r.range(0, 20);
                p.send(DISCOVERY, &get(n));
                settle(500).await;
                let back = p.take(DISCOVERY);
                let items: Vec<usize> = back
                    .iter()
                    .filter_map(|f| parse(f))
                    .map(|v| parse(&bytes_of(&v, 2)).unwrap_or_default().iter().filter(|x| x.0 == 2).count())
                    .collect();
                c.event("addresses asked for");
                c.ensure(items.len() <= 1 && items.iter().all(|k| *k as u64 <= n), "discovery/answer", || (format!("asked for {n} addresses, got {items:?}"), json!({})));
                ("asks for addresses", true)
            }
            15 => {
                up(&p);
                settle(100).await;
                let one = vec![node_of(1)];
                p.send(DISCOVERY, &nodes(false, &one));
                p.send(DISCOVERY, &nodes(false, &one));
                ("sends its addresses twice", false)
            }
            16 => {
                up(&p);
                settle(100).await;
                let items: Vec<_> = (0..1001).map(node_of).collect();
                p.send(DISCOVERY, &nodes(false, &items));
                ("sends a thousand and one addresses", false)
            }
            17 => {
                up(&p);
                settle(100).await;
                let items: Vec<_> = (0..11).map(node_of).collect();
                p.send(DISCOVERY, &nodes(true, &items));
                ("announces eleven addresses", false)
            }
            18 => {
                up(&p);
                settle(100).await;
                let a: Vec<u8> = addr(1, 1).to_vec();
                let four = pb(&[(1, &a), (1, &a), (1, &a), (1, &a)]);
                let announce = r.bool();
                p.send(DISCOVERY, &nodes(announce, &[node_of(1), four]));
                ("sends four addresses for one peer", false)
            }
            19 => {
                up(&p);
                settle(100).await;
                let items: Vec<_> = (0..10).map(node_of).collect();
                p.send(DISCOVERY, &nodes(false, &items));
                p.send(DISCOVERY, &nodes(true, &items));
                p.send(DISCOVERY, &nodes(true, &items));
                ("sends addresses", true)
            }
            20 => {
                up(&p);
                settle(100).await;
                p.send(DISCOVERY, &[0x0a, 0xff]);
                ("sends broken bytes for addresses", false)
            }
            21 => {
                up(&p);
                settle(100).await;
                p.send(DISCOVERY, &[]);
                p.send(PING, &[]);
                p.send(PING, &[0xff, 0xff]);
                p.send(TRANSMITTER, &[]);
                p.send(TRANSMITTER, &[0x0a, 0xff]);
                ("sends empty messages", true)
            }
            22 => {
                // late, but in time
                settle(5000).await;
                up(&p);
                ("takes its time", true)
            }
            _ => {
                up(&p);
                settle(100).await;
                p.send(7, b"what protocol is this");
                ("uses an unknown protocol", true)
            }
        };
        if what != 11 && what != 0 {
            p.pong();
        }
        peers.push((p, act, keep));
    }
    let mut left = BTreeSet::new();
    for i in 0..100u64 {
        settle(1000).await;
        for (k, (p, act, keep)) in peers.iter().enumerate() {
            if p.is_closed() && left.insert(k) {
                c.event("peers dropped");
                c.ensure(!*keep, "manners/dropped", || (format!("a peer that {act} was dropped"), json!({"seconds": i})));
            }
            // pings go out every 15 s and are due within 30 s, which is looked at every 30 s
            let due = match *act {
                "does not answer pings" => 80,
                "says nothing" => 12,
                _ => 2,
            };
            if i == due && !*keep {
                c.seen("manner", (*act, p.is_closed()));
                c.ensure(p.is_closed(), "manners/kept", || (format!("a peer that {act} is still connected after {i} s"), json!({})));
            }
        }
    }
    for (p, act, keep) in &peers {
        if *keep {
            c.seen("manner", (*act, p.is_closed()));
            c.event("peers kept");
        }
    }
    let n = count(&x);
    let open = peers.iter().filter(|p| !p.0.is_closed()).count();
    c.ensure(n == open, "count", || (format!("the node counts {n} peers, {open} are connected"), json!({})));
}

/// A node dials peers of other chains, and ones that are not who they should be.
async fn strangers(c: &mut Ctx, r: &mut Rng) {
    let (k, bad) = (r.range(1, 5), r.range(1, 5));
    let good: Vec<Host> = (0..k).map(|i| host(800 + i, addr(800 + i, 4000), "7")).collect();
    let other: Vec<Host> = (0..bad).map(|i| host(820 + i, addr(820 + i, 4000), ["8", "", "77", "7 "][i as usize % 4])).collect();
    let wrong = host(840, addr(840, 4000), "7");
    let lie = with_id(addr(840, 4000), &key(841).1.peer_id());
    let mut boots: Vec<Multiaddr> = good.iter().chain(&other).map(|h| h.addr.clone()).chain([lie]).collect();
    r.shuffle(&mut boots);
    let x = alone(c, 0, boots, None);
    let mut sent = 0u64;
    for _ in 0..60 {
        settle(1000).await;
        sent += 1;
        let b = Bytes::from(sent.to_be_bytes().to_vec());
        x.handle.broadcast(Context::new(), GOSSIPS[0], b, Priority::Normal).await.unwrap();
        for h in other.iter().chain([&wrong]) {
            let s = h.got.lock().unwrap().clone();
            let open = s.iter().any(|s| s.has(TRANSMITTER) || s.has(DISCOVERY));
            c.ensure(!open, "stranger/opened", || ("the node opened its protocols to a peer of another chain, or of another name".into(), json!({"peer": h.addr.to_string()})));
            let lasting = s.iter().filter(|s| !s.is_closed()).count();
            c.seen("stranger", (s.len().min(5), lasting));
        }
    }
    for h in &good {
        let got: usize = h.got.lock().unwrap().iter().map(|s| s.messages().len()).sum();
        c.event("bootstraps reached");
        c.ensure(h.live() == 1 && got > 40, "bootstrap/missed", || (format!("a bootstrap has {} connections with the node and got {got} of its {sent} messages", h.live()), json!({})));
    }
    // what its peers see it at is verified by dialing it
    let own = ether::self_dials();
    c.seen("observed", own.len().min(9));
    c.ensure(own.iter().any(|(i, at)| *i == x.id && *at == x.sock), "observed/not verified", || {
        (format!("{k} peers told the node the address they see it at, and it did not dial it"), json!({"dialed": own.len()}))
    });
    for h in &other {
        c.event("strangers dialed");
        c.ensure(h.live() == 0, "stranger/kept", || ("a peer of another chain is still connected".into(), json!({})));
    }
    let n = count(&x);
    c.ensure(n <= good.len() + other.len() && n >= good.len(), "count", || (format!("the node counts {n} peers, {} are of its chain", good.len()), json!({})));
}

/// Nodes that know one bootstrap each find each other.
async fn gather(c: &mut Ctx, r: &mut Rng) {
    let k = r.range(3, 7);
    let star = r.bool();
    let mut nodes: Vec<Node> = vec![];
    for n in 0..k {
        let boots = match nodes.len() {
            0 => vec![],
            m => vec![nodes[if star { 0 } else { r.below(m) }].addr.clone()],
        };
        nodes.push(alone(c, n, boots, None));
        settle(r.range(0, 3000)).await;
    }
    let mut t = 0;
    let mut seen = 0;
    while t < 1800 {
        settle(5000).await;
        t += 5;
        seen = nodes.iter().map(count).sum();
        if seen as u64 == k * (k - 1) {
            break;
        }
    }
    c.event("gatherings");
    c.add("gathering seconds", t);
    c.seen("gathered", (k, star, t / 60));
    c.ensure(seen as u64 == k * (k - 1), "gather", || (format!("after {t} s, {seen} of {} connections among {k} nodes", k * (k - 1)), json!({"star": star})));
    // and stay together
    settle(300_000).await;
    let seen: usize = nodes.iter().map(count).sum();
    c.ensure(seen as u64 == k * (k - 1), "gather/apart", || (format!("five minutes on, {seen} of {} connections among {k} nodes", k * (k - 1)), json!({"star": star})));
}

/// Bytes of all kinds on all protocols, with a good peer looking on.
async fn noise(c: &mut Ctx, r: &mut Rng) {
    let x = alone(c, 0, vec![], None);
    settle(2000).await;
    let Some(good) = Raw::join(900, x.sock, "7").await else { return };
    let seeds: Vec<(usize, Vec<u8>)> = vec![
        (PING, ping_msg(1, 77)),
        (PING, ping_msg(2, 0)),
        (IDENTIFY, identity("7", &[addr(5, 5), with_id(addr(6, 6), &key(6).1.peer_id())], Some(&addr(7, 7)))),
        (DISCOVERY, {
            let mut m = vec![];
            num(&mut m, 1, 1);
            num(&mut m, 2, 1000);
            num(&mut m, 3, 4000);
            pb(&[(1, &m)])
        }),
        (DISCOVERY, pb(&[(2, &pb(&[(2, &pb(&[(1, &addr(8, 8).to_vec()), (1, &with_id(addr(9, 9), &key(9).1.peer_id()).to_vec())]))]))])),
        (TRANSMITTER, network_message(&[("trace_id", b"1f"), ("span_id", &[1; 8])], GOSSIPS[0], &rlp(b"noise"))),
        (TRANSMITTER, network_message(&[], "/rpc_call/test/x/5", &rlp(&[2, 0, 1]))),
        (TRANSMITTER, network_message(&[], "/rpc_resp/test/x/5", &[&[0u8][..], &rlp(b"x")].concat())),
    ];
    let mut n = 910;
    let rounds = c.scale(12, 25);
    for _ in 0..rounds {
        n += 1;
        let Some(p) = Raw::connect(n, 4000, x.sock) else { return };
        for q in [IDENTIFY, PING, DISCOVERY, TRANSMITTER, FEELER] {
            if q != FEELER || r.chance(1, 8) {
                p.open(q);
            }
        }
        if r.chance(3, 4) {
            settle(150).await;
            p.identify("7", &[], None);
        }
        settle(200).await;
        for _ in 0..r.range(1, 25) {
            let (mut q, mut b) = r.pick(&seeds).clone();
            for _ in 0..r.below(4) {
                mutate(r, &mut b);
            }
            if r.chance(1, 20) {
                q = r.below(8);
            }
            let wire = match r.below(20) {
                0 => r.edge_bytes(40),
                1 => raw_frame(&[&[0x80][..], &b].concat()),
                2..=6 => frame(&b, true),
                _ => frame(&b, false),
            };
            p.put(q, wire);
            c.event("noise");
            c.seen("noise", (q, b.len()));
            if p.is_closed() {
                break;
            }
            settle(r.range(0, 60)).await;
        }
        if r.bool() {
            p.bye();
        }
    }
    settle(40_000).await;
    // life goes on
    good.take(TRANSMITTER);
    x.handle.broadcast(Context::new(), GOSSIPS[1], Bytes::from_static(b"still here"), Priority::Normal).await.unwrap();
    good.send(PING, &ping_msg(1, 4242));
    good.send(TRANSMITTER, &network_message(&[], GOSSIPS[2], &rlp(b"me too")));
    settle(100).await;
    settle(1000).await;
    let got = good.messages().iter().any(|m| m.0 == GOSSIPS[1]);
    let heard = x.log.lock().unwrap().iter().any(|g| g.end == GOSSIPS[2] && g.from == good.id && g.data == Bytes::from_static(b"me too"));
    let pong = good.take(PING).iter().filter_map(|f| ping_of(f)).any(|p| p == (2, 4242));
    c.event("nodes alive after noise");
    c.ensure(!good.is_closed() && got && heard && pong, "noise/dead", || {
        (format!("after noise from others, a good peer: connected {}, hears {got}, is heard {heard}, gets pongs {pong}", !good.is_closed()), json!({}))
    });
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len();
    match r.below(8) {
        0 if n > 0 => {
            let i = r.below(n);
            b[i] ^= 1 << r.below(8);
        }
        1 if n > 0 => {
            let i = r.below(n);
            b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
        }
        2 => b.truncate(r.below(n + 1)),
        3 => {
            let i = r.below(n + 1);
            let x = r.edge_bytes(6);
            b.splice(i..i, x);
        }
        4 if n > 1 => {
            let i = r.below(n);
            let j = i + r.below(n - i);
            let part = b[i..j].to_vec();
            b.extend(part);
        }
        5 if n > 0 => {
            let i = r.below(n);
            b.remove(i);
        }
        6 => b.extend(std::iter::repeat(0xff).take(r.below(12))),
        _ => {
            let x = r.edge_bytes(12);
            field(b, r.below(5) as u64, &x);
        }
    }
}
