//! What a node remembers of its peers (P62), against a model, under a clock of its own.
use crate::sim::*;
use core_network::peer_manager::{PeerInfo, PeerManager, PeerStore};
use core_network::{NetworkConfig, PeerId};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{IpAddr, SocketAddr};
use std::sync::Arc;
use tentacle::context::SessionContext;
use tentacle::multiaddr::Multiaddr;
use tentacle::service::SessionType;
use tentacle::utils::{extract_peer_id, multiaddr_to_socketaddr};
use tentacle::SessionId;
use vlib::{guard, Ctx, Rng};

const S: u64 = 1000;
const DAY: u64 = 24 * 3600 * S;
const LIMIT: usize = 16384;

#[derive(Clone, Debug)]
struct Rec {
    addr: Multiaddr,
    id: PeerId,
    connected: u64,
    tried: u64,
    attempts: u32,
}
impl Rec {
    /// as `AddrInfo` documents it
    fn worth(&self, now: u64) -> bool {
        if self.tried >= now.saturating_sub(60 * S) {
            return true;
        }
        !(self.connected == 0 && self.attempts >= 3 || now - self.connected > 7 * DAY && self.attempts >= 10)
    }
}

#[derive(Default)]
struct Model {
    recs: HashMap<SocketAddr, Rec>,
    bans: BTreeMap<String, (IpAddr, u8, u64)>,
    online: BTreeMap<Vec<u8>, (Multiaddr, usize)>,
    now: u64,
}
impl Model {
    fn banned(&self, ip: IpAddr) -> bool {
        self.bans.values().any(|(net, bits, until)| *until > self.now && inside(*net, *bits, ip))
    }
    fn add(&mut self, a: &Multiaddr, connected: u64) {
        let (Some(at), Some(id)) = (multiaddr_to_socketaddr(a), extract_peer_id(a)) else { return };
        if self.banned(at.ip()) || self.recs.get(&at).map_or(false, |r| connected <= r.connected) {
            return;
        }
        self.recs.insert(at, Rec { addr: a.clone(), id, connected, tried: 0, attempts: 0 });
    }
    fn is_online(&self, id: &PeerId) -> bool {
        self.online.contains_key(id.as_bytes())
    }
}
fn inside(net: IpAddr, bits: u8, ip: IpAddr) -> bool {
    match (net, ip) {
        (IpAddr::V4(a), IpAddr::V4(b)) => bits == 0 || u32::from(a) >> (32 - bits) == u32::from(b) >> (32 - bits),
        (IpAddr::V6(a), IpAddr::V6(b)) => bits == 0 || u128::from(a) >> (128 - bits) == u128::from(b) >> (128 - bits),
        _ => false,
    }
}

fn manager(c: &Ctx, boot: Vec<Multiaddr>) -> (PeerManager, std::path::PathBuf) {
    let d = c.scratch.join("store");
    let _ = std::fs::remove_dir_all(&d);
    let cfg = NetworkConfig::new().secio_keypair(&key(0).0).unwrap().bootstraps(boot).peer_store_dir(d.clone());
    (PeerManager::new(Arc::new(cfg)), d)
}
fn set(m: &mut Model, t: u64) {
    m.now = t;
    faketime::set_unix_time_as_millis(t);
}

pub fn p62(c: &mut Ctx) {
    let n = c.scale(200, 8000);
    for i in 0..n {
        if !c.within(0.8) {
            break;
        }
        let mut r = c.rng.fork();
        if let Err(p) = guard(|| history(c, &mut r, i)) {
            c.ensure(false, &format!("panic/{}", vlib::short_loc(&p.loc)), || (format!("the peer store panicked at {}: {}", p.loc, p.msg), json!({})));
        }
    }
    for i in 0..c.scale(3, 40) {
        if !c.within(0.95) {
            break;
        }
        let mut r = c.rng.fork();
        if let Err(p) = guard(|| crowd(c, &mut r, i)) {
            c.ensure(false, &format!("panic/{}", vlib::short_loc(&p.loc)), || (format!("the full peer store panicked at {}: {}", p.loc, p.msg), json!({})));
        }
    }
}

fn history(c: &mut Ctx, r: &mut Rng, no: u64) {
    c.event("histories");
    let (m, dir) = manager(c, vec![]);
    let mut mo = Model::default();
    set(&mut mo, 1_700_000_000_000);
    let wide = r.bool();
    let (ips, ports, ids) = if wide { (30, 2, 30) } else { (6, 3, 5) };
    let v6 = r.chance(1, 4);
    let host = |n: u64| if v6 && n % 3 == 0 { format!("/ip6/2a01:4f8:{n:x}::1") } else { format!("/ip4/{}", ip(n * 131)) };
    let some = |r: &mut Rng| -> Multiaddr {
        let (i, p, k) = (r.range(0, ips), r.range(1, ports + 1), r.range(1, ids + 1));
        let a: Multiaddr = format!("{}/tcp/{p}", host(i)).parse().unwrap();
        // mostly each peer at home
        let k = if r.chance(2, 3) { 1 + i % ids } else { k };
        with_id(a, &key(k).1.peer_id())
    };
    let mut sid = 1;
    let mut trace: Vec<Value> = vec![];
    let steps = r.range(40, 250);
    for _ in 0..steps {
        let a = some(r);
        let at = multiaddr_to_socketaddr(&a).unwrap();
        let op = r.below(22);
        trace.push(json!([op, a.to_string(), mo.now]));
        if trace.len() > 12 {
            trace.remove(0);
        }
        match op {
            0..=3 => {
                let a = if r.chance(1, 12) { format!("{}/tcp/9", host(3)).parse().unwrap() } else { a.clone() };
                let ret = m.with_peer_store_mut(|s| s.add_addr(a.clone()).is_ok());
                c.ensure(ret, "add/refused", || ("a store with room refused an address".into(), json!({"addr": a.to_string()})));
                mo.add(&a, 0);
                c.event("addresses discovered");
            }
            4 | 5 => {
                m.with_peer_store_mut(|s| s.add_outbound_addr(a.clone()));
                let t = mo.now;
                mo.add(&a, t);
                c.event("addresses reached");
            }
            6 | 7 => {
                let id = extract_peer_id(&a).unwrap();
                if !mo.is_online(&id) {
                    let ty = if r.bool() { SessionType::Inbound } else { SessionType::Outbound };
                    m.register(PeerInfo::new(Arc::new(SessionContext { id: SessionId::new(sid), address: a.clone(), ty, remote_pubkey: None })));
                    mo.online.insert(id.as_bytes().to_vec(), (a.clone(), sid));
                    sid += 1;
                    c.event("connections");
                }
            }
            8 => {
                if let Some((id, (addr, _))) = mo.online.iter().nth(r.below(mo.online.len().max(1))).map(|x| (x.0.clone(), x.1.clone())) {
                    m.unregister(&addr);
                    mo.online.remove(&id);
                    c.event("disconnections");
                }
            }
            9 | 10 => {
                let t = mo.now;
                let hit = m.with_peer_store_mut(|s| s.mut_addr_manager().get_mut(&a).map(|i| i.mark_tried(t)).is_some());
                let known = mo.recs.get_mut(&at).map(|x| (x.tried, x.attempts) = (t, x.attempts + 1)).is_some();
                c.ensure(hit == known, "get", || (format!("an address is {}known to the store, wrongly", if hit { "" } else { "not " }), json!({"addr": a.to_string(), "trace": trace})));
            }
            11 => {
                let t = mo.now;
                m.with_peer_store_mut(|s| s.mut_addr_manager().get_mut(&a).map(|i| i.mark_connected(t)));
                if let Some(x) = mo.recs.get_mut(&at) {
                    (x.connected, x.attempts) = (t, 0);
                }
            }
            12 | 13 => {
                let d = *r.pick(&[1, 14 * S, 16 * S, 59 * S, 61 * S, 3600 * S, 2 * DAY, 3 * DAY + 5, 7 * DAY + 7, 9 * DAY]);
                let t = mo.now + d;
                set(&mut mo, t);
            }
            14 => {
                // a ban, by peer or by session
                if let Some((_, (addr, s))) = mo.online.iter().nth(r.below(mo.online.len().max(1))).map(|x| (x.0.clone(), x.1.clone())) {
                    let t = *r.pick(&[0, 1, 300 * S, 3600 * S, 5 * DAY]);
                    let id = extract_peer_id(&addr).unwrap();
                    if r.bool() {
                        let ret = m.ban_id(&id, t, "test".into());
                        c.ensure(ret.map(|i| i.value()) == Some(s), "ban/session", || {
                            (format!("banning a connected peer did not name its session to be closed: {ret:?}, not {s}"), json!({}))
                        });
                    } else {
                        m.ban_session_id(SessionId::new(s), t, "test".into());
                    }
                    let at = multiaddr_to_socketaddr(&addr).unwrap();
                    mo.bans.insert(at.ip().to_string(), (at.ip(), if at.is_ipv4() { 32 } else { 128 }, mo.now + t));
                    mo.recs.remove(&at);
                    c.event("bans");
                }
            }
            15 => {
                // to disk and back
                m.with_peer_store(|s| s.dump_to_dir(&dir)).unwrap();
                if r.chance(1, 3) {
                    // a ban of a network, as an operator writes it into the file
                    let p = dir.join("ban_list.db");
                    let mut v: Vec<Value> = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
                    let bits = *r.pick(&[0u8, 8, 16, 24, 31, 32]);
                    let net: IpAddr = ip(r.range(0, ips) * 131).parse().unwrap();
                    let until = mo.now + *r.pick(&[300 * S, 5 * DAY]);
                    let bits = if bits == 0 && r.chance(3, 4) { 24 } else { bits };
                    let text = format!("{net}/{bits}");
                    v.retain(|x| x["address"] != json!(text));
                    v.push(json!({"address": text, "ban_until": until, "ban_reason": "", "created_at": mo.now}));
                    std::fs::write(&p, serde_json::to_vec(&v).unwrap()).unwrap();
                    let name = if bits == 32 { net.to_string() } else { text };
                    mo.bans.insert(name, (net, bits, until));
                    c.event("network bans");
                }
                let which = r.below(12);
                for (n, f) in ["addr_manager.db", "ban_list.db"].iter().enumerate() {
                    if which == n {
                        let p = dir.join(f);
                        let b = std::fs::read(&p).unwrap();
                        std::fs::write(&p, &b[..r.below(b.len().max(1))]).unwrap();
                        c.event("torn files");
                    }
                }
                let s = PeerStore::load_from_dir_or_default(&dir);
                // sessions end with the process
                for (_, (a, _)) in std::mem::take(&mut mo.online) {
                    m.unregister(&a);
                }
                match which {
                    0 => mo.recs.clear(),
                    1 => mo.bans.clear(),
                    _ => (),
                }
                m.with_peer_store_mut(|x| *x = s);
                c.event("restarts");
            }
            16 => fetched(c, &mut mo, &m, r, 0, &trace),
            17 => fetched(c, &mut mo, &m, r, 1, &trace),
            18 => fetched(c, &mut mo, &m, r, 2, &trace),
            _ => {
                let id = key(r.range(1, ids + 1)).1.peer_id();
                let got: BTreeSet<String> = m.with_peer_store(|s| s.fetch_addr_by_peer_id(&id)).iter().map(|a| a.to_string()).collect();
                let now = mo.now;
                let want: BTreeSet<String> = mo
                    .recs
                    .iter()
                    .filter(|(at, x)| x.id == id && x.worth(now) && x.connected > now - 3 * DAY && x.connected <= now - 15 * S && !mo.banned(at.ip()))
                    .map(|(_, x)| x.addr.to_string())
                    .collect();
                c.event("peers looked up");
                c.seen("looked up", want.len());
                c.ensure(got == want, "by peer id", || (format!("the addresses of a peer are {want:?}, the store gave {got:?}"), json!({"trace": trace})));
            }
        }
        // the books
        let n = m.with_peer_store(|s| s.addr_manager().count());
        c.ensure(n == mo.recs.len(), "count", || (format!("the store holds {n} addresses, {} expected", mo.recs.len()), json!({"history": no, "trace": trace})));
        let b = m.with_peer_store(|s| s.is_addr_banned(&a));
        c.ensure(b == mo.banned(at.ip()), "banned", || (format!("{at} is {}banned, wrongly", if b { "" } else { "not " }), json!({"trace": trace})));
        let p = m.with_peer_store(|s| s.peer_count());
        c.ensure(p == mo.online.len(), "online", || (format!("{p} peers online, {} expected", mo.online.len()), json!({"trace": trace})));
    }
    // every record as it should be
    let have: BTreeMap<SocketAddr, (String, u64, u64, u32)> = m.with_peer_store(|s| {
        s.addr_manager().addrs_iter().map(|i| (multiaddr_to_socketaddr(&i.addr).unwrap(), (i.addr.to_string(), i.last_connected_at_ms, i.last_tried_at_ms, i.attempts_count))).collect()
    });
    let want: BTreeMap<SocketAddr, (String, u64, u64, u32)> = mo.recs.iter().map(|(k, x)| (*k, (x.addr.to_string(), x.connected, x.tried, x.attempts))).collect();
    let odd: Vec<_> = want.iter().filter(|(k, v)| have.get(k) != Some(v)).take(3).map(|(k, v)| (k.to_string(), format!("{v:?}"), format!("{:?}", have.get(k)))).collect();
    c.ensure(odd.is_empty(), "records", || (format!("records differ: {odd:?}"), json!({})));
}

fn fetched(c: &mut Ctx, mo: &mut Model, m: &PeerManager, r: &mut Rng, kind: usize, trace: &[Value]) {
    let n = *r.pick(&[1, 2, 5, 100]);
    let now = mo.now;
    let got = m.with_peer_store_mut(|s| match kind {
        0 => s.fetch_addrs_to_attempt(n),
        1 => s.fetch_addrs_to_feeler(n),
        _ => s.fetch_random_addrs(n),
    });
    let name = ["attempt", "feeler", "random"][kind];
    let fit = |x: &Rec, at: &SocketAddr| {
        x.worth(now)
            && !mo.banned(at.ip())
            && match kind {
                0 => !mo.is_online(&x.id) && x.connected > now - 3 * DAY && x.connected <= now - 15 * S,
                1 => !mo.is_online(&x.id) && x.tried < now - 60 * S && x.connected <= now - 3 * DAY,
                _ => mo.is_online(&x.id) || x.connected > now - 7 * DAY,
            }
    };
    c.event(&format!("fetches: {name}"));
    c.seen("fetch", (kind, n, got.len().min(6)));
    c.ensure(got.len() <= n, "fetch/count", || (format!("asked for {n} addresses, got {}", got.len()), json!({})));
    let mut ips = BTreeSet::new();
    for g in &got {
        let at = multiaddr_to_socketaddr(&g.addr).unwrap();
        let ok = mo.recs.get(&at).map_or(false, |x| x.addr == g.addr && fit(x, &at));
        let why = if mo.banned(at.ip()) { "banned" } else { "unfit" };
        c.ensure(ok, &format!("fetch/{name}/{why}"), || {
            (format!("{at} was handed out ({name}) although {why}"), json!({"record": format!("{:?}", mo.recs.get(&at)), "now": now, "trace": trace}))
        });
        c.ensure(ips.insert(at.ip()), "fetch/same host", || (format!("{} was handed out twice at once ({name})", at.ip()), json!({})));
    }
    // a host all of whose addresses fit is handed out when there is room
    let mut hosts: BTreeMap<IpAddr, bool> = BTreeMap::new();
    for (at, x) in &mo.recs {
        *hosts.entry(at.ip()).or_insert(true) &= fit(x, at);
    }
    if got.len() < n {
        let missed: Vec<_> = hosts.iter().filter(|(i, f)| **f && !ips.contains(i)).map(|x| x.0.to_string()).collect();
        c.ensure(missed.is_empty(), &format!("fetch/{name}/missed"), || (format!("{missed:?} fit ({name}) and were not handed out"), json!({"asked": n, "got": got.len(), "trace": trace})));
    }
}

/// a store with as many addresses as it may hold
fn crowd(c: &mut Ctx, r: &mut Rng, no: u64) {
    c.event("crowds");
    let (m, _) = manager(c, vec![]);
    let mut now = 1_700_000_000_000;
    faketime::set_unix_time_as_millis(now);
    let shape = (no + r.below(2) as u64) % 4;
    let id = key(5).1.peer_id();
    let at = |net: u64, i: u64| -> Multiaddr { with_id(format!("/ip4/{}.{}.{}.{}/tcp/1000", 20 + net / 256, net % 256, i / 250, 1 + i % 250).parse().unwrap(), &id) };
    // networks of 4 each, at most; or one flood among them
    let mut all: Vec<Multiaddr> = vec![];
    match shape {
        0 | 1 => (0..LIMIT as u64).for_each(|i| all.push(at(i / 4, i % 4))),
        _ => {
            for i in 0..2000 {
                all.push(at(i / 2, i % 2));
            }
            let mut i = 0;
            while all.len() < LIMIT {
                all.push(at(3000 + i % 3, i / 3));
                i += 1;
            }
        }
    }
    r.shuffle(&mut all);
    for a in &all {
        let ok = m.with_peer_store_mut(|s| s.add_addr(a.clone()).is_ok());
        if !c.ensure(ok, "crowd/early", || ("a store with room refused an address".into(), json!({}))) {
            return;
        }
    }
    let mut dead: BTreeSet<String> = BTreeSet::new();
    if shape % 2 == 1 {
        // some have been tried in vain
        for a in all.iter().take(r.range(1, 300) as usize) {
            m.with_peer_store_mut(|s| {
                let i = s.mut_addr_manager().get_mut(a).unwrap();
                (0..3).for_each(|_| i.mark_tried(now))
            });
            dead.insert(a.to_string());
        }
        now += 120 * S;
        faketime::set_unix_time_as_millis(now);
    }
    let have = || -> BTreeSet<String> { m.with_peer_store(|s| s.addr_manager().addrs_iter().map(|i| i.addr.to_string()).collect()) };
    let before = have();
    let extra = at(9000, 1);
    let ret = m.with_peer_store_mut(|s| s.add_addr(extra.clone()).is_ok());
    let after = have();
    let gone: Vec<&String> = before.difference(&after).collect();
    c.seen("crowd", (shape, ret, gone.len().min(3)));
    c.add("addresses evicted", gone.len() as u64);
    c.ensure(after.len() <= LIMIT, "crowd/limit", || (format!("the store holds {} addresses, its limit is {LIMIT}", after.len()), json!({})));
    if !dead.is_empty() {
        let wrong = gone.iter().filter(|g| !dead.contains(**g)).count();
        c.ensure(wrong == 0 && !gone.is_empty() && ret, "crowd/useful evicted", || {
            (format!("with {} useless addresses in it, the full store evicted {} addresses, {wrong} of them useful; accepted: {ret}", dead.len(), gone.len()), json!({}))
        });
    } else if shape == 0 {
        c.ensure(!ret && gone.is_empty(), "crowd/spread", || (format!("a full store whose networks are all small evicted {} addresses for a new one", gone.len()), json!({"accepted": ret})));
    } else {
        let mut per: BTreeMap<String, usize> = BTreeMap::new();
        for g in &gone {
            let net = g.split('/').nth(2).unwrap().split('.').take(2).collect::<Vec<_>>().join(".");
            *per.entry(net).or_default() += 1;
        }
        let flood = |n: &String| {
            let (a, b) = n.split_once('.').unwrap();
            (a.parse::<u64>().unwrap() - 20) * 256 + b.parse::<u64>().unwrap() >= 3000
        };
        c.ensure(ret && !gone.is_empty() && per.iter().all(|(n, k)| flood(n) && *k <= 2), "crowd/flood", || {
            (format!("the flooding networks fill the store: evicted {per:?}, accepted {ret}"), json!({}))
        });
    }
    // the store still works
    let a = m.with_peer_store_mut(|s| s.fetch_addrs_to_feeler(10));
    c.ensure(a.len() == 10, "crowd/fetch", || (format!("a full store handed out {} of 10 addresses", a.len()), json!({})));
}
