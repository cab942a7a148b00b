//! Nodes of the repository's network service, and peers made by hand, on an in-process network under virtual time.
use core_network::{NetworkConfig, NetworkContext, NetworkService, NetworkServiceHandle, PeerId};
use protocol::traits::{Context, MessageHandler, Priority, Rpc, TrustFeedback};
use protocol::types::Bytes;
use protocol::{async_trait, Display, ProtocolError, ProtocolErrorKind};
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tentacle::ether::{self, Wire};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::{PublicKey, SecioKeyPair};
use tentacle::ProtocolId;
use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
use vlib::Rng;

pub const PING: usize = 1;
pub const IDENTIFY: usize = 2;
pub const DISCOVERY: usize = 3;
pub const TRANSMITTER: usize = 4;
pub const FEELER: usize = 5;

pub fn paused<T>(f: impl std::future::Future<Output = T>) -> T {
    let t = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f);
    AHEAD.with(|a| a.set(0));
    t
}

pub fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}

pub fn key(n: u64) -> ([u8; 32], SecioKeyPair) {
    let mut k = [3u8; 32];
    k[24..].copy_from_slice(&(n + 1).to_be_bytes());
    (k, SecioKeyPair::secp256k1_raw_key(k).unwrap())
}

/// a public address of its own for each number
pub fn ip(n: u64) -> String {
    format!("45.{}.{}.{}", 10 + (n >> 16) % 90, (n >> 8) & 255, n & 255)
}
pub fn addr(n: u64, port: u16) -> Multiaddr {
    format!("/ip4/{}/tcp/{port}", ip(n)).parse().unwrap()
}
pub fn sock(n: u64, port: u16) -> SocketAddr {
    format!("{}:{port}", ip(n)).parse().unwrap()
}
pub fn with_id(a: Multiaddr, id: &PeerId) -> Multiaddr {
    format!("{a}/p2p/{}", id.to_base58()).parse().unwrap()
}

thread_local! {
    static AHEAD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// In place of the C library's: on this thread the monotonic clock, and with it `std::time::Instant`, is ahead of the
/// machine's by the time that has passed on the paused runtime.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    if r == 0 && id == libc::CLOCK_MONOTONIC {
        let ms = AHEAD.try_with(|a| a.get()).unwrap_or(0);
        (*ts).tv_sec += (ms / 1000) as i64;
        (*ts).tv_nsec += (ms % 1000) as i64 * 1_000_000;
        if (*ts).tv_nsec >= 1_000_000_000 {
            (*ts).tv_nsec -= 1_000_000_000;
            (*ts).tv_sec += 1;
        }
    }
    r
}

/// `faketime` and the monotonic clock go with the runtime's
pub fn run_clock(start: u64) {
    faketime::set_unix_time_as_millis(start);
    tokio::spawn(async move {
        let t0 = tokio::time::Instant::now();
        loop {
            tokio::time::sleep(Duration::from_millis(250)).await;
            let ms = t0.elapsed().as_millis() as u64;
            AHEAD.with(|a| a.set(ms));
            faketime::set_unix_time_as_millis(start + ms);
        }
    });
}

#[derive(Clone, Debug)]
pub struct Got {
    pub end: &'static str,
    pub from: PeerId,
    pub sid: usize,
    pub rpc: Option<u64>,
    pub data: Bytes,
}
pub type Log = Arc<Mutex<Vec<Got>>>;

pub struct Recorder {
    pub end: &'static str,
    pub log: Log,
    pub answer: Option<(NetworkServiceHandle, &'static str)>,
}

#[derive(Debug, Display)]
#[display(fmt = "{}", _0)]
pub struct Failure(pub String);
impl std::error::Error for Failure {}
impl From<Failure> for ProtocolError {
    fn from(e: Failure) -> Self {
        ProtocolError::new(ProtocolErrorKind::Network, Box::new(e))
    }
}

/// what a callee does is written in the request
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Deed {
    Echo = 0,
    Fail = 1,
    Silent = 2,
    Twice = 3,
    Late = 4,
    Empty = 5,
}
pub const DEEDS: [Deed; 6] = [Deed::Echo, Deed::Fail, Deed::Silent, Deed::Twice, Deed::Late, Deed::Empty];

pub fn echo(b: &[u8]) -> Vec<u8> {
    let mut v = b"re:".to_vec();
    v.extend(b.iter().rev());
    v
}

#[async_trait]
impl MessageHandler for Recorder {
    type Message = Bytes;

    async fn process(&self, ctx: Context, msg: Bytes) -> TrustFeedback {
        self.log.lock().unwrap().push(Got {
            end: self.end,
            from: ctx.remote_peer_id().unwrap(),
            sid: ctx.session_id().unwrap().value(),
            rpc: ctx.rpc_id().ok(),
            data: msg.clone(),
        });
        if let Some((h, end)) = &self.answer {
            if msg.len() >= 2 {
                let ms = msg[1] as u64 * 20;
                match msg[0] {
                    1 => {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        let e: ProtocolError = Failure(format!("no: {}", vlib::hex(&msg))).into();
                        let _ = h.response::<Bytes>(ctx, end, Err(e), Priority::High).await;
                    }
                    2 => (),
                    5 => {
                        let _ = h.response(ctx, end, Ok(Bytes::new()), Priority::Normal).await;
                    }
                    k => {
                        tokio::time::sleep(if k == 4 { secs(11) + Duration::from_millis(ms) } else { Duration::from_millis(ms) }).await;
                        let _ = h.response(ctx.clone(), end, Ok(Bytes::from(echo(&msg))), Priority::High).await;
                        if k == 3 {
                            let _ = h.response(ctx, end, Ok(Bytes::from_static(b"another")), Priority::High).await;
                        }
                    }
                }
            }
        }
        TrustFeedback::Neutral
    }
}

pub struct Node {
    pub id: PeerId,
    pub addr: Multiaddr,
    pub sock: SocketAddr,
    pub handle: NetworkServiceHandle,
    pub log: Log,
}

pub const GOSSIPS: [&str; 3] = ["/gossip/test/a", "/gossip/test/ab", "/gossip/tes/ta"];
pub const CALLS: [(&str, &str); 2] = [("/rpc_call/test/x", "/rpc_resp/test/x"), ("/rpc_call/test/xy", "/rpc_resp/test/xy")];

pub struct Setup {
    pub n: u64,
    pub bootstraps: Vec<Multiaddr>,
    pub chain: u64,
    pub dir: PathBuf,
    pub max: Option<usize>,
}

pub fn node(s: Setup) -> Node {
    let (raw, kp) = key(s.n);
    let at = addr(s.n, 1337);
    let cfg = NetworkConfig::new()
        .listen_addr(at.clone())
        .bootstraps(s.bootstraps)
        .secio_keypair(&raw)
        .unwrap()
        .chain_id(s.chain)
        .peer_store_dir(s.dir)
        .max_connections(s.max)
        .unwrap();
    let mut svc = NetworkService::new(cfg, kp.clone());
    let log: Log = Default::default();
    let handle = svc.handle();
    for end in GOSSIPS {
        svc.register_endpoint_handler(end, Recorder { end, log: Arc::clone(&log), answer: None }).unwrap();
    }
    for (end, resp) in CALLS {
        let answer = Some((handle.clone(), resp));
        svc.register_endpoint_handler(end, Recorder { end, log: Arc::clone(&log), answer }).unwrap();
        svc.register_rpc_response(resp).unwrap();
    }
    tokio::spawn(svc.run());
    Node { id: kp.peer_id(), addr: with_id(at, &kp.peer_id()), sock: sock(s.n, 1337), handle, log }
}

// ---- protobuf by hand

pub fn varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn field(o: &mut Vec<u8>, tag: u64, b: &[u8]) {
    varint(o, tag << 3 | 2);
    varint(o, b.len() as u64);
    o.extend_from_slice(b);
}
pub fn num(o: &mut Vec<u8>, tag: u64, v: u64) {
    varint(o, tag << 3);
    varint(o, v);
}
pub fn pb(fields: &[(u64, &[u8])]) -> Vec<u8> {
    let mut o = vec![];
    for (t, b) in fields {
        field(&mut o, *t, b);
    }
    o
}
pub fn network_message(headers: &[(&str, &[u8])], url: &str, content: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (k, v) in headers {
        field(&mut o, 1, &pb(&[(1, k.as_bytes()), (2, v)]));
    }
    field(&mut o, 2, url.as_bytes());
    field(&mut o, 3, content);
    o
}
/// (tag, bytes) of the length-delimited fields, numbers as their value
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Num(u64),
    Bytes(Vec<u8>),
}
pub fn parse(mut d: &[u8]) -> Option<Vec<(u64, Val)>> {
    fn vi(d: &mut &[u8]) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = *d.first()?;
            *d = &d[1..];
            v |= ((b & 0x7f) as u64) << (7 * i).min(63);
            if b < 0x80 {
                return Some(v);
            }
        }
        None
    }
    let mut out = vec![];
    while !d.is_empty() {
        let k = vi(&mut d)?;
        match k & 7 {
            0 => out.push((k >> 3, Val::Num(vi(&mut d)?))),
            2 => {
                let n = vi(&mut d)? as usize;
                if n > d.len() {
                    return None;
                }
                out.push((k >> 3, Val::Bytes(d[..n].to_vec())));
                d = &d[n..];
            }
            _ => return None,
        }
    }
    Some(out)
}
pub fn bytes_of(v: &[(u64, Val)], tag: u64) -> Vec<u8> {
    v.iter()
        .find_map(|(t, v)| match v {
            Val::Bytes(b) if *t == tag => Some(b.clone()),
            _ => None,
        })
        .unwrap_or_default()
}

/// one frame as it goes over the wire: length, compression flag, payload
pub fn frame(payload: &[u8], squeeze: bool) -> Vec<u8> {
    let mut body = vec![if squeeze { 0x80 } else { 0 }];
    if squeeze {
        body.extend(snap::raw::Encoder::new().compress_vec(payload).unwrap());
    } else {
        body.extend_from_slice(payload);
    }
    raw_frame(&body)
}
pub fn raw_frame(body: &[u8]) -> Vec<u8> {
    let mut o = (body.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(body);
    o
}
pub fn unframe(mut d: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    while d.len() >= 5 {
        let n = u32::from_be_bytes([d[0], d[1], d[2], d[3]]) as usize;
        let body = &d[4..4 + n];
        d = &d[4 + n..];
        out.push(if body[0] & 0x80 != 0 {
            {
            let mut b = vec![0; snap::raw::decompress_len(&body[1..]).unwrap_or(0)];
            let n = snap::raw::Decoder::new().decompress(&body[1..], &mut b).unwrap_or(0);
            b.truncate(n);
            b
        }
        } else {
            body[1..].to_vec()
        });
    }
    out
}

/// A peer made by hand.
pub struct Raw {
    pub id: PeerId,
    pub key: PublicKey,
    pub addr: Multiaddr,
    pub tx: UnboundedSender<Wire>,
    pub frames: Arc<Mutex<Vec<(usize, Vec<u8>)>>>,
    pub opened: Arc<Mutex<Vec<usize>>>,
    pub closed: Arc<Mutex<bool>>,
}

impl Raw {
    /// connects to a node (inbound there)
    pub fn connect(n: u64, port: u16, to: SocketAddr) -> Option<Raw> {
        let (_, kp) = key(n);
        let (_, tx, rx) = ether::connect(kp.public_key(), addr(n, port), to)?;
        Some(Raw::on(kp.public_key(), addr(n, port), tx, rx))
    }
    pub fn on(key: PublicKey, addr: Multiaddr, tx: UnboundedSender<Wire>, mut rx: UnboundedReceiver<Wire>) -> Raw {
        let r = Raw { id: key.peer_id(), key, addr, tx, frames: Default::default(), opened: Default::default(), closed: Default::default() };
        let (f, o, c, tx) = (Arc::clone(&r.frames), Arc::clone(&r.opened), Arc::clone(&r.closed), r.tx.clone());
        tokio::spawn(async move {
            while let Some(w) = rx.recv().await {
                match w {
                    Wire::Open(p) => {
                        o.lock().unwrap().push(p.value());
                        let _ = tx.send(Wire::Opened(p));
                    }
                    Wire::Opened(p) => o.lock().unwrap().push(p.value()),
                    Wire::Frame(p, b) => f.lock().unwrap().extend(unframe(&b).into_iter().map(|x| (p.value(), x))),
                    Wire::Bye => break,
                }
            }
            *c.lock().unwrap() = true;
        });
        r
    }
    pub fn open(&self, p: usize) {
        let _ = self.tx.send(Wire::Open(ProtocolId::new(p)));
    }
    pub fn put(&self, p: usize, wire: Vec<u8>) {
        let _ = self.tx.send(Wire::Frame(ProtocolId::new(p), wire.into()));
    }
    pub fn send(&self, p: usize, payload: &[u8]) {
        self.put(p, frame(payload, false))
    }
    pub fn bye(&self) {
        let _ = self.tx.send(Wire::Bye);
    }
    pub fn is_closed(&self) -> bool {
        *self.closed.lock().unwrap()
    }
    pub fn take(&self, p: usize) -> Vec<Vec<u8>> {
        let mut f = self.frames.lock().unwrap();
        let (a, b): (Vec<_>, Vec<_>) = f.drain(..).partition(|(q, _)| *q == p);
        *f = b;
        a.into_iter().map(|x| x.1).collect()
    }
    pub fn identify(&self, chain: &str, listens: &[Multiaddr], observed: Option<&Multiaddr>) {
        self.send(IDENTIFY, &identity(chain, listens, observed))
    }
}

pub fn identity(chain: &str, listens: &[Multiaddr], observed: Option<&Multiaddr>) -> Vec<u8> {
    let mut info = vec![];
    for l in listens {
        field(&mut info, 1, &l.to_vec());
    }
    if let Some(o) = observed {
        field(&mut info, 2, &o.to_vec());
    }
    pb(&[(1, chain.as_bytes()), (2, &info)])
}

pub fn weather(rng: &mut Rng, kind: usize) {
    let mut r = rng.fork();
    match kind {
        0 => ether::weather(|| Duration::ZERO),
        1 => ether::weather(move || Duration::from_millis(r.range(0, 60))),
        _ => ether::weather(move || Duration::from_millis(if r.chance(1, 8) { r.range(200, 2500) } else { r.range(0, 20) })),
    }
}

/// panics on any thread since the start
pub fn panics() -> Vec<(String, String, String)> {
    vlib::PANICS.lock().unwrap().clone()
}

/// an RLP string, as `Bytes` goes into a message
pub fn rlp(b: &[u8]) -> Vec<u8> {
    protocol::codec::ProtocolCodec::encode(&Bytes::copy_from_slice(b)).unwrap().to_vec()
}
pub fn unrlp(b: &[u8]) -> Option<Bytes> {
    <Bytes as protocol::codec::ProtocolCodec>::decode(b).ok()
}

pub fn dir(c: &vlib::Ctx, n: u64) -> PathBuf {
    c.scratch.join(format!("peers-{n}"))
}

/// `k` nodes, each dialing all earlier ones, and `extra` hand-made peers on the first; waits until all know all.
pub async fn mesh(c: &mut vlib::Ctx, k: u64, extra: u64) -> Option<(Vec<Node>, Vec<Raw>)> {
    let mut nodes: Vec<Node> = vec![];
    for n in 0..k {
        let d = dir(c, n);
        let _ = std::fs::remove_dir_all(&d);
        let bootstraps = nodes.iter().map(|x| x.addr.clone()).collect();
        nodes.push(node(Setup { n, bootstraps, chain: 7, dir: d, max: None }));
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    let mut raws = vec![];
    for i in 0..extra {
        raws.push(Raw::join(100 + i, nodes[0].sock, "7").await?);
    }
    for _ in 0..300 {
        let ok = nodes.iter().enumerate().all(|(i, n)| {
            use protocol::traits::Network;
            n.handle.peer_count(Context::new()).unwrap() == (k - 1 + if i == 0 { extra } else { 0 }) as usize
        });
        if ok {
            tokio::time::sleep(secs(20)).await;
            return Some((nodes, raws));
        }
        tokio::time::sleep(secs(1)).await;
    }
    None
}

impl Raw {
    /// connects, identifies itself and opens the other protocols
    pub async fn join(n: u64, to: SocketAddr, chain: &str) -> Option<Raw> {
        let r = Raw::connect(n, 4000, to)?;
        r.open(IDENTIFY);
        tokio::time::sleep(Duration::from_millis(200)).await;
        r.identify(chain, &[], None);
        for p in [PING, DISCOVERY, TRANSMITTER] {
            r.open(p);
        }
        r.pong();
        Some(r)
    }
    /// what came on the transmitter protocol: url and content, content as it came
    pub fn messages(&self) -> Vec<(String, Vec<u8>)> {
        self.take(TRANSMITTER)
            .into_iter()
            .map(|f| {
                let v = parse(&f).unwrap_or_default();
                (String::from_utf8_lossy(&bytes_of(&v, 2)).into_owned(), bytes_of(&v, 3))
            })
            .collect()
    }
}

pub fn ping_of(f: &[u8]) -> Option<(u64, u64)> {
    match parse(f)?.last()? {
        (k @ (1 | 2), Val::Num(n)) => Some((*k, *n)),
        _ => None,
    }
}
pub fn ping_msg(tag: u64, n: u64) -> Vec<u8> {
    let mut o = vec![];
    num(&mut o, tag, n);
    o
}

impl Raw {
    /// answers pings from now on
    pub fn pong(&self) {
        let (f, tx, c) = (Arc::clone(&self.frames), self.tx.clone(), Arc::clone(&self.closed));
        tokio::spawn(async move {
            while !*c.lock().unwrap() {
                tokio::time::sleep(Duration::from_millis(200)).await;
                let mut f = f.lock().unwrap();
                f.retain(|(p, b)| match ping_of(b) {
                    Some((1, n)) if *p == PING => {
                        let _ = tx.send(Wire::Frame(ProtocolId::new(PING), frame(&ping_msg(2, n), false).into()));
                        false
                    }
                    _ => true,
                });
            }
        });
    }
    pub fn has(&self, p: usize) -> bool {
        self.opened.lock().unwrap().contains(&p)
    }
    /// waits for this protocol to be open
    pub async fn until(&self, p: usize) -> bool {
        for _ in 0..200 {
            if self.has(p) {
                return true;
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        false
    }
}

/// A hand-made peer that listens, and behaves: identifies itself and answers pings.
pub struct Host {
    pub id: PeerId,
    pub addr: Multiaddr,
    pub sock: SocketAddr,
    pub got: Arc<Mutex<Vec<Arc<Raw>>>>,
}
pub fn host(n: u64, at: Multiaddr, chain: &'static str) -> Host {
    let (_, kp) = key(n);
    let sock = tentacle::utils::multiaddr_to_socketaddr(&at).unwrap();
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    ether::listen(sock, ether::Listener { key: kp.public_key(), accept: tx });
    let got: Arc<Mutex<Vec<Arc<Raw>>>> = Default::default();
    let g = Arc::clone(&got);
    tokio::spawn(async move {
        while let Some(i) = rx.recv().await {
            let i: ether::Incoming = i;
            let seen = i.addr.clone();
            let r = Arc::new(Raw::on(i.from, i.addr, i.tx, i.rx));
            g.lock().unwrap().push(Arc::clone(&r));
            tokio::spawn(async move {
                if r.until(IDENTIFY).await {
                    r.identify(chain, &[], Some(&seen));
                    r.pong();
                }
            });
        }
    });
    Host { id: kp.peer_id(), addr: with_id(at, &kp.peer_id()), sock, got }
}
impl Host {
    /// sessions that are open, and have gone further than the handshake
    pub fn live(&self) -> usize {
        self.got.lock().unwrap().iter().filter(|r| !r.is_closed() && r.has(TRANSMITTER)).count()
    }
    pub fn dials(&self) -> usize {
        self.got.lock().unwrap().len()
    }
    pub fn felt(&self) -> usize {
        self.got.lock().unwrap().iter().filter(|r| r.has(FEELER)).count()
    }
}
