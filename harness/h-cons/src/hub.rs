//! Nodes of one chain joined by a network that does what its policy says; every message is encoded and decoded on the way.
use core_network::{PeerId, PeerIdExt};
use futures::future::BoxFuture;
use futures::FutureExt;
use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Network, PeerTag, PeerTrust, Priority, Rpc, TrustFeedback};
use protocol::types::Bytes;
use protocol::{async_trait, Display, ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;
use tokio::runtime::Handle;
use tokio::sync::oneshot;

#[derive(Debug, Display)]
#[display(fmt = "{}", _0)]
pub struct Refused(pub String);
impl std::error::Error for Refused {}
impl From<Refused> for ProtocolError {
    fn from(e: Refused) -> Self {
        ProtocolError::new(ProtocolErrorKind::Network, Box::new(e))
    }
}

type Handler = Arc<dyn Fn(Context, Bytes) -> BoxFuture<'static, Result<TrustFeedback, String>> + Send + Sync>;
pub fn handler<H: MessageHandler>(h: H) -> Handler {
    let h = Arc::new(h);
    Arc::new(move |cx, b| {
        let h = Arc::clone(&h);
        async move {
            match H::Message::decode_msg(b) {
                Ok(m) => Ok(h.process(cx, m).await),
                Err(e) => Err(e.to_string()),
            }
        }
        .boxed()
    })
}

pub enum Call {
    Deliver(Duration),
    Answer(Bytes),
    Lose,
}
pub trait Policy: Send + Sync {
    /// the copies of a message that arrive, and when
    fn gossip(&self, _from: usize, _to: usize, _end: &str, msg: &Bytes) -> Vec<(Duration, Bytes)> {
        vec![(Duration::ZERO, msg.clone())]
    }
    fn call(&self, _from: usize, _to: usize, _end: &str, _req: &Bytes) -> Call {
        Call::Deliver(Duration::ZERO)
    }
    fn reply(&self, _from: usize, _to: usize, _end: &str, _req: &Bytes, ans: Result<Bytes, String>) -> Result<Bytes, String> {
        ans
    }
    /// seen before it is delivered to anybody
    fn sent(&self, _from: usize, _end: &str, _msg: &Bytes, _to: Option<usize>) {}
}
pub struct Fair;
impl Policy for Fair {}
pub struct Silent;
impl Policy for Silent {
    fn gossip(&self, _: usize, _: usize, _: &str, _: &Bytes) -> Vec<(Duration, Bytes)> {
        vec![]
    }
}

struct Peer {
    id: Bytes,
    rt: Handle,
    ends: HashMap<String, Handler>,
}
pub struct Hub {
    peers: RwLock<HashMap<usize, Peer>>,
    pending: Mutex<HashMap<u64, oneshot::Sender<Result<Bytes, String>>>>,
    next: AtomicU64,
    pub policy: RwLock<Arc<dyn Policy>>,
    pub panics: Mutex<Vec<String>>,
    pub reports: Mutex<Vec<(usize, TrustFeedback)>>,
    pub undecodable: Mutex<Vec<(usize, String, String)>>,
    pub tagged: Mutex<HashMap<usize, Vec<Bytes>>>,
    pub messages: AtomicU64,
    pub calls: AtomicU64,
}
impl Hub {
    pub fn new(p: impl Policy + 'static) -> Arc<Hub> {
        Arc::new(Hub {
            peers: Default::default(),
            pending: Default::default(),
            next: AtomicU64::new(1),
            policy: RwLock::new(Arc::new(p)),
            panics: Default::default(),
            reports: Default::default(),
            undecodable: Default::default(),
            tagged: Default::default(),
            messages: Default::default(),
            calls: Default::default(),
        })
    }
    pub fn set(&self, p: impl Policy + 'static) {
        *self.policy.write().unwrap() = Arc::new(p);
    }
    pub fn policy(&self) -> Arc<dyn Policy> {
        Arc::clone(&self.policy.read().unwrap())
    }
    pub fn join(self: &Arc<Self>, me: usize, pub_key: Bytes, rt: Handle) -> Net {
        let id = PeerId::from_pubkey_bytes(pub_key).unwrap().into_bytes_ext();
        self.peers.write().unwrap().insert(me, Peer { id, rt, ends: HashMap::new() });
        Net { hub: Arc::clone(self), me }
    }
    pub fn leave(&self, me: usize) {
        self.peers.write().unwrap().remove(&me);
    }
    pub fn register<H: MessageHandler>(&self, me: usize, end: &str, h: H) {
        self.peers.write().unwrap().get_mut(&me).unwrap().ends.insert(end.to_owned(), handler(h));
    }
    fn find(&self, to: usize, end: &str) -> Option<(Handle, Handler)> {
        let g = self.peers.read().unwrap();
        let p = g.get(&to)?;
        Some((p.rt.clone(), Arc::clone(p.ends.get(end)?)))
    }
    pub fn others(&self, me: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self.peers.read().unwrap().keys().cloned().filter(|k| *k != me).collect();
        v.sort();
        v
    }
    pub fn by_id(&self, id: &Bytes) -> Option<usize> {
        self.peers.read().unwrap().iter().find(|(_, p)| p.id == *id).map(|(k, _)| *k)
    }
    /// what that node makes of a message
    pub async fn hand(self: Arc<Self>, from: usize, to: usize, end: String, msg: Bytes, cx: Context) -> Option<Result<TrustFeedback, String>> {
        let (_, h) = self.find(to, &end)?;
        let cx = cx.with_value("peer", from).with_value("session_id", from);
        match AssertUnwindSafe(h(cx, msg)).catch_unwind().await {
            Ok(f) => {
                match &f {
                    Ok(f) => self.reports.lock().unwrap().push((to, f.clone())),
                    Err(e) => self.undecodable.lock().unwrap().push((to, end, e.clone())),
                }
                Some(f)
            }
            Err(p) => {
                let what = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.panics.lock().unwrap().push(format!("{end}: {what}"));
                None
            }
        }
    }
    pub fn deliver(self: &Arc<Self>, from: usize, to: usize, end: &str, msg: &Bytes) {
        let Some((rt, _)) = self.find(to, end) else { return };
        for (after, m) in self.policy().gossip(from, to, end, msg) {
            self.messages.fetch_add(1, Ordering::Relaxed);
            let (hub, end) = (Arc::clone(self), end.to_owned());
            rt.spawn(async move {
                if after > Duration::ZERO {
                    tokio::time::sleep(after).await;
                }
                hub.hand(from, to, end, m, Context::new()).await;
            });
        }
    }
}

#[derive(Clone)]
pub struct Net {
    pub hub: Arc<Hub>,
    pub me: usize,
}
#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, cx: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let req = msg.encode_msg()?;
        let Some(to) = cx.get::<usize>("peer").cloned() else { return Err(Refused("no session".into()).into()) };
        self.hub.calls.fetch_add(1, Ordering::Relaxed);
        let policy = self.hub.policy();
        let out = match policy.call(self.me, to, end, &req) {
            Call::Answer(b) => Ok(b),
            Call::Lose => Err("rpc timeout".to_owned()),
            Call::Deliver(after) => {
                if after > Duration::ZERO {
                    tokio::time::sleep(after).await;
                }
                let id = self.hub.next.fetch_add(1, Ordering::Relaxed);
                let (tx, rx) = oneshot::channel();
                self.hub.pending.lock().unwrap().insert(id, tx);
                match self.hub.find(to, end) {
                    None => Err("rpc timeout".to_owned()),
                    Some((rt, _)) => {
                        let (hub, me, end2, req2) = (Arc::clone(&self.hub), self.me, end.to_owned(), req.clone());
                        rt.spawn(async move { hub.hand(me, to, end2, req2, Context::new().with_value("rpc", id)).await });
                        match tokio::time::timeout(Duration::from_secs(4), rx).await {
                            Ok(Ok(a)) => a,
                            _ => Err("rpc timeout".to_owned()),
                        }
                    }
                }
            }
        };
        match policy.reply(self.me, to, end, &req, out) {
            Ok(b) => R::decode_msg(b),
            Err(e) => Err(Refused(e).into()),
        }
    }
    async fn response<M: MessageCodec>(&self, cx: Context, _: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        let ret = match ret {
            Ok(mut m) => Ok(m.encode_msg()?),
            Err(e) => Err(e.to_string()),
        };
        if let Some(tx) = cx.get::<u64>("rpc").and_then(|id| self.hub.pending.lock().unwrap().remove(id)) {
            let _ = tx.send(ret);
        }
        Ok(())
    }
}
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, cx: Context, end: &str, msg: M, p: Priority) -> ProtocolResult<()> {
        self.gossip(cx, None, end, msg, p).await
    }
    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let b = msg.encode_msg()?;
        self.hub.policy().sent(self.me, end, &b, None);
        for to in self.hub.others(self.me) {
            if Some(to) != origin {
                self.hub.deliver(self.me, to, end, &b);
            }
        }
        Ok(())
    }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, end: &str, to: P, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let b = msg.encode_msg()?;
        for id in to.as_ref() {
            let n = self.hub.by_id(id);
            self.hub.policy().sent(self.me, end, &b, n);
            if let Some(n) = n {
                self.hub.deliver(self.me, n, end, &b);
            }
        }
        Ok(())
    }
}
impl PeerTrust for Net {
    fn report(&self, _: Context, f: TrustFeedback) {
        self.hub.reports.lock().unwrap().push((self.me, f));
    }
}
impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn tag_consensus(&self, _: Context, ids: Vec<Bytes>) -> ProtocolResult<()> {
        self.hub.tagged.lock().unwrap().insert(self.me, ids);
        Ok(())
    }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(self.hub.others(self.me).len())
    }
}
