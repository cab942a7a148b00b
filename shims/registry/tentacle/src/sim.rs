use crate::{
    multiaddr::{Multiaddr, Protocol},
    secio::{error::SecioError, KeyProvider, PublicKey},
    utils::{extract_peer_id, multiaddr_to_socketaddr},
    ProtocolId, SessionId,
};
use bytes::{Bytes, BytesMut};
use std::{
    collections::BTreeMap,
    io,
    net::SocketAddr,
    ops::Deref,
    sync::{Arc, Mutex},
    time::Duration,
};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

pub mod yamux {
    #[derive(Clone, Debug, Default)]
    pub struct Config {
        pub accept_backlog: usize,
        pub max_stream_count: usize,
        pub max_stream_window_size: u32,
    }
}

pub mod runtime {
    pub fn spawn<F>(f: F)
    where
        F: std::future::Future + Send + 'static,
        F::Output: Send + 'static,
    {
        tokio::spawn(f);
    }
}

pub mod error {
    use super::*;

    #[derive(Debug)]
    pub enum TransportErrorKind {
        Io(io::Error),
    }
    #[derive(Debug)]
    pub enum HandshakeErrorKind {
        Timeout(String),
        SecioError(SecioError),
    }
    #[derive(Debug)]
    pub enum DialerErrorKind {
        RepeatedConnection(SessionId),
        PeerIdNotMatch,
        HandshakeError(HandshakeErrorKind),
        TransportError(TransportErrorKind),
        IoError(io::Error),
    }
    #[derive(Debug)]
    pub enum ListenErrorKind {
        IoError(io::Error),
    }
    #[derive(Debug)]
    pub enum ProtocolHandleErrorKind {
        AbnormallyClosed(Option<SessionId>),
    }
    #[derive(Debug)]
    pub struct SendErrorKind;

    macro_rules! err {
        ($($n:ident)*) => { $(
            impl std::fmt::Display for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "{self:?}")
                }
            }
            impl std::error::Error for $n {}
        )* };
    }
    err!(TransportErrorKind HandshakeErrorKind DialerErrorKind ListenErrorKind ProtocolHandleErrorKind SendErrorKind);
}

pub mod context {
    use super::*;
    use crate::service::{ServiceAsyncControl, SessionType};

    #[derive(Clone, Debug)]
    pub struct SessionContext {
        pub id: SessionId,
        pub address: Multiaddr,
        pub ty: SessionType,
        pub remote_pubkey: Option<PublicKey>,
    }

    pub struct ServiceContext {
        pub(crate) listens: Vec<Multiaddr>,
        pub(crate) inner: ServiceAsyncControl,
    }
    impl ServiceContext {
        pub fn control(&self) -> &ServiceAsyncControl {
            &self.inner
        }
        pub fn listens(&self) -> &[Multiaddr] {
            &self.listens
        }
    }
    impl Deref for ServiceContext {
        type Target = ServiceAsyncControl;
        fn deref(&self) -> &ServiceAsyncControl {
            &self.inner
        }
    }

    pub struct ProtocolContext {
        pub(crate) inner: ServiceContext,
        pub proto_id: ProtocolId,
    }
    impl Deref for ProtocolContext {
        type Target = ServiceContext;
        fn deref(&self) -> &ServiceContext {
            &self.inner
        }
    }

    pub struct ProtocolContextMutRef<'a> {
        pub(crate) inner: &'a mut ProtocolContext,
        pub session: &'a SessionContext,
    }
    impl<'a> ProtocolContextMutRef<'a> {
        pub async fn send_message(&self, data: Bytes) -> Result<(), crate::error::SendErrorKind> {
            self.inner.send_message_to(self.session.id, self.inner.proto_id, data).await
        }
        pub async fn quick_send_message(&self, data: Bytes) -> Result<(), crate::error::SendErrorKind> {
            self.inner.quick_send_message_to(self.session.id, self.inner.proto_id, data).await
        }
    }
    impl<'a> Deref for ProtocolContextMutRef<'a> {
        type Target = ProtocolContext;
        fn deref(&self) -> &ProtocolContext {
            self.inner
        }
    }
}

pub mod traits {
    use super::*;
    use crate::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext};
    use crate::service::{ServiceError, ServiceEvent};

    #[async_trait::async_trait]
    pub trait ServiceHandle: Send {
        async fn handle_error(&mut self, _control: &mut ServiceContext, _error: ServiceError) {}
        async fn handle_event(&mut self, _control: &mut ServiceContext, _event: ServiceEvent) {}
    }

    #[async_trait::async_trait]
    pub trait ServiceProtocol: Send {
        async fn init(&mut self, context: &mut ProtocolContext);
        async fn connected(&mut self, _context: ProtocolContextMutRef<'_>, _version: &str) {}
        async fn disconnected(&mut self, _context: ProtocolContextMutRef<'_>) {}
        async fn received(&mut self, _context: ProtocolContextMutRef<'_>, _data: Bytes) {}
        async fn notify(&mut self, _context: &mut ProtocolContext, _token: u64) {}
    }

    pub trait Codec: Send {
        fn enc(&mut self, item: Bytes, to: &mut BytesMut) -> io::Result<()>;
        fn dec(&mut self, from: &mut BytesMut) -> io::Result<Option<BytesMut>>;
    }
    impl<T> Codec for T
    where
        T: tokio_util::codec::Decoder<Item = BytesMut, Error = io::Error> + tokio_util::codec::Encoder<Bytes, Error = io::Error> + Send,
    {
        fn enc(&mut self, item: Bytes, to: &mut BytesMut) -> io::Result<()> {
            self.encode(item, to)
        }
        fn dec(&mut self, from: &mut BytesMut) -> io::Result<Option<BytesMut>> {
            self.decode(from)
        }
    }
}

type BeforeReceive = Box<dyn Fn(BytesMut) -> Result<Bytes, io::Error> + Send + 'static>;

pub mod builder {
    use super::*;
    use crate::service::{HandshakeType, ProtocolHandle, ProtocolMeta, Service, TcpSocket};
    use crate::traits::{Codec, ServiceHandle, ServiceProtocol};

    pub struct MetaBuilder(ProtocolMeta);
    impl Default for MetaBuilder {
        fn default() -> Self {
            MetaBuilder(ProtocolMeta {
                id: ProtocolId::new(0),
                name: String::new(),
                version: String::new(),
                codec: Box::new(|| Box::new(tokio_util::codec::LengthDelimitedCodec::new())),
                before_send: None,
                before_receive: Box::new(|| None),
                handle: ProtocolHandle::None,
            })
        }
    }
    impl MetaBuilder {
        pub fn id(mut self, id: ProtocolId) -> Self {
            self.0.id = id;
            self
        }
        pub fn name<F: Fn(ProtocolId) -> String + 'static + Send>(mut self, f: F) -> Self {
            self.0.name = f(self.0.id);
            self
        }
        pub fn support_versions(mut self, v: Vec<String>) -> Self {
            self.0.version = v.into_iter().next().unwrap_or_default();
            self
        }
        pub fn codec<F: Fn() -> Box<dyn Codec + Send + 'static> + Send + 'static>(mut self, f: F) -> Self {
            self.0.codec = Box::new(f);
            self
        }
        pub fn before_send<F: Fn(Bytes) -> Bytes + Send + 'static>(mut self, f: F) -> Self {
            self.0.before_send = Some(Box::new(f));
            self
        }
        pub fn before_receive<F: Fn() -> Option<BeforeReceive> + Send + 'static>(mut self, f: F) -> Self {
            self.0.before_receive = Box::new(f);
            self
        }
        pub fn service_handle<F: FnOnce() -> ProtocolHandle<Box<dyn ServiceProtocol + Send + 'static + Unpin>>>(mut self, f: F) -> Self {
            self.0.handle = f();
            self
        }
        pub fn build(self) -> ProtocolMeta {
            self.0
        }
    }

    pub struct ServiceBuilder<K> {
        metas: Vec<ProtocolMeta>,
        key: Option<K>,
        max: usize,
    }
    impl<K: KeyProvider> ServiceBuilder<K> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            ServiceBuilder { metas: vec![], key: None, max: 65535 }
        }
        pub fn insert_protocol(mut self, m: ProtocolMeta) -> Self {
            self.metas.push(m);
            self
        }
        pub fn handshake_type(mut self, h: HandshakeType<K>) -> Self {
            let HandshakeType::Secio(k) = h;
            self.key = Some(k);
            self
        }
        pub fn yamux_config(self, _: yamux::Config) -> Self {
            self
        }
        pub fn forever(self, _: bool) -> Self {
            self
        }
        pub fn max_connection_number(mut self, n: usize) -> Self {
            self.max = n;
            self
        }
        pub fn set_send_buffer_size(self, _: usize) -> Self {
            self
        }
        pub fn set_recv_buffer_size(self, _: usize) -> Self {
            self
        }
        pub fn set_channel_size(self, _: usize) -> Self {
            self
        }
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn tcp_config<F: Fn(TcpSocket) -> Result<TcpSocket, io::Error> + Send + Sync + 'static>(self, _: F) -> Self {
            self
        }
        pub fn build<H: ServiceHandle + Unpin>(self, handle: H) -> Service<H, K> {
            Service::new(self.metas, self.key.expect("secio"), self.max, handle)
        }
    }
}

/// What passes over an in-process connection.
#[derive(Debug)]
pub enum Wire {
    Open(ProtocolId),
    Opened(ProtocolId),
    Frame(ProtocolId, Bytes),
    Bye,
}

/// The in-process network: who listens where. Peers made by hand (a harness's) take part like services do.
pub mod ether {
    use crate::secio::PeerId;
    use super::*;
    pub use super::Wire;

    pub struct Incoming {
        pub from: PublicKey,
        pub addr: Multiaddr,
        pub tx: UnboundedSender<Wire>,
        pub rx: UnboundedReceiver<Wire>,
    }
    #[derive(Clone)]
    pub struct Listener {
        pub key: PublicKey,
        pub accept: UnboundedSender<Incoming>,
    }
    static LISTENERS: Mutex<BTreeMap<SocketAddr, Listener>> = Mutex::new(BTreeMap::new());
    type Weather = Box<dyn FnMut() -> Duration + Send>;
    static DELAY: Mutex<Option<Weather>> = Mutex::new(None);
    /// Dials that reached the dialing node itself.
    static SELF_DIALS: Mutex<Vec<(PeerId, SocketAddr)>> = Mutex::new(vec![]);

    pub fn self_dials() -> Vec<(PeerId, SocketAddr)> {
        SELF_DIALS.lock().unwrap().clone()
    }
    pub(crate) fn self_dial(who: PeerId, at: SocketAddr) {
        SELF_DIALS.lock().unwrap().push((who, at));
    }

    pub fn listen(at: SocketAddr, l: Listener) {
        LISTENERS.lock().unwrap().insert(at, l);
    }
    pub fn unlisten(at: &SocketAddr) {
        LISTENERS.lock().unwrap().remove(at);
    }
    pub fn reset() {
        LISTENERS.lock().unwrap().clear();
        SELF_DIALS.lock().unwrap().clear();
        *DELAY.lock().unwrap() = None;
    }
    pub fn weather(f: impl FnMut() -> Duration + Send + 'static) {
        *DELAY.lock().unwrap() = Some(Box::new(f));
    }
    pub(crate) async fn delay() {
        let d = DELAY.lock().unwrap().as_mut().map(|f| f());
        match d {
            Some(d) if !d.is_zero() => tokio::time::sleep(d).await,
            _ => (),
        }
    }
    /// Connects as `from`, seen by the other side at `addr` (without a peer id).
    pub fn connect(from: PublicKey, addr: Multiaddr, to: SocketAddr) -> Option<(PublicKey, UnboundedSender<Wire>, UnboundedReceiver<Wire>)> {
        let l = LISTENERS.lock().unwrap().get(&to)?.clone();
        let (a, ar) = unbounded_channel();
        let (b, br) = unbounded_channel();
        l.accept.send(Incoming { from, addr, tx: b, rx: ar }).ok()?;
        Some((l.key, a, br))
    }
    pub fn listener(at: &SocketAddr) -> Option<Listener> {
        LISTENERS.lock().unwrap().get(at).cloned()
    }
}

pub mod service {
    use super::*;
    use crate::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext};
    pub use crate::error::SendErrorKind;
    use crate::error::{DialerErrorKind, HandshakeErrorKind, ListenErrorKind, ProtocolHandleErrorKind, TransportErrorKind};
    use crate::traits::{Codec, ServiceHandle, ServiceProtocol};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum SessionType {
        Outbound,
        Inbound,
    }
    impl SessionType {
        pub fn is_inbound(self) -> bool {
            self == SessionType::Inbound
        }
        pub fn is_outbound(self) -> bool {
            self == SessionType::Outbound
        }
    }
    pub enum TargetProtocol {
        All,
        Single(ProtocolId),
        Multi(Box<dyn Iterator<Item = ProtocolId> + Send + 'static>),
        Filter(Box<dyn Fn(&ProtocolId) -> bool + Sync + Send + 'static>),
    }
    pub enum TargetSession {
        All,
        Filter(Box<dyn FnMut(&SessionId) -> bool + Sync + Send + 'static>),
        Multi(Box<dyn Iterator<Item = SessionId> + Send + 'static>),
        Single(SessionId),
    }
    pub enum HandshakeType<K> {
        Secio(K),
    }
    pub enum ProtocolHandle<T> {
        None,
        Callback(T),
    }
    pub struct TcpSocket(std::fs::File);
    impl std::os::unix::io::AsRawFd for TcpSocket {
        fn as_raw_fd(&self) -> std::os::unix::io::RawFd {
            self.0.as_raw_fd()
        }
    }

    pub struct ProtocolMeta {
        pub(crate) id: ProtocolId,
        pub(crate) name: String,
        pub(crate) version: String,
        pub(crate) codec: Box<dyn Fn() -> Box<dyn Codec + Send + 'static> + Send>,
        pub(crate) before_send: Option<Box<dyn Fn(Bytes) -> Bytes + Send>>,
        pub(crate) before_receive: Box<dyn Fn() -> Option<BeforeReceive> + Send>,
        pub(crate) handle: ProtocolHandle<Box<dyn ServiceProtocol + Send + 'static + Unpin>>,
    }

    #[derive(Debug)]
    pub enum ServiceError {
        DialerError { address: Multiaddr, error: DialerErrorKind },
        ListenError { address: Multiaddr, error: ListenErrorKind },
        ProtocolSelectError { proto_name: Option<String>, session_context: Arc<SessionContext> },
        ProtocolError { id: SessionId, proto_id: ProtocolId, error: io::Error },
        SessionTimeout { session_context: Arc<SessionContext> },
        MuxerError { session_context: Arc<SessionContext>, error: io::Error },
        SessionBlocked { session_context: Arc<SessionContext> },
        ProtocolHandleError { proto_id: ProtocolId, error: ProtocolHandleErrorKind },
    }
    #[derive(Debug)]
    pub enum ServiceEvent {
        ListenClose { address: Multiaddr },
        ListenStarted { address: Multiaddr },
        SessionClose { session_context: Arc<SessionContext> },
        SessionOpen { session_context: Arc<SessionContext> },
    }

    pub enum Command {
        Send { target: TargetSession, proto: ProtocolId, data: Bytes, quick: bool },
        Dial { addr: Multiaddr, target: TargetProtocol },
        Disconnect(SessionId),
        Open(SessionId, TargetProtocol),
        Notify(ProtocolId, Duration, u64),
        Shutdown,
    }

    type Sink = Arc<Mutex<dyn FnMut(Command) -> bool + Send>>;
    #[derive(Clone)]
    pub struct ServiceAsyncControl(Sink);
    impl ServiceAsyncControl {
        pub fn observed_by(mut f: impl FnMut(Command) + Send + 'static) -> Self {
            ServiceAsyncControl(Arc::new(Mutex::new(move |c| {
                f(c);
                true
            })))
        }
        fn put(&self, c: Command) -> Result<(), SendErrorKind> {
            if (self.0.lock().unwrap())(c) {
                Ok(())
            } else {
                Err(SendErrorKind)
            }
        }
        pub async fn send_message_to(&self, sid: SessionId, proto: ProtocolId, data: Bytes) -> Result<(), SendErrorKind> {
            self.put(Command::Send { target: TargetSession::Single(sid), proto, data, quick: false })
        }
        pub async fn quick_send_message_to(&self, sid: SessionId, proto: ProtocolId, data: Bytes) -> Result<(), SendErrorKind> {
            self.put(Command::Send { target: TargetSession::Single(sid), proto, data, quick: true })
        }
        pub async fn filter_broadcast(&self, target: TargetSession, proto: ProtocolId, data: Bytes) -> Result<(), SendErrorKind> {
            self.put(Command::Send { target, proto, data, quick: false })
        }
        pub async fn quick_filter_broadcast(&self, target: TargetSession, proto: ProtocolId, data: Bytes) -> Result<(), SendErrorKind> {
            self.put(Command::Send { target, proto, data, quick: true })
        }
        pub async fn dial(&self, addr: Multiaddr, target: TargetProtocol) -> Result<(), SendErrorKind> {
            self.put(Command::Dial { addr, target })
        }
        pub async fn disconnect(&self, sid: SessionId) -> Result<(), SendErrorKind> {
            self.put(Command::Disconnect(sid))
        }
        pub async fn open_protocols(&self, sid: SessionId, target: TargetProtocol) -> Result<(), SendErrorKind> {
            self.put(Command::Open(sid, target))
        }
        pub async fn set_service_notify(&self, proto: ProtocolId, interval: Duration, token: u64) -> Result<(), SendErrorKind> {
            self.put(Command::Notify(proto, interval, token))
        }
        pub async fn shutdown(&self) -> Result<(), SendErrorKind> {
            self.put(Command::Shutdown)
        }
    }

    enum Ev {
        Cmd(Command),
        Connected { addr: Multiaddr, key: PublicKey, tx: UnboundedSender<Wire>, rx: UnboundedReceiver<Wire>, target: TargetProtocol },
        Incoming(ether::Incoming),
        DialFailed(Multiaddr, DialerErrorKind),
        Wire(SessionId, Wire),
        Notify(ProtocolId, u64),
    }

    struct Proto {
        meta: ProtocolMeta,
        handle: Option<Box<dyn ServiceProtocol + Send + 'static + Unpin>>,
        receive: Option<BeforeReceive>,
        ctx: ProtocolContext,
    }
    struct Sess {
        ctx: Arc<SessionContext>,
        tx: UnboundedSender<Wire>,
        open: BTreeMap<ProtocolId, (Box<dyn Codec + Send>, BytesMut)>,
    }
    // both are only ever touched by the task that runs the service
    unsafe impl Sync for Proto {}
    unsafe impl Sync for Sess {}

    pub struct Service<H, K> {
        handle: H,
        key: K,
        max: usize,
        ctx: ServiceContext,
        protos: BTreeMap<ProtocolId, Proto>,
        sessions: BTreeMap<SessionId, Sess>,
        next: usize,
        tx: tokio::sync::mpsc::WeakUnboundedSender<Ev>,
        own: Option<UnboundedSender<Ev>>,
        rx: UnboundedReceiver<Ev>,
        at: Vec<SocketAddr>,
    }

    impl<H: ServiceHandle + Unpin, K: KeyProvider> Service<H, K> {
        pub(crate) fn new(metas: Vec<ProtocolMeta>, key: K, max: usize, handle: H) -> Self {
            let (tx, rx) = unbounded_channel();
            let w = tx.downgrade();
            let control = ServiceAsyncControl(Arc::new(Mutex::new(move |c| match w.upgrade() {
                Some(tx) => tx.send(Ev::Cmd(c)).is_ok(),
                None => false,
            })));
            let ctx = |listens| ServiceContext { listens, inner: control.clone() };
            let protos = metas
                .into_iter()
                .map(|mut meta| {
                    let id = meta.id;
                    let handle = match std::mem::replace(&mut meta.handle, ProtocolHandle::None) {
                        ProtocolHandle::Callback(h) => Some(h),
                        ProtocolHandle::None => None,
                    };
                    let receive = (meta.before_receive)();
                    (id, Proto { meta, handle, receive, ctx: ProtocolContext { inner: ctx(vec![]), proto_id: id } })
                })
                .collect();
            Service { handle, key, max, ctx: ctx(vec![]), protos, sessions: BTreeMap::new(), next: 1, tx: tx.downgrade(), own: Some(tx), rx, at: vec![] }
        }

        pub fn control(&self) -> &ServiceAsyncControl {
            &self.ctx.inner
        }

        fn pubkey(&self) -> PublicKey {
            PublicKey::from_raw_key(self.key.pubkey())
        }

        pub async fn listen(&mut self, addr: Multiaddr) -> Result<Multiaddr, TransportErrorKind> {
            let at = multiaddr_to_socketaddr(&addr).ok_or_else(|| TransportErrorKind::Io(io::ErrorKind::InvalidInput.into()))?;
            if ether::listener(&at).is_some() {
                return Err(TransportErrorKind::Io(io::ErrorKind::AddrInUse.into()));
            }
            let (accept, mut rx) = unbounded_channel();
            let tx = self.tx.clone();
            tokio::spawn(async move {
                while let Some(i) = rx.recv().await {
                    match tx.upgrade() {
                        Some(tx) => drop(tx.send(Ev::Incoming(i))),
                        None => return,
                    }
                }
            });
            ether::listen(at, ether::Listener { key: self.pubkey(), accept });
            self.at.push(at);
            self.ctx.listens.push(addr.clone());
            for p in self.protos.values_mut() {
                p.ctx.inner.listens.push(addr.clone());
            }
            self.handle.handle_event(&mut self.ctx, ServiceEvent::ListenStarted { address: addr.clone() }).await;
            Ok(addr)
        }

        pub async fn run(&mut self) {
            for p in self.protos.values_mut() {
                if let Some(h) = &mut p.handle {
                    h.init(&mut p.ctx).await;
                }
            }
            while let Some(e) = self.rx.recv().await {
                match e {
                    Ev::Cmd(Command::Shutdown) => break,
                    Ev::Cmd(c) => self.command(c).await,
                    Ev::Connected { addr, key, tx, rx, target } => {
                        if let Some(s) = self.session_of(&key) {
                            let error = DialerErrorKind::RepeatedConnection(s);
                            self.handle.handle_error(&mut self.ctx, ServiceError::DialerError { address: addr, error }).await;
                        } else {
                            let sid = self.session(addr, key, SessionType::Outbound, tx, rx).await;
                            self.open(sid, target);
                        }
                    }
                    Ev::Incoming(i) => {
                        if self.session_of(&i.from).is_none() && self.sessions.len() < self.max {
                            self.session(i.addr, i.from, SessionType::Inbound, i.tx, i.rx).await;
                        }
                    }
                    Ev::DialFailed(address, error) => {
                        self.handle.handle_error(&mut self.ctx, ServiceError::DialerError { address, error }).await
                    }
                    Ev::Wire(sid, w) => self.wire(sid, w).await,
                    Ev::Notify(id, token) => {
                        if let Some(Proto { handle: Some(h), ctx, .. }) = self.protos.get_mut(&id) {
                            h.notify(ctx, token).await
                        }
                    }
                }
            }
            for at in &self.at {
                ether::unlisten(at);
            }
            self.own = None;
        }

        fn session_of(&self, key: &PublicKey) -> Option<SessionId> {
            self.sessions.values().find(|s| s.ctx.remote_pubkey.as_ref() == Some(key)).map(|s| s.ctx.id)
        }

        async fn session(&mut self, addr: Multiaddr, key: PublicKey, ty: SessionType, tx: UnboundedSender<Wire>, mut rx: UnboundedReceiver<Wire>) -> SessionId {
            let mut address = addr;
            if extract_peer_id(&address).is_none() {
                address.push(Protocol::P2P(std::borrow::Cow::Owned(key.peer_id().into_bytes())));
            }
            let id = SessionId::new(self.next);
            self.next += 1;
            let ctx = Arc::new(SessionContext { id, address, ty, remote_pubkey: Some(key) });
            self.sessions.insert(id, Sess { ctx: Arc::clone(&ctx), tx, open: BTreeMap::new() });
            let inbox = self.tx.clone();
            tokio::spawn(async move {
                loop {
                    let w = rx.recv().await;
                    ether::delay().await;
                    let end = w.is_none();
                    match inbox.upgrade() {
                        Some(t) => drop(t.send(Ev::Wire(id, w.unwrap_or(Wire::Bye)))),
                        None => return,
                    }
                    if end {
                        return;
                    }
                }
            });
            self.handle.handle_event(&mut self.ctx, ServiceEvent::SessionOpen { session_context: ctx }).await;
            id
        }

        fn open(&mut self, sid: SessionId, target: TargetProtocol) {
            if let Some(s) = self.sessions.get(&sid) {
                let ids: Vec<_> = match target {
                    TargetProtocol::All => self.protos.keys().copied().collect(),
                    TargetProtocol::Single(i) => vec![i],
                    TargetProtocol::Multi(i) => i.collect(),
                    TargetProtocol::Filter(f) => self.protos.keys().copied().filter(|i| f(i)).collect(),
                };
                for i in ids {
                    if !s.open.contains_key(&i) && self.protos.contains_key(&i) {
                        let _ = s.tx.send(Wire::Open(i));
                    }
                }
            }
        }

        async fn opened(&mut self, sid: SessionId, id: ProtocolId) {
            if let (Some(s), Some(p)) = (self.sessions.get_mut(&sid), self.protos.get_mut(&id)) {
                if s.open.contains_key(&id) {
                    return;
                }
                s.open.insert(id, ((p.meta.codec)(), BytesMut::new()));
                let v = p.meta.version.clone();
                if let Some(h) = &mut p.handle {
                    h.connected(ProtocolContextMutRef { inner: &mut p.ctx, session: &s.ctx }, &v).await;
                }
            }
        }

        async fn wire(&mut self, sid: SessionId, w: Wire) {
            if !self.sessions.contains_key(&sid) {
                return;
            }
            match w {
                Wire::Open(id) => {
                    if self.protos.contains_key(&id) && !self.sessions[&sid].open.contains_key(&id) {
                        let _ = self.sessions[&sid].tx.send(Wire::Opened(id));
                        self.opened(sid, id).await;
                    }
                }
                Wire::Opened(id) => self.opened(sid, id).await,
                Wire::Frame(id, data) => {
                    if let Some((codec, buf)) = self.sessions.get_mut(&sid).and_then(|s| s.open.get_mut(&id)) {
                        buf.extend_from_slice(&data);
                        let p = self.protos.get_mut(&id).unwrap();
                        let mut got = Vec::new();
                        let err = loop {
                            match codec.dec(buf) {
                                Ok(None) => break None,
                                Ok(Some(b)) => match p.receive.as_ref().map(|f| f(b.clone())).unwrap_or_else(|| Ok(b.freeze())) {
                                    Ok(b) => got.push(b),
                                    Err(e) => break Some(e),
                                },
                                Err(e) => break Some(e),
                            }
                        };
                        let ctx = Arc::clone(&self.sessions[&sid].ctx);
                        for b in got {
                            if let Some(h) = &mut p.handle {
                                h.received(ProtocolContextMutRef { inner: &mut p.ctx, session: &ctx }, b).await;
                            }
                        }
                        if let Some(error) = err {
                            self.broken(sid, id, error).await
                        }
                    }
                }
                Wire::Bye => self.close(sid).await,
            }
        }

        async fn broken(&mut self, sid: SessionId, id: ProtocolId, error: io::Error) {
            if let Some(s) = self.sessions.get_mut(&sid) {
                if s.open.remove(&id).is_some() {
                    let p = self.protos.get_mut(&id).unwrap();
                    if let Some(h) = &mut p.handle {
                        h.disconnected(ProtocolContextMutRef { inner: &mut p.ctx, session: &s.ctx }).await;
                    }
                }
            }
            self.handle.handle_error(&mut self.ctx, ServiceError::ProtocolError { id: sid, proto_id: id, error }).await
        }

        async fn close(&mut self, sid: SessionId) {
            if let Some(s) = self.sessions.remove(&sid) {
                let _ = s.tx.send(Wire::Bye);
                let open: Vec<_> = s.open.keys().copied().collect();
                for id in open {
                    let p = self.protos.get_mut(&id).unwrap();
                    if let Some(h) = &mut p.handle {
                        h.disconnected(ProtocolContextMutRef { inner: &mut p.ctx, session: &s.ctx }).await;
                    }
                }
                self.handle.handle_event(&mut self.ctx, ServiceEvent::SessionClose { session_context: s.ctx }).await;
            }
        }

        async fn command(&mut self, c: Command) {
            match c {
                Command::Send { target, proto, data, .. } => {
                    let ids: Vec<SessionId> = match target {
                        TargetSession::All => self.sessions.keys().copied().collect(),
                        TargetSession::Filter(mut f) => self.sessions.keys().copied().filter(|i| f(i)).collect(),
                        TargetSession::Multi(i) => i.collect(),
                        TargetSession::Single(i) => vec![i],
                    };
                    let data = match self.protos.get(&proto) {
                        Some(p) => p.meta.before_send.as_ref().map(|f| f(data.clone())).unwrap_or(data),
                        None => return,
                    };
                    let mut bad = Vec::new();
                    for i in ids {
                        if let Some(s) = self.sessions.get_mut(&i) {
                            if let Some((codec, _)) = s.open.get_mut(&proto) {
                                let mut b = BytesMut::new();
                                match codec.enc(data.clone(), &mut b) {
                                    Ok(()) => drop(s.tx.send(Wire::Frame(proto, b.freeze()))),
                                    Err(e) => bad.push((i, e)),
                                }
                            }
                        }
                    }
                    for (i, e) in bad {
                        self.broken(i, proto, e).await
                    }
                }
                Command::Dial { addr, target } => {
                    let (me, inbox) = (self.pubkey(), self.tx.clone());
                    let seen = self.ctx.listens.first().cloned();
                    let full = self.sessions.len() >= self.max;
                    let self_id = me.peer_id();
                    tokio::spawn(async move {
                        ether::delay().await;
                        let refused = |k: io::ErrorKind| DialerErrorKind::TransportError(TransportErrorKind::Io(k.into()));
                        let r = match multiaddr_to_socketaddr(&addr) {
                            _ if full => Err(refused(io::ErrorKind::Other)),
                            None => Err(refused(io::ErrorKind::InvalidInput)),
                            Some(to) => match ether::listener(&to) {
                                None => Err(refused(io::ErrorKind::ConnectionRefused)),
                                Some(l) if l.key.peer_id() == self_id => {
                                    ether::self_dial(self_id, to);
                                    Err(DialerErrorKind::HandshakeError(HandshakeErrorKind::SecioError(SecioError::ConnectSelf)))
                                }
                                Some(l) if extract_peer_id(&addr).map_or(false, |i| i != l.key.peer_id()) => Err(DialerErrorKind::PeerIdNotMatch),
                                Some(_) => {
                                    let from = seen.unwrap_or_else(|| "/ip4/9.9.9.9/tcp/9".parse().unwrap());
                                    ether::connect(me, from, to).ok_or_else(|| refused(io::ErrorKind::ConnectionReset))
                                }
                            },
                        };
                        if let Some(t) = inbox.upgrade() {
                            let _ = t.send(match r {
                                Ok((key, tx, rx)) => Ev::Connected { addr, key, tx, rx, target },
                                Err(e) => Ev::DialFailed(addr, e),
                            });
                        }
                    });
                }
                Command::Disconnect(i) => self.close(i).await,
                Command::Open(i, t) => self.open(i, t),
                Command::Notify(id, every, token) => {
                    let inbox = self.tx.clone();
                    tokio::spawn(async move {
                        loop {
                            tokio::time::sleep(every).await;
                            match inbox.upgrade() {
                                Some(t) => drop(t.send(Ev::Notify(id, token))),
                                None => return,
                            }
                        }
                    });
                }
                Command::Shutdown => (),
            }
        }
    }

    impl<H, K> Drop for Service<H, K> {
        fn drop(&mut self) {
            for at in &self.at {
                ether::unlisten(at);
            }
        }
    }
}
