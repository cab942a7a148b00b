use std::collections::HashMap;
use std::fmt::{self, Debug};
use std::future::Future;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

use futures::future::BoxFuture;
use jsonrpsee_types::{ErrorObjectOwned, Params, ResponsePayload, SubscriptionId};
use serde::Serialize;
use serde_json::value::RawValue;
use tokio::sync::{mpsc, oneshot};

use crate::sim;

pub(crate) type Answer = Result<Box<RawValue>, ErrorObjectOwned>;

/// What a method may return.
pub trait IntoResponse {
    type Output: Serialize + Clone + Send + Sync + 'static;

    fn into_response(self) -> ResponsePayload<'static, Self::Output>;
}

impl<T, E> IntoResponse for Result<T, E>
where
    T: Serialize + Clone + Send + Sync + 'static,
    E: Into<ErrorObjectOwned>,
{
    type Output = T;

    fn into_response(self) -> ResponsePayload<'static, T> {
        match self {
            Ok(v) => ResponsePayload::result(v),
            Err(e) => ResponsePayload::Error(e.into()),
        }
    }
}

impl<T: Serialize + Clone + Send + Sync + 'static> IntoResponse for ResponsePayload<'static, T> {
    type Output = T;

    fn into_response(self) -> ResponsePayload<'static, T> {
        self
    }
}

fn answer<R: IntoResponse>(r: R) -> Answer {
    match r.into_response() {
        ResponsePayload::Error(e) => Err(e.into_owned()),
        ResponsePayload::Result(v) => serde_json::value::to_raw_value(v.as_ref()).map_err(|e| {
            ErrorObjectOwned::owned(-32603, format!("cannot serialise: {e}"), None::<()>)
        }),
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct RegisterMethodError(pub String);

impl fmt::Display for RegisterMethodError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Method: {} was already registered", self.0)
    }
}

impl std::error::Error for RegisterMethodError {}

#[derive(Clone)]
pub(crate) enum Handler {
    Sync(Arc<dyn Fn(Params<'static>) -> Answer + Send + Sync>),
    Async(Arc<dyn Fn(Params<'static>) -> BoxFuture<'static, Answer> + Send + Sync>),
    Subscribe(
        &'static str,
        Arc<
            dyn Fn(Params<'static>, PendingSubscriptionSink) -> BoxFuture<'static, Option<SubscriptionMessage>>
                + Send
                + Sync,
        >,
    ),
    Unsubscribe,
}

#[derive(Clone, Default)]
pub struct Methods(pub(crate) HashMap<&'static str, Handler>);

impl Methods {
    fn insert(&mut self, name: &'static str, h: Handler) -> Result<(), RegisterMethodError> {
        if self.0.contains_key(name) {
            return Err(RegisterMethodError(name.to_string()));
        }
        self.0.insert(name, h);
        Ok(())
    }
}

pub struct RpcModule<C> {
    ctx:     Arc<C>,
    methods: Methods,
}

impl<C> Clone for RpcModule<C> {
    fn clone(&self) -> Self {
        RpcModule { ctx: Arc::clone(&self.ctx), methods: self.methods.clone() }
    }
}

impl<C> From<RpcModule<C>> for Methods {
    fn from(m: RpcModule<C>) -> Methods {
        m.methods
    }
}

impl<C: Send + Sync + 'static> RpcModule<C> {
    pub fn new(ctx: C) -> Self {
        RpcModule { ctx: Arc::new(ctx), methods: Methods::default() }
    }

    pub fn method_names(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.methods.0.keys().copied()
    }

    pub fn merge(&mut self, other: impl Into<Methods>) -> Result<(), RegisterMethodError> {
        let other = other.into();
        if let Some(n) = other.0.keys().find(|n| self.methods.0.contains_key(*n)) {
            return Err(RegisterMethodError(n.to_string()));
        }
        self.methods.0.extend(other.0);
        Ok(())
    }

    pub fn register_method<R, F>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
    where
        R: IntoResponse + 'static,
        F: Fn(Params, &C) -> R + Send + Sync + 'static,
    {
        let ctx = Arc::clone(&self.ctx);
        self.methods.insert(name, Handler::Sync(Arc::new(move |p| answer(f(p, &ctx)))))
    }

    pub fn register_async_method<R, Fun, Fut>(&mut self, name: &'static str, f: Fun) -> Result<(), RegisterMethodError>
    where
        R: IntoResponse + 'static,
        Fut: Future<Output = R> + Send,
        Fun: (Fn(Params<'static>, Arc<C>) -> Fut) + Clone + Send + Sync + 'static,
    {
        let ctx = Arc::clone(&self.ctx);
        self.methods.insert(
            name,
            Handler::Async(Arc::new(move |p| {
                let (f, ctx) = (f.clone(), Arc::clone(&ctx));
                Box::pin(async move { answer(f(p, ctx).await) })
            })),
        )
    }

    pub fn register_alias(&mut self, alias: &'static str, name: &'static str) -> Result<(), RegisterMethodError> {
        let h = self.methods.0.get(name).cloned().ok_or_else(|| RegisterMethodError(name.to_string()))?;
        self.methods.insert(alias, h)
    }

    pub fn register_subscription<R, F, Fut>(
        &mut self,
        name: &'static str,
        notif: &'static str,
        unsub: &'static str,
        f: F,
    ) -> Result<(), RegisterMethodError>
    where
        F: (Fn(Params<'static>, PendingSubscriptionSink, Arc<C>) -> Fut) + Send + Sync + Clone + 'static,
        Fut: Future<Output = R> + Send + 'static,
        R: IntoSubscriptionCloseResponse + Send,
    {
        let ctx = Arc::clone(&self.ctx);
        self.methods.insert(unsub, Handler::Unsubscribe)?;
        self.methods.insert(
            name,
            Handler::Subscribe(
                notif,
                Arc::new(move |p, sink| {
                    let (f, ctx) = (f.clone(), Arc::clone(&ctx));
                    Box::pin(async move {
                        match f(p, sink, ctx).await.into_response() {
                            SubscriptionCloseResponse::None => None,
                            SubscriptionCloseResponse::Notif(m) => Some(m),
                        }
                    })
                }),
            ),
        )
    }
}

// ---------------------------------------------------------------------------------------------- subscriptions

/// A notification payload.
#[derive(Clone, Debug)]
pub struct SubscriptionMessage(pub(crate) Box<RawValue>);

impl SubscriptionMessage {
    pub fn from_json(v: &impl Serialize) -> Result<Self, serde_json::Error> {
        serde_json::value::to_raw_value(v).map(SubscriptionMessage)
    }
}

pub enum SubscriptionCloseResponse {
    None,
    Notif(SubscriptionMessage),
}

#[derive(Debug, Clone)]
pub struct StringError(String);

impl<T: ToString> From<T> for StringError {
    fn from(v: T) -> Self {
        StringError(v.to_string())
    }
}

pub trait IntoSubscriptionCloseResponse {
    fn into_response(self) -> SubscriptionCloseResponse;
}

impl IntoSubscriptionCloseResponse for () {
    fn into_response(self) -> SubscriptionCloseResponse {
        SubscriptionCloseResponse::None
    }
}

impl IntoSubscriptionCloseResponse for SubscriptionCloseResponse {
    fn into_response(self) -> SubscriptionCloseResponse {
        self
    }
}

impl IntoSubscriptionCloseResponse for Result<(), StringError> {
    fn into_response(self) -> SubscriptionCloseResponse {
        match self {
            Ok(()) => SubscriptionCloseResponse::None,
            Err(e) => SubscriptionCloseResponse::Notif(
                SubscriptionMessage::from_json(&e.0).expect("a string is JSON"),
            ),
        }
    }
}

#[derive(Debug)]
pub struct PendingSubscriptionAcceptError;

impl fmt::Display for PendingSubscriptionAcceptError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the remote peer closed the connection or called unsubscribe")
    }
}

impl std::error::Error for PendingSubscriptionAcceptError {}

#[derive(Debug)]
pub struct DisconnectError(pub SubscriptionMessage);

impl fmt::Display for DisconnectError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("the client is gone or has unsubscribed")
    }
}

impl std::error::Error for DisconnectError {}

/// A subscription the server has not answered yet.  Dropped without an answer, it is refused.
pub struct PendingSubscriptionSink {
    pub(crate) reply:  Option<oneshot::Sender<Answer>>,
    pub(crate) out:    mpsc::Sender<String>,
    pub(crate) subs:   sim::Subs,
    pub(crate) id:     SubscriptionId<'static>,
    pub(crate) method: &'static str,
}

impl PendingSubscriptionSink {
    pub async fn reject(mut self, err: impl Into<ErrorObjectOwned>) {
        if let Some(tx) = self.reply.take() {
            let _ = tx.send(Err(err.into()));
        }
    }

    pub async fn accept(mut self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> {
        let tx = self.reply.take().expect("answered once");
        let id = serde_json::value::to_raw_value(&self.id).expect("an id is JSON");
        let live = Arc::new(AtomicBool::new(true));
        let key = serde_json::to_string(&self.id).expect("an id is JSON");
        self.subs.lock().unwrap().insert(key.clone(), Arc::clone(&live));
        if self.out.is_closed() || tx.send(Ok(id)).is_err() {
            self.subs.lock().unwrap().remove(&key);
            return Err(PendingSubscriptionAcceptError);
        }
        Ok(SubscriptionSink {
            out: self.out.clone(),
            subs: Arc::clone(&self.subs),
            key,
            live,
            id: self.id.clone(),
            method: self.method,
        })
    }

    pub fn subscription_id(&self) -> SubscriptionId<'static> {
        self.id.clone()
    }
}

impl Drop for PendingSubscriptionSink {
    fn drop(&mut self) {
        if let Some(tx) = self.reply.take() {
            let _ = tx.send(Err(ErrorObjectOwned::owned(-32603, "Internal error", None::<()>)));
        }
    }
}

/// The sending end of an accepted subscription.
#[derive(Clone)]
pub struct SubscriptionSink {
    out:    mpsc::Sender<String>,
    subs:   sim::Subs,
    key:    String,
    live:   Arc<AtomicBool>,
    id:     SubscriptionId<'static>,
    method: &'static str,
}

impl Debug for SubscriptionSink {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SubscriptionSink({:?})", self.id)
    }
}

impl SubscriptionSink {
    fn text(&self, msg: &SubscriptionMessage) -> String {
        format!(
            r#"{{"jsonrpc":"2.0","method":"{}","params":{{"subscription":{},"result":{}}}}}"#,
            self.method,
            self.key,
            msg.0.get()
        )
    }

    /// Waits for room in the connection's buffer.
    pub async fn send(&self, msg: SubscriptionMessage) -> Result<(), DisconnectError> {
        if self.is_closed() {
            return Err(DisconnectError(msg));
        }
        let text = self.text(&msg);
        self.out.send(text).await.map_err(|_| DisconnectError(msg))
    }

    pub async fn send_timeout(
        &self,
        msg: SubscriptionMessage,
        timeout: std::time::Duration,
    ) -> Result<(), SendTimeoutError> {
        match tokio::time::timeout(timeout, self.send(msg.clone())).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(_)) => Err(SendTimeoutError::Closed(msg)),
            Err(_) => Err(SendTimeoutError::Timeout(msg)),
        }
    }

    pub fn try_send(&mut self, msg: SubscriptionMessage) -> Result<(), TrySendError> {
        if self.is_closed() {
            return Err(TrySendError::Closed(msg));
        }
        self.out.try_send(self.text(&msg)).map_err(|e| match e {
            mpsc::error::TrySendError::Full(_) => TrySendError::Full(msg),
            mpsc::error::TrySendError::Closed(_) => TrySendError::Closed(msg),
        })
    }

    pub fn is_closed(&self) -> bool {
        self.out.is_closed() || !self.live.load(Ordering::SeqCst)
    }

    pub async fn closed(&self) {
        while !self.is_closed() {
            tokio::time::sleep(std::time::Duration::from_millis(5)).await;
        }
    }

    pub fn method_name(&self) -> &str {
        self.method
    }

    pub fn subscription_id(&self) -> SubscriptionId<'static> {
        self.id.clone()
    }
}

impl Drop for SubscriptionSink {
    fn drop(&mut self) {
        // clones share `live`: two references are the map's and this one's
        if Arc::strong_count(&self.live) <= 2 {
            self.subs.lock().unwrap().remove(&self.key);
        }
    }
}

#[derive(Debug)]
pub enum TrySendError {
    Closed(SubscriptionMessage),
    Full(SubscriptionMessage),
}

#[derive(Debug)]
pub enum SendTimeoutError {
    Timeout(SubscriptionMessage),
    Closed(SubscriptionMessage),
}

pub trait IdProvider: Send + Sync + Debug {
    fn next_id(&self) -> SubscriptionId<'static>;
}

#[derive(Debug)]
pub(crate) struct Counter(std::sync::atomic::AtomicU64);

impl IdProvider for Counter {
    fn next_id(&self) -> SubscriptionId<'static> {
        SubscriptionId::Num(self.0.fetch_add(7919, Ordering::SeqCst) & 0x1f_ffff_ffff_ffff)
    }
}

// ------------------------------------------------------------------------------------------------------ server

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(crate) enum Kind {
    Both,
    Http,
    Ws,
}

#[derive(Clone)]
pub(crate) struct Settings {
    pub kind:         Kind,
    pub max_request:  u32,
    pub max_response: u32,
    pub max_conns:    u32,
    pub ids:          Arc<dyn IdProvider>,
}

pub struct ServerBuilder<L = ()> {
    set:         Settings,
    _middleware: L,
}

impl Default for ServerBuilder<()> {
    fn default() -> Self {
        Self::new()
    }
}

impl ServerBuilder<()> {
    pub fn new() -> Self {
        ServerBuilder {
            set:         Settings {
                kind:         Kind::Both,
                max_request:  10 * 1024 * 1024,
                max_response: 10 * 1024 * 1024,
                max_conns:    100,
                ids:          Arc::new(Counter(Default::default())),
            },
            _middleware: (),
        }
    }
}

impl<L> ServerBuilder<L> {
    pub fn http_only(mut self) -> Self {
        self.set.kind = Kind::Http;
        self
    }

    pub fn ws_only(mut self) -> Self {
        self.set.kind = Kind::Ws;
        self
    }

    pub fn max_request_body_size(mut self, n: u32) -> Self {
        self.set.max_request = n;
        self
    }

    pub fn max_response_body_size(mut self, n: u32) -> Self {
        self.set.max_response = n;
        self
    }

    pub fn max_connections(mut self, n: u32) -> Self {
        self.set.max_conns = n;
        self
    }

    pub fn set_id_provider<I: IdProvider + 'static>(mut self, ids: I) -> Self {
        self.set.ids = Arc::new(ids);
        self
    }

    pub fn set_middleware<M>(self, m: M) -> ServerBuilder<M> {
        ServerBuilder { set: self.set, _middleware: m }
    }

    pub async fn build(self, addr: SocketAddr) -> Result<Server, std::io::Error> {
        Ok(Server { set: self.set, addr })
    }
}

pub struct Server {
    set:  Settings,
    addr: SocketAddr,
}

impl Server {
    pub fn local_addr(&self) -> Result<SocketAddr, std::io::Error> {
        Ok(self.addr)
    }

    pub fn start(self, methods: impl Into<Methods>) -> ServerHandle {
        sim::listen(self.addr, self.set, methods.into());
        ServerHandle { addr: self.addr }
    }
}

#[derive(Clone, Debug)]
pub struct ServerHandle {
    addr: SocketAddr,
}

impl ServerHandle {
    pub fn stop(&self) -> Result<(), std::io::Error> {
        sim::unlisten(self.addr);
        Ok(())
    }

    pub async fn stopped(self) {
        while sim::listening(self.addr) {
            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
        }
    }

    pub fn is_stopped(&self) -> bool {
        !sim::listening(self.addr)
    }
}
