//! The network as the node uses it: everything sent is recorded, nobody is there.
use futures::future::BoxFuture;
use protocol::traits::{Context, Gossip, Network, PeerTag, MessageCodec, PeerTrust, Priority, Rpc, TrustFeedback};
use protocol::types::Bytes;
use protocol::{async_trait, ProtocolError, ProtocolResult};
use std::sync::{Arc, Mutex};

type Answer = Arc<dyn Fn(String, Bytes) -> BoxFuture<'static, ProtocolResult<Bytes>> + Send + Sync>;
type Deliver = Arc<dyn Fn(Option<usize>, Bytes) -> BoxFuture<'static, ()> + Send + Sync>;
#[derive(Default)]
pub struct Inner {
    pub reports: Mutex<Vec<TrustFeedback>>,
    pub gossips: Mutex<Vec<(Option<usize>, String, Bytes)>>,
    pub responses: Mutex<Vec<(String, Result<Bytes, String>)>>,
    pub answer: Mutex<Option<Answer>>,
    pub deliver: Mutex<Option<Deliver>>,
}
#[derive(Clone, Default)]
pub struct Net(pub Arc<Inner>);

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let b = msg.encode_msg()?;
        let f = self.0.answer.lock().unwrap().clone();
        let out = match f {
            Some(f) => f(end.to_owned(), b).await?,
            None => return Err(Refused("nobody answers").into()),
        };
        R::decode_msg(out)
    }
    async fn response<M: MessageCodec>(&self, _: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        let ret = match ret {
            Ok(mut m) => Ok(m.encode_msg()?),
            Err(e) => Err(e.to_string()),
        };
        self.0.responses.lock().unwrap().push((end.to_owned(), ret));
        Ok(())
    }
}
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, cx: Context, end: &str, msg: M, p: Priority) -> ProtocolResult<()> {
        self.gossip(cx, None, end, msg, p).await
    }
    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let b = msg.encode_msg()?;
        self.0.gossips.lock().unwrap().push((origin, end.to_owned(), b.clone()));
        let f = self.0.deliver.lock().unwrap().clone();
        if let Some(f) = f {
            f(origin, b).await;
        }
        Ok(())
    }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> {
        Ok(())
    }
}
impl PeerTrust for Net {
    fn report(&self, _: Context, f: TrustFeedback) {
        self.0.reports.lock().unwrap().push(f);
    }
}
impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        Ok(())
    }
    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> {
        Ok(())
    }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(PEERS)
    }
}
pub const PEERS: usize = 42;

#[derive(Debug)]
pub struct Refused(pub &'static str);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Refused {}
impl From<Refused> for ProtocolError {
    fn from(e: Refused) -> ProtocolError {
        ProtocolError::new(protocol::ProtocolErrorKind::Network, Box::new(e))
    }
}
