//! The harness's side of the simulated servers.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

use jsonrpsee_types::{ErrorObjectOwned, Id, Params, Request};
use serde::Deserialize;
use serde_json::value::RawValue;
use tokio::sync::{mpsc, oneshot};

use crate::server::{Answer, Handler, Kind, Methods, PendingSubscriptionSink, Settings};

pub(crate) type Subs = Arc<Mutex<HashMap<String, Arc<AtomicBool>>>>;

struct Listener {
    set:     Settings,
    methods: Methods,
    conns:   Arc<AtomicU32>,
}

static LISTENERS: Mutex<Option<HashMap<SocketAddr, Arc<Listener>>>> = Mutex::new(None);

pub(crate) fn listen(addr: SocketAddr, set: Settings, methods: Methods) {
    let l = Arc::new(Listener { set, methods, conns: Default::default() });
    LISTENERS.lock().unwrap().get_or_insert_with(HashMap::new).insert(addr, l);
}

pub fn unlisten(addr: SocketAddr) {
    if let Some(m) = LISTENERS.lock().unwrap().as_mut() {
        m.remove(&addr);
    }
}

pub fn listening(addr: SocketAddr) -> bool {
    LISTENERS.lock().unwrap().as_ref().map_or(false, |m| m.contains_key(&addr))
}

/// The names a server answers to.
pub fn methods(addr: SocketAddr) -> Vec<String> {
    let mut v: Vec<String> = LISTENERS
        .lock()
        .unwrap()
        .as_ref()
        .and_then(|m| m.get(&addr))
        .map(|l| l.methods.0.keys().map(|k| k.to_string()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn listener(addr: SocketAddr, want: Kind) -> Option<Arc<Listener>> {
    let l = LISTENERS.lock().unwrap().as_ref()?.get(&addr).cloned()?;
    (l.set.kind == Kind::Both || l.set.kind == want).then_some(l)
}

struct Held(Arc<AtomicU32>);

impl Drop for Held {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

fn admit(l: &Listener) -> Option<Held> {
    if l.conns.fetch_add(1, Ordering::SeqCst) >= l.set.max_conns {
        l.conns.fetch_sub(1, Ordering::SeqCst);
        return None;
    }
    Some(Held(Arc::clone(&l.conns)))
}

fn err(code: i32, msg: &str) -> ErrorObjectOwned {
    ErrorObjectOwned::owned(code, msg, None::<()>)
}

fn render(id: &str, a: Answer, max: u32) -> String {
    let body = match &a {
        Ok(v) => format!(r#""result":{}"#, v.get()),
        Err(e) => format!(r#""error":{}"#, serde_json::to_string(e).expect("an error is JSON")),
    };
    let text = format!(r#"{{"jsonrpc":"2.0",{body},"id":{id}}}"#);
    if text.len() > max as usize {
        return render(id, Err(err(-32008, "Response is too big")), u32::MAX);
    }
    text
}

/// The id of something that is not a request.
fn stray_id(raw: &str) -> String {
    #[derive(Deserialize)]
    struct OnlyId {
        id: Box<RawValue>,
    }
    serde_json::from_str::<OnlyId>(raw)
        .ok()
        .filter(|o| serde_json::from_str::<Id>(o.id.get()).is_ok())
        .map_or_else(|| "null".to_string(), |o| o.id.get().to_string())
}

struct Ws {
    out:  mpsc::Sender<String>,
    subs: Subs,
}

async fn one(l: &Listener, raw: &str, ws: Option<&Ws>) -> Option<String> {
    #[derive(Deserialize)]
    #[allow(dead_code)]
    struct Notice<'a> {
        jsonrpc: jsonrpsee_types::TwoPointZero,
        method:  std::borrow::Cow<'a, str>,
    }
    let max = l.set.max_response;
    let req: Request = match serde_json::from_str(raw) {
        Ok(r) => r,
        Err(_) if serde_json::from_str::<Notice>(raw).is_ok() && stray_id(raw) == "null" && !has_id(raw) => return None,
        Err(_) if serde_json::from_str::<&RawValue>(raw).is_ok() => {
            return Some(render(&stray_id(raw), Err(err(-32600, "Invalid request")), max))
        }
        Err(_) => return Some(render("null", Err(err(-32700, "Parse error")), max)),
    };
    let id = serde_json::to_string(&req.id).expect("an id is JSON");
    let params = Params::new(req.params.map(|p| p.get())).into_owned();
    let answer = match l.methods.0.get(req.method.as_ref()) {
        None => Err(err(-32601, "Method not found")),
        Some(Handler::Sync(f)) => f(params),
        Some(Handler::Async(f)) => f(params).await,
        Some(Handler::Subscribe(notif, f)) => match ws {
            None => Err(err(-32603, "Internal error")),
            Some(ws) => {
                let (tx, rx) = oneshot::channel();
                let sink = PendingSubscriptionSink {
                    reply:  Some(tx),
                    out:    ws.out.clone(),
                    subs:   Arc::clone(&ws.subs),
                    id:     l.set.ids.next_id(),
                    method: notif,
                };
                tokio::spawn(f(params, sink));
                rx.await.unwrap_or_else(|_| Err(err(-32603, "Internal error")))
            }
        },
        Some(Handler::Unsubscribe) => match ws {
            None => Err(err(-32603, "Internal error")),
            Some(ws) => {
                let found = params
                    .one::<jsonrpsee_types::SubscriptionId>()
                    .ok()
                    .and_then(|id| serde_json::to_string(&id).ok())
                    .and_then(|key| ws.subs.lock().unwrap().remove(&key))
                    .map(|live| live.store(false, Ordering::SeqCst))
                    .is_some();
                Ok(serde_json::value::to_raw_value(&found).expect("a bool is JSON"))
            }
        },
    };
    Some(render(&id, answer, max))
}

fn has_id(raw: &str) -> bool {
    serde_json::from_str::<serde_json::Map<String, serde_json::Value>>(raw).map_or(false, |m| m.contains_key("id"))
}

async fn serve(l: &Listener, text: &str, ws: Option<&Ws>) -> Option<String> {
    if text.len() > l.set.max_request as usize {
        return Some(render("null", Err(err(-32007, "Request is too big")), u32::MAX));
    }
    match text.bytes().find(|b| !b.is_ascii_whitespace()) {
        Some(b'{') => one(l, text, ws).await,
        Some(b'[') => {
            let Ok(all) = serde_json::from_str::<Vec<&RawValue>>(text) else {
                return Some(render("null", Err(err(-32700, "Parse error")), u32::MAX));
            };
            if all.is_empty() {
                return Some(render("null", Err(err(-32600, "Invalid request")), u32::MAX));
            }
            let mut out = Vec::new();
            for r in all {
                if let Some(a) = one(l, r.get(), ws).await {
                    out.push(a);
                    if out.iter().map(|a| a.len() + 1).sum::<usize>() > l.set.max_response as usize {
                        return Some(render("null", Err(err(-32011, "The batch response was too large")), u32::MAX));
                    }
                }
            }
            (!out.is_empty()).then(|| format!("[{}]", out.join(",")))
        }
        _ => Some(render("null", Err(err(-32700, "Parse error")), u32::MAX)),
    }
}

/// One HTTP POST.  `None` inside: no body (a notification); `Err`: the server refused the connection.
pub async fn post(addr: SocketAddr, text: &str) -> Result<Option<String>, &'static str> {
    let l = listener(addr, Kind::Http).ok_or("refused")?;
    let _held = admit(&l).ok_or("too many connections")?;
    Ok(serve(&l, text, None).await)
}

/// A WebSocket connection; dropped, it is closed.
pub struct Socket {
    l:     Arc<Listener>,
    ws:    Arc<Ws>,
    inbox: mpsc::Receiver<String>,
    _held: Held,
}

impl Socket {
    /// `buffer`: messages the server holds for a slow reader before it waits (jsonrpsee's default is 1024).
    pub fn open(addr: SocketAddr, buffer: usize) -> Option<Socket> {
        let l = listener(addr, Kind::Ws)?;
        let held = admit(&l)?;
        let (out, inbox) = mpsc::channel(buffer);
        Some(Socket { l, ws: Arc::new(Ws { out, subs: Default::default() }), inbox, _held: held })
    }

    /// Sends a text; the answer, if any, arrives in the inbox.
    pub fn send(&self, text: String) {
        let (l, ws) = (Arc::clone(&self.l), Arc::clone(&self.ws));
        tokio::spawn(async move {
            if let Some(a) = serve(&l, &text, Some(&ws)).await {
                let _ = ws.out.send(a).await;
            }
        });
    }

    pub async fn recv(&mut self) -> Option<String> {
        self.inbox.recv().await
    }

    pub fn try_recv(&mut self) -> Option<String> {
        self.inbox.try_recv().ok()
    }
}
