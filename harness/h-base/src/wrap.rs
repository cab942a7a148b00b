//! P13: functions wrapped by the real `trace_span` and `metrics_rpc` macros.  The tracer they report to is the real
//! jaeger tracer library feeding a channel, the counters are this file's own; a random tree of calls is run and its
//! spans, counters and results are compared with the tree.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use common_apm_derive::{metrics_rpc, trace_span};
use protocol::traits::Context;
use protocol::{async_trait, tokio};
use rustracing_jaeger::span::{SpanContext, SpanContextStateBuilder, SpanReceiver, TraceId};
use serde_json::{json, Value};
use vlib::{Ctx, Rng};

/// what the macros' expansion refers to
mod common_apm {
    pub struct Instant(std::time::Instant);
    impl Instant {
        pub fn now() -> Self {
            Instant(std::time::Instant::now())
        }
        pub fn elapsed(&self) -> std::time::Duration {
            self.0.elapsed()
        }
    }
    pub mod metrics {
        pub fn duration_to_sec(d: std::time::Duration) -> f64 {
            d.as_secs_f64()
        }
        pub mod api {
            use std::sync::atomic::{AtomicU64, Ordering};
            /// a counter, or the number of observations and the last one's nanoseconds
            pub struct Count(pub AtomicU64, pub AtomicU64);
            impl Count {
                pub const fn new() -> Self {
                    Count(AtomicU64::new(0), AtomicU64::new(0))
                }
                pub fn inc(&self) {
                    self.0.fetch_add(1, Ordering::SeqCst);
                }
                pub fn observe(&self, s: f64) {
                    self.1.store((s * 1e9) as u64, Ordering::SeqCst);
                    self.inc()
                }
            }
            pub struct Pair {
                pub success: Count,
                pub failure: Count,
            }
            #[allow(non_snake_case)]
            pub struct Both {
                pub eth_first: Pair,
                pub eth_second: Pair,
                pub net_third: Pair,
            }
            #[allow(non_snake_case)]
            pub struct Times {
                pub eth_first: Count,
                pub eth_second: Count,
                pub net_third: Count,
            }
            const P: Pair = Pair { success: Count::new(), failure: Count::new() };
            pub static API_REQUEST_RESULT_COUNTER_VEC_STATIC: Both = Both { eth_first: P, eth_second: P, net_third: P };
            pub static API_REQUEST_TIME_HISTOGRAM_STATIC: Times = Times { eth_first: Count::new(), eth_second: Count::new(), net_third: Count::new() };
        }
    }
    pub mod tracing {
        pub use rustracing::{log::LogField, tag::Tag};
        pub use rustracing_jaeger::span::SpanContext;
        use arc_swap::ArcSwap;
        use rustracing_jaeger::span::Span;
        use std::sync::Arc;

        pub struct Tracer(pub Option<rustracing_jaeger::Tracer>);
        impl Tracer {
            pub fn child_of_span(&self, name: impl Into<String>, parent: SpanContext, tags: Vec<Tag>) -> Option<Span> {
                let mut s = self.0.as_ref()?.span(name.into());
                for t in tags {
                    s = s.tag(t);
                }
                Some(s.child_of(&parent).start())
            }
            pub fn span(&self, name: impl Into<String>, tags: Vec<Tag>) -> Option<Span> {
                let mut s = self.0.as_ref()?.span(name.into());
                for t in tags {
                    s = s.tag(t);
                }
                Some(s.start())
            }
        }
        pub struct Global;
        thread_local! {
            static T: ArcSwap<Tracer> = ArcSwap::new(Arc::new(Tracer(None)));
        }
        impl Global {
            pub fn load(&self) -> Arc<Tracer> {
                T.with(|t| t.load_full())
            }
            pub fn set(&self, n: Tracer) {
                T.with(|t| t.store(Arc::new(n)))
            }
        }
        #[allow(non_upper_case_globals)]
        pub static TRACER: Global = Global;
    }
}
use common_apm::tracing::{Tracer, TRACER};

type ProtocolResult<T> = Result<T, String>;

/// one call of the tree
#[derive(Clone, Debug)]
struct Plan {
    kind: usize,
    n: u64,
    text: String,
    fails: bool,
    yields: bool,
    nested: Vec<Plan>,
}

#[derive(Default)]
struct Real {
    runs: AtomicU64,
    begun: AtomicU64,
    /// the how many-th call to begin panics; none if zero
    bomb: u64,
    /// every call gives way to others once before it goes on
    slow: bool,
    /// the nanoseconds the body itself saw go by
    took: AtomicU64,
}

const BOMB: &str = "the bomb went off";

impl Real {
    fn begin(&self) {
        if self.begun.fetch_add(1, Ordering::SeqCst) + 1 == self.bomb {
            panic!("{BOMB}");
        }
    }
    /// the body every wrapped function runs
    fn answer(&self, p: &Plan) -> ProtocolResult<u64> {
        if self.slow && p.nested.is_empty() && p.yields {
            let t = std::time::Instant::now();
            while t.elapsed().as_micros() < 20 {}
            self.took.store(t.elapsed().as_nanos() as u64, Ordering::SeqCst);
        }
        self.runs.fetch_add(1, Ordering::SeqCst);
        if p.fails {
            Err(format!("bad {} {}", p.n, p.text))
        } else {
            Ok(p.n.rotate_left(7) ^ p.text.len() as u64)
        }
    }
    fn below<'a>(&'a self, ctx: &'a Context, p: &'a Plan) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'a>> {
        Box::pin(async move {
            if self.slow {
                tokio::task::yield_now().await;
            }
            for k in &p.nested {
                if k.yields {
                    tokio::task::yield_now().await;
                }
                check_call(self, ctx.clone(), k).await;
            }
        })
    }
}

#[async_trait]
trait Service {
    async fn store(&self, ctx: Context, plan: &Plan) -> ProtocolResult<u64>;
    async fn named(&self, ctx: Context, plan: Plan, extra: u64) -> ProtocolResult<u64>;
    async fn plain(&self, ctx: Context, plan: Plan) -> u64;
    async fn early(&self, ctx: Context, plan: Plan) -> ProtocolResult<u64>;
    fn version(&self, ctx: Context, plan: &Plan) -> String;
    fn checked(&self, ctx: Context, plan: &Plan) -> ProtocolResult<u64>;
}

#[async_trait]
impl Service for Real {
    #[trace_span(kind = "trace", logs = "{n: plan.n, text: plan.text}")]
    async fn store(&self, ctx: Context, plan: &Plan) -> ProtocolResult<u64> {
        self.begin();
        self.below(&ctx, plan).await;
        self.answer(plan)
    }
    #[trace_span(kind = "svc.deep", name = "other_name", tags = "{kind: client, twice: extra.wrapping_mul(2), free: not an expression}", logs = "{len: plan.text.len()}")]
    async fn named(&self, ctx: Context, plan: Plan, extra: u64) -> ProtocolResult<u64> {
        self.begin();
        self.below(&ctx, &plan).await;
        let _ = extra;
        self.answer(&plan)
    }
    #[trace_span(kind = "trace", tags = "{fails: plan.fails}")]
    async fn plain(&self, ctx: Context, plan: Plan) -> u64 {
        self.begin();
        self.below(&ctx, &plan).await;
        self.answer(&plan).unwrap_or(u64::MAX)
    }
    #[trace_span(kind = "trace", name = "early_return")]
    async fn early(&self, ctx: Context, plan: Plan) -> ProtocolResult<u64> {
        self.begin();
        let out = self.answer(&plan);
        if plan.fails {
            return out;
        }
        self.below(&ctx, &plan).await;
        let v = out?;
        Ok(v)
    }
    #[trace_span(kind = "trace", logs = "{n: plan.n}")]
    fn version(&self, ctx: Context, plan: &Plan) -> String {
        self.begin();
        let child = ctx.get::<Option<SpanContext>>("parent_span_ctx").map(|s| s.is_some());
        let _ = child;
        self.answer(plan).map_or_else(|e| e, |v| v.to_string())
    }
    #[trace_span(kind = "trace", name = "checked_it", logs = "{n: plan.n}")]
    fn checked(&self, ctx: Context, plan: &Plan) -> ProtocolResult<u64> {
        self.begin();
        let _ = &ctx;
        self.answer(plan)
    }
}

#[trace_span(kind = "free")]
async fn free(ctx: Context, real: &Real, plan: &Plan) -> ProtocolResult<u64> {
    real.begin();
    real.below(&ctx, plan).await;
    real.answer(plan)
}

#[derive(Debug)]
struct Pass(#[allow(dead_code)] u64);

#[async_trait]
trait Api {
    async fn first(&self, plan: Plan, extra: Pass) -> ProtocolResult<u64>;
    async fn second(&self, plan: Plan) -> ProtocolResult<u64>;
    fn third(&self, plan: &Plan) -> ProtocolResult<u64>;
}
#[async_trait]
impl Api for Real {
    #[metrics_rpc("eth_first")]
    async fn first(&self, plan: Plan, extra: Pass) -> ProtocolResult<u64> {
        let _ = extra;
        tokio::task::yield_now().await;
        self.answer(&plan)
    }
    #[metrics_rpc("eth_second")]
    async fn second(&self, plan: Plan) -> ProtocolResult<u64> {
        if plan.fails {
            return self.answer(&plan);
        }
        let v = self.answer(&plan)?;
        Ok(v)
    }
    #[metrics_rpc("net_third")]
    fn third(&self, plan: &Plan) -> ProtocolResult<u64> {
        self.answer(plan)
    }
}

thread_local! {
    static WRONG: std::cell::RefCell<Vec<Value>> = Default::default();
}

fn due(p: &Plan) -> ProtocolResult<u64> {
    if p.fails {
        Err(format!("bad {} {}", p.n, p.text))
    } else {
        Ok(p.n.rotate_left(7) ^ p.text.len() as u64)
    }
}

fn check_call<'a>(real: &'a Real, ctx: Context, p: &'a Plan) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'a>> {
    Box::pin(check_call_(real, ctx, p))
}
async fn check_call_(real: &Real, ctx: Context, p: &Plan) {
    let want = due(p);
    let got: ProtocolResult<u64> = match p.kind {
        0 => real.store(ctx, p).await,
        1 => real.named(ctx, p.clone(), p.n).await,
        2 => {
            let v = real.plain(ctx, p.clone()).await;
            if p.fails && v == u64::MAX {
                want.clone()
            } else {
                Ok(v)
            }
        }
        3 => real.early(ctx, p.clone()).await,
        4 => {
            let s = real.version(ctx, p);
            if s == want.clone().map_or_else(|e| e, |v| v.to_string()) {
                want.clone()
            } else {
                Err(s)
            }
        }
        5 => real.checked(ctx, p),
        _ => free(ctx, real, p).await,
    };
    if got != want {
        WRONG.with(|w| w.borrow_mut().push(json!({"call": format!("{p:?}"), "got": format!("{got:?}"), "want": format!("{want:?}")})));
    }
}

fn plan(r: &mut Rng, depth: usize) -> Plan {
    let kind = r.below(7);
    let fails = r.chance(1, 3);
    // these two run no others: a synchronous one, and one that returns before it would
    let leaf = matches!(kind, 4 | 5) || (kind == 3 && fails) || depth == 0;
    let n = if leaf { 0 } else { r.below(4) };
    Plan {
        kind,
        n: r.edge_u64(),
        text: r.pick(&["", "x", "with {braces}, and: colons", "ünï"][..]).to_string(),
        fails,
        yields: r.bool(),
        nested: (0..n).map(|_| plan(r, depth - 1)).collect(),
    }
}

/// a span as it should have been: its name, tags, logs and children, in a comparable form
fn shape(p: &Plan) -> Value {
    let (name, mut tags, mut logs): (&str, BTreeMap<String, String>, BTreeMap<String, String>) = match p.kind {
        0 => ("trace.store", map(&[]), map(&[("n", &p.n.to_string()), ("text", &p.text)])),
        1 => (
            "svc.deep.other_name",
            map(&[("kind", "client"), ("twice", &p.n.wrapping_mul(2).to_string()), ("free", "not an expression")]),
            map(&[("len", &p.text.len().to_string())]),
        ),
        2 => ("trace.plain", map(&[("fails", &p.fails.to_string())]), map(&[])),
        3 => ("trace.early_return", map(&[]), map(&[])),
        4 => ("trace.version", map(&[]), map(&[("n", &p.n.to_string())])),
        5 => ("trace.checked_it", map(&[]), map(&[("n", &p.n.to_string())])),
        _ => ("free.free", map(&[]), map(&[])),
    };
    // a function that can fail says whether it did
    if !matches!(p.kind, 2 | 4) {
        tags.insert("error".into(), p.fails.to_string());
        if p.fails {
            logs.insert("error_msg".into(), due(p).unwrap_err());
        }
    }
    let mut kids: Vec<Value> = p.nested.iter().map(shape).collect();
    kids.sort_by_key(|k| k.to_string());
    json!({"name": name, "tags": tags, "logs": logs, "below": kids})
}
fn map(p: &[(&str, &str)]) -> BTreeMap<String, String> {
    p.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn size(p: &Plan) -> u64 {
    1 + p.nested.iter().map(size).sum::<u64>()
}

struct Got {
    /// the how many-th span to end
    at: usize,
    parent: Option<u64>,
    value: Value,
    trace: String,
}

fn drain(rx: &SpanReceiver) -> HashMap<u64, Got> {
    let mut m = HashMap::new();
    while let Ok(s) = rx.try_recv() {
        let mut tags = BTreeMap::new();
        for t in s.tags() {
            use rustracing::tag::TagValue::*;
            let v = match t.value() {
                String(s) => s.to_string(),
                Boolean(b) => b.to_string(),
                Integer(i) => i.to_string(),
                Float(f) => f.to_string(),
            };
            tags.insert(t.name().to_string(), v);
        }
        let mut logs: Vec<(String, String)> =
            s.logs().iter().flat_map(|l| l.fields().iter().map(|f| (f.name().to_string(), f.value().to_string())).collect::<Vec<_>>()).collect();
        logs.sort();
        let n = logs.len();
        let logs: BTreeMap<String, String> = logs.into_iter().collect();
        let parent = s.references().iter().filter(|r| r.is_child_of()).map(|r| r.span().span_id()).next();
        let value = json!({"name": s.operation_name(), "tags": tags, "logs": if logs.len() == n { json!(logs) } else { json!("a field twice") }});
        let at = m.len();
        m.insert(s.context().state().span_id(), Got { at, parent, value, trace: s.context().state().trace_id().to_string() });
    }
    m
}

fn tree(all: &HashMap<u64, Got>, id: u64) -> Value {
    let mut kids: Vec<Value> = all.iter().filter(|(_, g)| g.parent == Some(id)).map(|(k, _)| tree(all, *k)).collect();
    kids.sort_by_key(|k| k.to_string());
    let mut v = all[&id].value.clone();
    v["below"] = json!(kids);
    v
}

pub fn p13(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    c.stage("spans");
    let mut n = 0u64;
    while n < c.scale(30_000, 400_000) && (n % 64 != 0 || c.within(0.8)) {
        n += 1;
        let mut r = c.rng.fork();
        let p = plan(&mut r, 3);
        // three ways in: no tracer, a request nobody traces yet, one that is part of a trace
        let way = r.below(4);
        let (tx, rx) = crossbeam(way == 0);
        TRACER.set(tx);
        let outer = (r.edge_u64().max(1), TraceId { high: r.edge_u64(), low: r.edge_u64().max(1) });
        let ctx = match way {
            2 => Context::new().with_value::<Option<SpanContext>>("parent_span_ctx", None),
            3 => {
                let st = SpanContextStateBuilder::new().trace_id(outer.1).span_id(outer.0).finish();
                Context::new().with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext::new(st, vec![])))
            }
            _ => Context::new(),
        };
        let real = Arc::new(Real::default());
        WRONG.with(|w| w.borrow_mut().clear());
        rt.block_on(check_call(&real, ctx, &p));
        TRACER.set(Tracer(None));
        let wrong: Vec<Value> = WRONG.with(|w| w.borrow().clone());
        let total = size(&p);
        let case = || json!({"plan": format!("{p:?}"), "way": way});
        c.add("wrap.calls", total);
        c.seen("tree", (format!("{:?}", shape(&p)), way));
        c.ensure(wrong.is_empty(), "result", || ("a traced function returns what it returned untraced".into(), {
            let mut d = case();
            d["wrong"] = json!(wrong.iter().take(3).collect::<Vec<_>>());
            d
        }));
        let runs = real.runs.load(Ordering::SeqCst);
        c.ensure(runs == total, "runs", || ("a traced function runs exactly once per call".into(), {
            let mut d = case();
            d["runs"] = json!([runs, total]);
            d
        }));
        let all = rx.map(|rx| drain(&rx)).unwrap_or_default();
        c.add("wrap.spans", all.len() as u64);
        if way == 0 {
            c.event("wrap.untraced");
            continue;
        }
        let tops: Vec<u64> = all.iter().filter(|(_, g)| g.parent.map_or(true, |p| !all.contains_key(&p))).map(|(k, _)| *k).collect();
        let ok = all.len() as u64 == total
            && tops.len() == 1
            && all[&tops[0]].parent == if way == 3 { Some(outer.0) } else { None }
            && tree(&all, tops[0]) == shape(&p);
        c.ensure(ok, "spans", || {
            let mut d = case();
            d["want"] = shape(&p);
            d["got"] = json!(tops.iter().map(|t| tree(&all, *t)).collect::<Vec<_>>());
            ("the spans are the calls: one each, named, nested, tagged and logged as declared".into(), d)
        });
        let early: Vec<&Value> = all.values().filter(|g| g.parent.and_then(|p| all.get(&p)).map_or(false, |p| p.at < g.at)).map(|g| &all[&g.parent.unwrap()].value).collect();
        c.ensure(early.is_empty(), "ends-early", || {
            let mut d = case();
            d["ended early"] = json!(early.iter().take(3).collect::<Vec<_>>());
            ("a span does not end before the calls made within it".into(), d)
        });
        let traces: std::collections::BTreeSet<&String> = all.values().map(|g| &g.trace).collect();
        c.ensure(traces.len() == 1 && (way != 3 || *traces.iter().next().unwrap() == &outer.1.to_string()), "trace-id", || ("all of a request's spans belong to its trace".into(), case()));
    }
    c.note(format!("{n} trees of traced calls"));

    c.stage("cut");
    let mut n = 0u64;
    while n < c.scale(20_000, 300_000) && (n % 64 != 0 || c.within(0.8)) {
        n += 1;
        let mut r = c.rng.fork();
        let p = plan(&mut r, 3);
        let (tx, rx) = crossbeam(false);
        TRACER.set(tx);
        let total = size(&p);
        // dropped after some steps, or a panic in one of the calls
        let (steps, bomb) = if r.bool() { (r.below(2 * total as usize + 1) as u64, 0) } else { (u64::MAX, 1 + r.below(total as usize) as u64) };
        let real = Arc::new(Real { bomb, slow: r.bool(), ..Default::default() });
        let end = vlib::guard(|| {
            rt.block_on(async {
                let mut f = check_call(&real, Context::new(), &p);
                let mut left = steps;
                let done = std::future::poll_fn(|cx| {
                    if left == 0 {
                        return std::task::Poll::Ready(false);
                    }
                    left -= 1;
                    f.as_mut().poll(cx).map(|_| true)
                })
                .await;
                drop(f);
                done
            })
        });
        TRACER.set(Tracer(None));
        let begun = real.begun.load(Ordering::SeqCst);
        let all = rx.map(|rx| drain(&rx)).unwrap_or_default();
        let case = || json!({"plan": format!("{p:?}"), "steps": steps, "bomb": bomb, "begun": begun, "spans": all.len()});
        c.event(match &end {
            Ok(true) => "wrap.cut-finished",
            Ok(false) => "wrap.cut-dropped",
            Err(_) => "wrap.cut-panicked",
        });
        c.seen("cut", (total, begun, end.is_ok()));
        c.ensure(
            match &end {
                Ok(_) => bomb == 0,
                Err(e) => bomb != 0 && begun == bomb && e.msg == BOMB,
            },
            "panic",
            || {
                let mut d = case();
                d["end"] = json!(end.as_ref().map_err(|e| e.msg.clone()).err());
                ("a panic within a traced function reaches its caller as it was, and none is added".into(), d)
            },
        );
        c.ensure(all.len() as u64 == begun, "cut-spans", || ("every call that began has its span ended once it is gone, dropped or panicked".into(), case()));
        let early = all.values().filter(|g| g.parent.and_then(|p| all.get(&p)).map_or(false, |p| p.at < g.at)).count();
        c.ensure(early == 0, "cut-ends-early", || ("a span does not end before the calls made within it".into(), case()));
    }
    c.note(format!("{n} trees of traced calls cut short"));

    c.stage("meters");
    let mut n = 0u64;
    use common_apm::metrics::api::{API_REQUEST_RESULT_COUNTER_VEC_STATIC as N, API_REQUEST_TIME_HISTOGRAM_STATIC as T};
    let read = || -> [u64; 9] {
        let v = |c: &common_apm::metrics::api::Count| c.0.load(Ordering::SeqCst);
        [
            v(&N.eth_first.success), v(&N.eth_first.failure), v(&T.eth_first), v(&N.eth_second.success), v(&N.eth_second.failure), v(&T.eth_second),
            v(&N.net_third.success), v(&N.net_third.failure), v(&T.net_third),
        ]
    };
    while n < c.scale(30_000, 400_000) && (n % 64 != 0 || c.within(0.95)) {
        n += 1;
        let mut r = c.rng.fork();
        let mut p = plan(&mut r, 0);
        p.kind = r.below(3);
        let real = Real { slow: true, ..Default::default() };
        let before = read();
        let t0 = std::time::Instant::now();
        let got = rt.block_on(async {
            match p.kind {
                0 => real.first(p.clone(), Pass(p.n)).await,
                1 => real.second(p.clone()).await,
                _ => real.third(&p),
            }
        });
        let outer = t0.elapsed().as_nanos() as u64;
        let took = [&T.eth_first, &T.eth_second, &T.net_third][p.kind].1.load(Ordering::SeqCst);
        let inner = real.took.load(Ordering::SeqCst);
        let after = read();
        let mut want = before;
        want[p.kind * 3 + p.fails as usize] += 1;
        if !p.fails {
            want[p.kind * 3 + 2] += 1;
        }
        let runs = real.runs.load(Ordering::SeqCst);
        let case = || json!({"call": format!("{p:?}"), "got": format!("{got:?}"), "runs": runs, "before": before, "after": after});
        c.event("wrap.metered");
        c.seen("metered", (p.kind, p.fails, p.n, &p.text));
        c.ensure(got == due(&p) && runs == 1, "metered-result", || ("a metered method answers what it answered unmetered, running once".into(), case()));
        // to within what the seconds as a floating-point number lose
        c.ensure(p.fails || (took + 2 >= inner && took <= outer + 2), "time", || ("the time noted is the time the call took".into(), json!([inner, took, outer])));
        c.ensure(after == want, "counts", || ("each call counts once, as a success or a failure, under its own name".into(), case()));
    }
    c.note(format!("{n} metered calls"));
}

fn crossbeam(none: bool) -> (Tracer, Option<SpanReceiver>) {
    if none {
        return (Tracer(None), None);
    }
    let (t, rx) = rustracing_jaeger::Tracer::new(rustracing::sampler::AllSampler);
    (Tracer(Some(t)), Some(rx))
}
