//! Metrics and tracing sinks that discard everything (prometheus, minstant and the pinned rustracing fork are
//! not available offline).  Nothing in the repository reads metrics back except the exporter.
use std::time::Duration;

pub use common_apm_derive::{metrics_rpc, trace_span};
pub use tracing::TraceId;

#[derive(Clone, Copy, Debug)]
pub struct Instant(std::time::Instant);
impl Instant {
    pub fn now() -> Self {
        Instant(std::time::Instant::now())
    }
    pub fn elapsed(&self) -> Duration {
        self.0.elapsed()
    }
}

pub mod metrics {
    use std::time::Duration;
    pub fn duration_to_sec(d: Duration) -> f64 {
        d.as_secs_f64()
    }
    #[derive(Default, Debug)]
    pub struct Leaf;
    impl Leaf {
        pub const NEW: Leaf = Leaf;
        pub fn inc(&self) {}
        pub fn dec(&self) {}
        pub fn inc_by<T>(&self, _: T) {}
        pub fn set(&self, _: i64) {}
        pub fn observe(&self, _: f64) {}
        pub fn with_label_values(&self, _: &[&str]) -> &Leaf {
            self
        }
    }
    macro_rules! group {
        ($name:ident : $ty:ident { $($f:ident),* $(,)? }) => {
            #[allow(non_camel_case_types)]
            pub struct $ty { $(pub $f: $crate::metrics::Leaf),* }
            pub static $name: $ty = $ty { $($f: $crate::metrics::Leaf),* };
        };
    }
    #[derive(Debug)]
    pub struct Res {
        pub success: Leaf,
        pub failure: Leaf,
        pub timeout: Leaf,
    }
    impl Res {
        pub const NEW: Res = Res { success: Leaf, failure: Leaf, timeout: Leaf };
    }
    macro_rules! rgroup {
        ($name:ident : $ty:ident { $($f:ident),* $(,)? }) => {
            #[allow(non_camel_case_types)]
            pub struct $ty { $(pub $f: $crate::metrics::Res),* }
            pub static $name: $ty = $ty { $($f: $crate::metrics::Res::NEW),* };
        };
    }
    pub mod consensus {
        use super::Leaf;
        rgroup!(CONSENSUS_RESULT_COUNTER_VEC_STATIC: A { get_block_from_remote });
        group!(CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: B { commit, exec, block });
        group!(CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: C { check_block_cost, get_txs_cost, write_wal_cost });
        pub static ENGINE_ROUND_GAUGE: Leaf = Leaf;
        pub static ENGINE_HEIGHT_GAUGE: Leaf = Leaf;
        pub static ENGINE_COMMITTED_TX_COUNTER: Leaf = Leaf;
        pub static ENGINE_ORDER_TX_GAUGE: Leaf = Leaf;
        pub static ENGINE_SYNC_BLOCK_COUNTER: Leaf = Leaf;
        pub static ENGINE_SYNC_BLOCK_HISTOGRAM: Leaf = Leaf;
        pub static ENGINE_CONSENSUS_COST_TIME: Leaf = Leaf;
    }
    pub mod mempool {
        use super::Leaf;
        group!(MEMPOOL_COUNTER_STATIC: A { insert_tx_from_p2p, package, current_size });
        rgroup!(MEMPOOL_RESULT_COUNTER_STATIC: B { insert_tx_from_p2p, package, current_size });
        group!(MEMPOOL_TIME_STATIC: C { insert_tx_from_p2p, package, current_size });
        group!(MEMPOOL_PACKAGE_SIZE_VEC_STATIC: D { insert_tx_from_p2p, package, current_size });
        pub static MEMPOOL_LEN_GAUGE: Leaf = Leaf;
        pub static MEMPOOL_CO_QUEUE_LEN: Leaf = Leaf;
    }
    pub mod network {
        use super::Leaf;
        pub static NETWORK_RPC_RESULT_COUNT_VEC_STATIC: super::Res = super::Res::NEW;
        group!(NETWORK_PROTOCOL_TIME_HISTOGRAM_VEC_STATIC: B { rpc });
        pub static NETWORK_MESSAGE_SIZE_COUNT_VEC: Leaf = Leaf;
        pub static NETWORK_RECEIVED_MESSAGE_IN_PROCESSING_GUAGE: Leaf = Leaf;
        pub static NETWORK_RECEIVED_PEER_ID_MESSAGE_IN_PROCESSING_GUAGE_VEC: Leaf = Leaf;
        pub static NETWORK_CONNECTED_PEERS: Leaf = Leaf;
        pub static NETWORK_PEER_ID_DISCONNECTED_COUNT_VEC: Leaf = Leaf;
        pub static NETWORK_OUTBOUND_CONNECTING_PEERS: Leaf = Leaf;
        pub static NETWORK_UNIDENTIFIED_CONNECTIONS: Leaf = Leaf;
        pub static NETWORK_SAVED_PEER_COUNT: Leaf = Leaf;
        pub static NETWORK_TAGGED_CONSENSUS_PEERS: Leaf = Leaf;
        pub static NETWORK_CONNECTED_CONSENSUS_PEERS: Leaf = Leaf;
        pub fn on_network_message_received(_: &str) {}
        pub fn on_network_message_sent(_: &str) {}
        pub fn on_network_message_sent_all_target(_: &str) {}
        pub fn on_network_message_sent_multi_target(_: &str, _: f64) {}
    }
    pub mod storage {
        use protocol::traits::StorageCategory;
        use std::time::Duration;
        pub fn on_storage_get_state(_: Duration, _: f64) {}
        pub fn on_storage_put_state(_: Duration, _: f64) {}
        pub fn on_storage_get_cf(_: StorageCategory, _: Duration, _: f64) {}
        pub fn on_storage_put_cf(_: StorageCategory, _: Duration, _: f64) {}
    }
    pub mod api {
        rgroup!(API_REQUEST_RESULT_COUNTER_VEC_STATIC: A { eth_accounts, eth_blockNumber, eth_call, eth_chainId, eth_estimateGas, eth_feeHistory, eth_gasPrice, eth_getBalance, eth_getBlockByHash, eth_getBlockByNumber, eth_getBlockTransactionCountByHash, eth_getBlockTransactionCountByNumber, eth_getCode, eth_getLogs, eth_getProof, eth_getStorageAt, eth_getTransactionByBlockHashAndIndex, eth_getTransactionByBlockNumberAndIndex, eth_getTransactionByHash, eth_getTransactionCount, eth_getTransactionReceipt, eth_getUncleByBlockHashAndIndex, eth_getUncleByBlockNumberAndIndex, eth_getUncleCountByBlockHash, eth_getUncleCountByBlockNumber, eth_mining, eth_protocolVersion, eth_sendRawTransaction, eth_syncing, get_block, net_listening, net_peerCount, net_version, web3_clientVersion, web3_sha3 });
        group!(API_REQUEST_TIME_HISTOGRAM_STATIC: B { eth_accounts, eth_blockNumber, eth_call, eth_chainId, eth_estimateGas, eth_feeHistory, eth_gasPrice, eth_getBalance, eth_getBlockByHash, eth_getBlockByNumber, eth_getBlockTransactionCountByHash, eth_getBlockTransactionCountByNumber, eth_getCode, eth_getLogs, eth_getProof, eth_getStorageAt, eth_getTransactionByBlockHashAndIndex, eth_getTransactionByBlockNumberAndIndex, eth_getTransactionByHash, eth_getTransactionCount, eth_getTransactionReceipt, eth_getUncleByBlockHashAndIndex, eth_getUncleByBlockNumberAndIndex, eth_getUncleCountByBlockHash, eth_getUncleCountByBlockNumber, eth_mining, eth_protocolVersion, eth_sendRawTransaction, eth_syncing, get_block, net_listening, net_peerCount, net_version, web3_clientVersion, web3_sha3 });
    }
}

pub mod tracing {
    use std::sync::Arc;

    use arc_swap::ArcSwap;
    use protocol::traits::Context;

    lazy_static::lazy_static! {
        pub static ref TRACER: ArcSwap<AxonTracer> = ArcSwap::new(Arc::new(AxonTracer::default()));
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct TraceId {
        pub high: u64,
        pub low: u64,
    }
    impl std::fmt::Display for TraceId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            if self.high == 0 {
                write!(f, "{:x}", self.low)
            } else {
                write!(f, "{:x}{:016x}", self.high, self.low)
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct SpanContextState {
        trace_id: TraceId,
        span_id: u64,
    }
    impl SpanContextState {
        pub fn trace_id(&self) -> TraceId {
            self.trace_id
        }
        pub fn span_id(&self) -> u64 {
            self.span_id
        }
    }
    #[derive(Clone, Debug)]
    pub struct SpanContext(SpanContextState);
    #[derive(Clone, Debug)]
    pub struct Tag;
    impl Tag {
        pub fn new<K, V>(_: K, _: V) -> Self {
            Tag
        }
    }
    pub struct LogField;
    impl LogField {
        pub fn new<K, V>(_: K, _: V) -> Self {
            LogField
        }
    }
    pub struct Log;
    impl Log {
        pub fn field<F>(&mut self, _: F) -> &mut Self {
            self
        }
        pub fn time<T>(&mut self, _: T) -> &mut Self {
            self
        }
    }
    pub struct Span(SpanContext);
    impl Span {
        pub fn log<F: FnOnce(&mut Log)>(&mut self, f: F) {
            f(&mut Log)
        }
        pub fn set_tag<F: FnOnce() -> Tag>(&mut self, f: F) {
            f();
        }
        pub fn context(&self) -> Option<&SpanContext> {
            Some(&self.0)
        }
    }
    #[derive(Default)]
    pub struct AxonTracer;
    impl AxonTracer {
        pub fn child_of_span<N>(&self, _: N, p: SpanContext, _: Vec<Tag>) -> Option<Span> {
            Some(Span(p))
        }
        pub fn span<N>(&self, _: N, _: Vec<Tag>) -> Option<Span> {
            Some(Span(SpanContext(SpanContextState { trace_id: TraceId { high: 0, low: 1 }, span_id: 1 })))
        }
        pub fn new_state(trace_id: TraceId, span_id: u64) -> SpanContextState {
            SpanContextState { trace_id, span_id }
        }
        pub fn span_state(ctx: &Context) -> Option<SpanContextState> {
            ctx.get::<Option<SpanContext>>("parent_span_ctx").and_then(|c| c.as_ref().map(|c| c.0.clone()))
        }
        pub fn inject_span_state(ctx: Context, s: SpanContextState) -> Context {
            ctx.with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext(s)))
        }
        /// As common/apm does it, with a plain error type in place of `trackable`'s.
        pub fn str_to_trace(s: &str) -> Result<TraceId, String> {
            let hex = |b: &[u8]| {
                std::str::from_utf8(b)
                    .map_err(|e| e.to_string())
                    .and_then(|s| u64::from_str_radix(s, 16).map_err(|e| e.to_string()))
            };
            if s.len() <= 16 {
                Ok(TraceId { high: 0, low: hex(s.as_bytes())? })
            } else if s.len() <= 32 {
                let (high, low) = s.as_bytes().split_at(s.len() - 16);
                Ok(TraceId { high: hex(high)?, low: hex(low)? })
            } else {
                Err(format!("s={s:?}"))
            }
        }
    }
    pub fn global_tracer_register(_name: &str, _address: std::net::SocketAddr, _batch: usize) {}
}

pub mod server {
    pub async fn run_prometheus_server(_address: std::net::SocketAddr) {}
}
