//! Stand-in for `jsonrpsee` 0.20: the procedural macros and the wire types are the real crates; the HTTP and
//! WebSocket servers are simulated (`sim`).  A connection takes request text and gives response text, with the
//! server's rules for single requests, batches, notifications, malformed input and oversized bodies.  Dropping an
//! HTTP call drops the method's future, as hyper does when the client goes away.
pub use jsonrpsee_proc_macros as proc_macros;
pub use jsonrpsee_types as types;
pub use tokio;
pub use tracing;

pub mod core {
    pub type RpcResult<T> = std::result::Result<T, jsonrpsee_types::ErrorObjectOwned>;

    #[doc(hidden)]
    pub mod __reexports {
        pub use async_trait::async_trait;
        pub use serde;
    }
}

pub mod server;
pub mod sim;

pub use server::{
    IntoResponse, IntoSubscriptionCloseResponse, PendingSubscriptionSink, RpcModule,
    SubscriptionCloseResponse, SubscriptionMessage, SubscriptionSink,
};
