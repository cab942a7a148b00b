//! core-network: its own modules, compiled from the repository through `real/`, but public, so that the harness can
//! look at each of them.
#![allow(dead_code, unused)]

#[path = "real/common.rs"]
mod common;
#[path = "real/compress.rs"]
pub mod compress;
#[path = "real/config.rs"]
pub mod config;
#[path = "real/endpoint.rs"]
pub mod endpoint;
#[path = "real/error.rs"]
pub mod error;
#[path = "real/message/mod.rs"]
pub mod message;
#[path = "real/outbound/mod.rs"]
pub mod outbound;
#[path = "real/peer_manager/mod.rs"]
pub mod peer_manager;
#[path = "real/reactor/mod.rs"]
pub mod reactor;
#[path = "real/rpc.rs"]
pub mod rpc;
#[path = "real/traits.rs"]
pub mod traits;

#[path = "real/protocols/mod.rs"]
pub mod protocols;
#[path = "real/service.rs"]
pub mod service;

pub use self::common::ConnectedAddr;
pub use self::config::NetworkConfig;
pub use self::outbound::{NetworkGossip, NetworkRpc};
pub use self::peer_manager::PeerManager;
pub use self::service::{NetworkService, NetworkServiceHandle, ServiceHandler};
pub use self::traits::NetworkContext;
pub use tentacle::{
    multiaddr,
    secio::{error::SecioError, KeyProvider, PeerId, SecioKeyPair},
};

use crate::error::NetworkError;
use protocol::types::Bytes;
use tentacle::secio::PublicKey;

// as in the repository's lib.rs, which also declares the modules left out here
pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        Ok(PeerId::from_public_key(&PublicKey::from_raw_key(
            bytes.as_ref().to_vec(),
        )))
    }

    fn from_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        PeerId::from_bytes(bytes.as_ref().to_vec()).map_err(|_| NetworkError::InvalidPeerId)
    }

    fn to_string(&self) -> String;

    fn into_bytes_ext(self) -> Bytes;

    fn from_str_ext<'a, S: AsRef<str> + 'a>(s: S) -> Result<PeerId, NetworkError> {
        s.as_ref().parse().map_err(|_| NetworkError::InvalidPeerId)
    }
}

impl PeerIdExt for PeerId {
    fn into_bytes_ext(self) -> Bytes {
        Bytes::from(self.into_bytes())
    }

    fn to_string(&self) -> String {
        self.to_base58()
    }
}

/// As in the repository's lib.rs, less the resolution of host names.
pub async fn observe_listen_port_occupancy(addrs: &[multiaddr::MultiAddr]) -> Result<(), NetworkError> {
    for a in addrs {
        if let Some(addr) = tentacle::utils::multiaddr_to_socketaddr(a) {
            if let Err(e) = std::net::TcpListener::bind(addr) {
                return Err(NetworkError::IoError(e));
            }
        }
    }
    Ok(())
}
