//! Stand-in for `tentacle` (the p2p stack is not available offline): the plain data types, a
//! `ServiceAsyncControl` that hands every outgoing command to an observer, and a service whose sockets are
//! in-process channels (`ether`): sessions, protocols, frames, notifications and errors go as in tentacle.
pub use async_trait::async_trait;
pub use bytes;

pub mod multiaddr {
    pub use tentacle_multiaddr::{Error, MultiAddr, Multiaddr, Protocol};
}

macro_rules! id {
    ($n:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(usize);
        impl $n {
            pub const fn new(i: usize) -> Self {
                $n(i)
            }
            pub const fn value(self) -> usize {
                self.0
            }
        }
        impl From<usize> for $n {
            fn from(i: usize) -> Self {
                $n(i)
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}({})", stringify!($n), self.0)
            }
        }
    };
}
id!(SessionId);
id!(ProtocolId);

pub mod secio {
    use sha2::{Digest, Sha256};
    use std::str::FromStr;

    pub mod error {
        #[derive(Debug)]
        pub enum SecioError {
            InvalidKey,
            ConnectSelf,
        }
        impl std::fmt::Display for SecioError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for SecioError {}
    }

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct PublicKey(Vec<u8>);
    impl PublicKey {
        pub fn from_raw_key(key: Vec<u8>) -> Self {
            PublicKey(key)
        }
        pub fn peer_id(&self) -> PeerId {
            PeerId::from_public_key(self)
        }
        pub fn inner(self) -> Vec<u8> {
            self.0
        }
        pub fn inner_ref(&self) -> &[u8] {
            &self.0
        }
    }

    #[derive(Debug, PartialEq, Eq)]
    pub enum ParseError {
        Invalid,
    }
    impl std::fmt::Display for ParseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ParseError {}

    /// sha2-256 multihash, as tentacle-secio's (the digest input is the raw key here, not its molecule
    /// encoding: ids are unique and stable, which is all the repository relies on).
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct PeerId(Vec<u8>);
    impl std::fmt::Debug for PeerId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "PeerId({})", self.to_base58())
        }
    }
    impl PeerId {
        pub fn from_public_key(k: &PublicKey) -> Self {
            let mut v = vec![0x12, 32];
            v.extend_from_slice(&Sha256::digest(&k.0));
            PeerId(v)
        }
        pub fn from_bytes(b: Vec<u8>) -> Result<Self, ParseError> {
            if b.len() == 34 && b[0] == 0x12 && b[1] == 32 {
                Ok(PeerId(b))
            } else {
                Err(ParseError::Invalid)
            }
        }
        pub fn random() -> Self {
            use std::sync::atomic::{AtomicU64, Ordering};
            static N: AtomicU64 = AtomicU64::new(0);
            PeerId::from_public_key(&PublicKey(N.fetch_add(1, Ordering::SeqCst).to_be_bytes().to_vec()))
        }
        pub fn into_bytes(self) -> Vec<u8> {
            self.0
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn to_base58(&self) -> String {
            bs58::encode(&self.0).into_string()
        }
    }
    impl FromStr for PeerId {
        type Err = ParseError;
        fn from_str(s: &str) -> Result<Self, ParseError> {
            PeerId::from_bytes(bs58::decode(s).into_vec().map_err(|_| ParseError::Invalid)?)
        }
    }

    #[async_trait::async_trait]
    pub trait KeyProvider: Clone + Send + Sync + 'static {
        type Error: Into<error::SecioError>;
        async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
        fn sign_ecdsa<T: AsRef<[u8]>>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
        fn pubkey(&self) -> Vec<u8>;
        fn verify_ecdsa<P, T, F>(&self, pubkey: P, message: T, signature: F) -> bool
        where
            P: AsRef<[u8]>,
            T: AsRef<[u8]>,
            F: AsRef<[u8]>;
    }
    #[derive(Clone, Debug)]
    pub struct SecioKeyPair(secp256k1::SecretKey);
    impl SecioKeyPair {
        pub fn secp256k1_generated() -> Self {
            use std::sync::atomic::{AtomicU64, Ordering};
            static N: AtomicU64 = AtomicU64::new(1);
            let mut k = [7u8; 32];
            k[..8].copy_from_slice(&N.fetch_add(1, Ordering::SeqCst).to_be_bytes());
            SecioKeyPair(secp256k1::SecretKey::from_slice(&k).unwrap())
        }
        pub fn secp256k1_raw_key<K: AsRef<[u8]>>(k: K) -> Result<Self, error::SecioError> {
            secp256k1::SecretKey::from_slice(k.as_ref()).map(SecioKeyPair).map_err(|_| error::SecioError::InvalidKey)
        }
        pub fn public_key(&self) -> PublicKey {
            PublicKey(self.pubkey())
        }
        pub fn peer_id(&self) -> PeerId {
            self.public_key().peer_id()
        }
    }
    fn message(m: &[u8]) -> secp256k1::Message {
        secp256k1::Message::from_slice(&Sha256::digest(m)).unwrap()
    }
    #[async_trait::async_trait]
    impl KeyProvider for SecioKeyPair {
        type Error = error::SecioError;
        async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, m: T) -> Result<Vec<u8>, Self::Error> {
            self.sign_ecdsa(m)
        }
        fn sign_ecdsa<T: AsRef<[u8]>>(&self, m: T) -> Result<Vec<u8>, Self::Error> {
            Ok(secp256k1::Secp256k1::new().sign_ecdsa(&message(m.as_ref()), &self.0).serialize_der().to_vec())
        }
        fn verify_ecdsa<P, T, F>(&self, pubkey: P, m: T, signature: F) -> bool
        where
            P: AsRef<[u8]>,
            T: AsRef<[u8]>,
            F: AsRef<[u8]>,
        {
            match (
                secp256k1::PublicKey::from_slice(pubkey.as_ref()),
                secp256k1::ecdsa::Signature::from_der(signature.as_ref()),
            ) {
                (Ok(k), Ok(mut s)) => {
                    s.normalize_s();
                    secp256k1::Secp256k1::new().verify_ecdsa(&message(m.as_ref()), &s, &k).is_ok()
                }
                _ => false,
            }
        }
        fn pubkey(&self) -> Vec<u8> {
            secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &self.0).serialize().to_vec()
        }
    }
}

pub mod utils {
    use crate::multiaddr::{Multiaddr, Protocol};
    use crate::secio::PeerId;
    use std::net::{IpAddr, SocketAddr};

    pub fn multiaddr_to_socketaddr(addr: &Multiaddr) -> Option<SocketAddr> {
        let mut iter = addr.iter().peekable();
        while iter.peek().is_some() {
            match iter.peek() {
                Some(Protocol::Ip4(_)) | Some(Protocol::Ip6(_)) => (),
                _ => {
                    iter.next();
                    continue;
                }
            }
            let p1 = iter.next()?;
            let p2 = iter.next()?;
            match (p1, p2) {
                (Protocol::Ip4(ip), Protocol::Tcp(port)) => return Some(SocketAddr::new(ip.into(), port)),
                (Protocol::Ip6(ip), Protocol::Tcp(port)) => return Some(SocketAddr::new(ip.into(), port)),
                _ => (),
            }
        }
        None
    }
    pub fn extract_peer_id(addr: &Multiaddr) -> Option<PeerId> {
        let mut iter = addr.iter();
        iter.find_map(|p| match p {
            Protocol::P2P(b) => PeerId::from_bytes(b.to_vec()).ok(),
            _ => None,
        })
    }
    pub fn is_reachable(ip: IpAddr) -> bool {
        match ip {
            IpAddr::V4(v4) => {
                !v4.is_private() && !v4.is_loopback() && !v4.is_link_local() && !v4.is_broadcast() && !v4.is_unspecified()
            }
            IpAddr::V6(v6) => !v6.is_loopback() && !v6.is_unspecified(),
        }
    }
}

mod sim;
pub use sim::{builder, context, error, ether, runtime, service, traits, yamux};
