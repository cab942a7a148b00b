//! Stand-in for `ipnetwork`: CIDR networks, with the surface core-network uses.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ipv4Network {
    addr: Ipv4Addr,
    prefix: u8,
}
impl From<Ipv4Addr> for Ipv4Network {
    fn from(addr: Ipv4Addr) -> Self {
        Ipv4Network { addr, prefix: 32 }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ipv6Network {
    addr: Ipv6Addr,
    prefix: u8,
}
impl From<Ipv6Addr> for Ipv6Network {
    fn from(addr: Ipv6Addr) -> Self {
        Ipv6Network { addr, prefix: 128 }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum IpNetwork {
    V4(Ipv4Network),
    V6(Ipv6Network),
}
impl IpNetwork {
    pub fn new(ip: IpAddr, prefix: u8) -> Result<Self, String> {
        match ip {
            IpAddr::V4(addr) if prefix <= 32 => Ok(IpNetwork::V4(Ipv4Network { addr, prefix })),
            IpAddr::V6(addr) if prefix <= 128 => Ok(IpNetwork::V6(Ipv6Network { addr, prefix })),
            _ => Err("invalid prefix".into()),
        }
    }
    pub fn contains(&self, ip: IpAddr) -> bool {
        match (self, ip) {
            (IpNetwork::V4(n), IpAddr::V4(ip)) => {
                let m = if n.prefix == 0 { 0 } else { u32::MAX << (32 - n.prefix) };
                u32::from(n.addr) & m == u32::from(ip) & m
            }
            (IpNetwork::V6(n), IpAddr::V6(ip)) => {
                let m = if n.prefix == 0 { 0 } else { u128::MAX << (128 - n.prefix) };
                u128::from(n.addr) & m == u128::from(ip) & m
            }
            _ => false,
        }
    }
}
impl fmt::Display for IpNetwork {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            IpNetwork::V4(n) => write!(f, "{}/{}", n.addr, n.prefix),
            IpNetwork::V6(n) => write!(f, "{}/{}", n.addr, n.prefix),
        }
    }
}
impl FromStr for IpNetwork {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let (ip, p) = match s.split_once('/') {
            Some((i, p)) => (i, Some(p.parse::<u8>().map_err(|e| e.to_string())?)),
            None => (s, None),
        };
        let ip: IpAddr = ip.parse().map_err(|e: std::net::AddrParseError| e.to_string())?;
        IpNetwork::new(ip, p.unwrap_or(if ip.is_ipv4() { 32 } else { 128 }))
    }
}
impl Serialize for IpNetwork {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> Deserialize<'de> for IpNetwork {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
