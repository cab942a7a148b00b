//! Stand-in for `prost`: protobuf wire encoding for the field shapes core-network's messages use.
use std::collections::HashMap;
use std::fmt;

pub use bytes;
pub use prost_derive::{Message, Oneof};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DecodeError(pub &'static str);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}
impl std::error::Error for DecodeError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "failed to encode Protobuf message")
    }
}
impl std::error::Error for EncodeError {}

pub trait Message: Default + Sized {
    fn encode_raw_vec(&self) -> Vec<u8>;
    fn merge_vec(&mut self, d: &[u8]) -> Result<(), DecodeError>;
    fn encoded_len(&self) -> usize {
        self.encode_raw_vec().len()
    }
    fn encode<B: bytes::BufMut>(&self, buf: &mut B) -> Result<(), EncodeError> {
        let v = self.encode_raw_vec();
        if buf.remaining_mut() < v.len() {
            return Err(EncodeError);
        }
        buf.put_slice(&v);
        Ok(())
    }
    fn decode<B: bytes::Buf>(mut buf: B) -> Result<Self, DecodeError> {
        let d = buf.copy_to_bytes(buf.remaining());
        let mut m = Self::default();
        m.merge_vec(&d)?;
        Ok(m)
    }
}

pub mod wire {
    use super::*;
    pub fn put_varint(o: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            o.push(v as u8 | 0x80);
            v >>= 7;
        }
        o.push(v as u8);
    }
    pub fn varint(d: &mut &[u8]) -> Result<u64, DecodeError> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = *d.first().ok_or(DecodeError("invalid varint"))?;
            *d = &d[1..];
            if i == 9 && b > 1 {
                break;
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(DecodeError("invalid varint"))
    }
    pub fn len_delim<'a>(d: &mut &'a [u8]) -> Result<&'a [u8], DecodeError> {
        let n = varint(d)?;
        if n > d.len() as u64 {
            return Err(DecodeError("buffer underflow"));
        }
        let (a, b) = d.split_at(n as usize);
        *d = b;
        Ok(a)
    }
    pub fn put_len(o: &mut Vec<u8>, tag: u32, b: &[u8]) {
        put_varint(o, ((tag << 3) | 2) as u64);
        put_varint(o, b.len() as u64);
        o.extend_from_slice(b);
    }
    pub fn skip(d: &mut &[u8], wt: u64) -> Result<(), DecodeError> {
        let n = match wt {
            0 => {
                varint(d)?;
                0
            }
            1 => 8,
            2 => {
                len_delim(d)?;
                0
            }
            5 => 4,
            _ => return Err(DecodeError("invalid wire type value")),
        };
        *d = d.get(n..).ok_or(DecodeError("buffer underflow"))?;
        Ok(())
    }
    pub fn key(d: &mut &[u8]) -> Result<(u32, u64), DecodeError> {
        let k = varint(d)?;
        if k > u32::MAX as u64 {
            return Err(DecodeError("invalid key value"));
        }
        let tag = (k >> 3) as u32;
        if tag == 0 {
            return Err(DecodeError("invalid tag value: 0"));
        }
        Ok((tag, k & 7))
    }
    pub fn string(b: &[u8]) -> Result<String, DecodeError> {
        String::from_utf8(b.to_vec()).map_err(|_| DecodeError("invalid string value: data is not UTF-8 encoded"))
    }
    pub fn need(wt: u64, want: u64) -> Result<(), DecodeError> {
        if wt == want {
            Ok(())
        } else {
            Err(DecodeError("invalid wire type"))
        }
    }
    pub fn put_map(o: &mut Vec<u8>, tag: u32, m: &HashMap<String, Vec<u8>>) {
        for (k, v) in m {
            let mut e = Vec::new();
            if !k.is_empty() {
                put_len(&mut e, 1, k.as_bytes());
            }
            if !v.is_empty() {
                put_len(&mut e, 2, v);
            }
            put_len(o, tag, &e);
        }
    }
    pub fn map_entry(m: &mut HashMap<String, Vec<u8>>, mut d: &[u8]) -> Result<(), DecodeError> {
        let (mut k, mut v) = (String::new(), Vec::new());
        while !d.is_empty() {
            match key(&mut d)? {
                (1, wt) => {
                    need(wt, 2)?;
                    k = string(len_delim(&mut d)?)?;
                }
                (2, wt) => {
                    need(wt, 2)?;
                    v = len_delim(&mut d)?.to_vec();
                }
                (_, wt) => skip(&mut d, wt)?,
            }
        }
        m.insert(k, v);
        Ok(())
    }
}
