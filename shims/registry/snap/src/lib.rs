//! Stand-in for `snap`: the raw Snappy block format (a small greedy encoder and a checking decoder).
pub mod raw {
    use std::collections::HashMap;
    use std::fmt;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Error(&'static str);
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "snappy: {}", self.0)
        }
    }
    impl std::error::Error for Error {}

    fn header(d: &[u8]) -> Result<(u64, usize), Error> {
        let mut v = 0u64;
        for i in 0..5 {
            let b = *d.get(i).ok_or(Error("header"))?;
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if v > u32::MAX as u64 {
                    return Err(Error("header"));
                }
                return Ok((v, i + 1));
            }
        }
        Err(Error("header"))
    }
    pub fn decompress_len(d: &[u8]) -> Result<usize, Error> {
        if d.is_empty() {
            return Ok(0);
        }
        Ok(header(d)?.0 as usize)
    }

    #[derive(Default)]
    pub struct Encoder;
    impl Encoder {
        pub fn new() -> Self {
            Encoder
        }
        pub fn compress_vec(&mut self, d: &[u8]) -> Result<Vec<u8>, Error> {
            let mut out = Vec::new();
            let mut n = d.len();
            loop {
                if n < 0x80 {
                    out.push(n as u8);
                    break;
                }
                out.push((n & 0x7f) as u8 | 0x80);
                n >>= 7;
            }
            let mut seen: HashMap<[u8; 4], usize> = HashMap::new();
            let (mut i, mut lit) = (0, 0);
            let flush = |out: &mut Vec<u8>, mut s: &[u8]| {
                while !s.is_empty() {
                    let n = s.len().min(65536);
                    if n <= 60 {
                        out.push(((n - 1) << 2) as u8);
                    } else {
                        out.push(61 << 2);
                        out.extend_from_slice(&((n - 1) as u16).to_le_bytes());
                    }
                    out.extend_from_slice(&s[..n]);
                    s = &s[n..];
                }
            };
            while i + 4 <= d.len() {
                let k: [u8; 4] = d[i..i + 4].try_into().unwrap();
                let prev = seen.insert(k, i);
                match prev {
                    Some(p) if i - p <= 65535 => {
                        let mut l = 4;
                        while l < 64 && i + l < d.len() && d[p + l] == d[i + l] {
                            l += 1;
                        }
                        flush(&mut out, &d[lit..i]);
                        out.push((((l - 1) << 2) | 2) as u8);
                        out.extend_from_slice(&((i - p) as u16).to_le_bytes());
                        i += l;
                        lit = i;
                    }
                    _ => i += 1,
                }
            }
            flush(&mut out, &d[lit..]);
            Ok(out)
        }
    }

    #[derive(Default)]
    pub struct Decoder;
    impl Decoder {
        pub fn new() -> Self {
            Decoder
        }
        pub fn decompress(&mut self, d: &[u8], out: &mut [u8]) -> Result<usize, Error> {
            if d.is_empty() {
                return Err(Error("empty"));
            }
            let (n, mut i) = header(d)?;
            let n = n as usize;
            if out.len() < n {
                return Err(Error("buffer too small"));
            }
            let mut o = 0;
            while i < d.len() {
                let t = d[i];
                i += 1;
                let le = |i: usize, n: usize| -> Result<usize, Error> {
                    let s = d.get(i..i + n).ok_or(Error("truncated"))?;
                    Ok(s.iter().rev().fold(0usize, |a, b| (a << 8) | *b as usize))
                };
                let (len, off) = match t & 3 {
                    0 => {
                        let mut l = (t >> 2) as usize + 1;
                        if l > 60 {
                            let k = l - 60;
                            l = le(i, k)? + 1;
                            i += k;
                        }
                        let s = d.get(i..i + l).ok_or(Error("literal"))?;
                        out.get_mut(o..o + l).filter(|_| o + l <= n).ok_or(Error("literal"))?.copy_from_slice(s);
                        i += l;
                        o += l;
                        continue;
                    }
                    1 => {
                        let x = le(i, 1)?;
                        i += 1;
                        (((t >> 2) & 7) as usize + 4, (((t >> 5) as usize) << 8) | x)
                    }
                    2 => {
                        let x = le(i, 2)?;
                        i += 2;
                        ((t >> 2) as usize + 1, x)
                    }
                    _ => {
                        let x = le(i, 4)?;
                        i += 4;
                        ((t >> 2) as usize + 1, x)
                    }
                };
                if off == 0 || off > o || o + len > n {
                    return Err(Error("copy"));
                }
                for _ in 0..len {
                    out[o] = out[o - off];
                    o += 1;
                }
            }
            if o != n {
                return Err(Error("length"));
            }
            Ok(n)
        }
    }
}
