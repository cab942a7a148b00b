//! Reference pieces written from the specifications, sharing no code with the repository's dependencies.

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
        0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
        0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
        0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
        0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] =
        [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
    let mut a = [[0u64; 5]; 5];
    let f = |a: &mut [[u64; 5]; 5]| {
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    };
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    for blk in m.chunks(136) {
        for i in 0..17 {
            a[i % 5][i / 5] ^= u64::from_le_bytes(blk[8 * i..8 * i + 8].try_into().unwrap());
        }
        f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}

/// RLP items
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum R {
    B(Vec<u8>),
    L(Vec<R>),
}

impl R {
    pub fn b(x: impl AsRef<[u8]>) -> R {
        R::B(x.as_ref().to_vec())
    }
    pub fn u(x: u64) -> R {
        R::be(&x.to_be_bytes())
    }
    /// big-endian integer, minimal form
    pub fn be(x: &[u8]) -> R {
        R::B(x.iter().copied().skip_while(|b| *b == 0).collect())
    }
    pub fn enc(&self) -> Vec<u8> {
        let head = |off: u8, n: usize| {
            if n <= 55 {
                vec![off + n as u8]
            } else {
                let be: Vec<u8> = (n as u64).to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
                let mut v = vec![off + 55 + be.len() as u8];
                v.extend(be);
                v
            }
        };
        match self {
            R::B(b) if b.len() == 1 && b[0] < 0x80 => b.clone(),
            R::B(b) => [head(0x80, b.len()), b.clone()].concat(),
            R::L(l) => {
                let body: Vec<u8> = l.iter().flat_map(|i| i.enc()).collect();
                [head(0xc0, body.len()), body].concat()
            }
        }
    }
    pub fn dec(b: &[u8]) -> Option<(R, usize)> {
        let h = *b.first()? as usize;
        let take = |at: usize, n: usize| b.get(at..at.checked_add(n)?);
        let long = |n: usize| -> Option<(usize, usize)> {
            let l = take(1, n)?;
            if l[0] == 0 || n > 8 {
                return None;
            }
            let len = l.iter().fold(0u64, |a, x| a << 8 | *x as u64) as usize;
            (len > 55).then_some((1 + n, len))
        };
        let (at, n, list) = match h {
            0..=0x7f => return Some((R::b([h as u8]), 1)),
            0x80..=0xb7 => (1, h - 0x80, false),
            0xb8..=0xbf => {
                let (a, n) = long(h - 0xb7)?;
                (a, n, false)
            }
            0xc0..=0xf7 => (1, h - 0xc0, true),
            _ => {
                let (a, n) = long(h - 0xf7)?;
                (a, n, true)
            }
        };
        let body = take(at, n)?;
        if !list {
            return Some((R::b(body), at + n));
        }
        let mut l = vec![];
        let mut i = 0;
        while i < body.len() {
            let (x, k) = R::dec(&body[i..])?;
            l.push(x);
            i += k;
        }
        Some((R::L(l), at + n))
    }
}

/// Root of a Merkle-Patricia trie over raw (unhashed) keys.
pub fn mpt_root(entries: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> [u8; 32] {
    if entries.is_empty() {
        return keccak256(&[0x80]);
    }
    let items: Vec<(Vec<u8>, Vec<u8>)> = entries
        .iter()
        .map(|(k, v)| (k.iter().flat_map(|b| [b >> 4, b & 15]).collect(), v.clone()))
        .collect();
    keccak256(&mpt_node(&items, 0).enc())
}

fn hp(n: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut v = if n.len() % 2 == 1 { vec![(f + 1) << 4 | n[0]] } else { vec![f << 4] };
    for c in n[n.len() % 2..].chunks(2) {
        v.push(c[0] << 4 | c[1]);
    }
    v
}

fn mpt_ref(n: R) -> R {
    let e = n.enc();
    if e.len() < 32 {
        n
    } else {
        R::b(keccak256(&e))
    }
}

fn mpt_node(items: &[(Vec<u8>, Vec<u8>)], d: usize) -> R {
    if items.len() == 1 {
        return R::L(vec![R::B(hp(&items[0].0[d..], true)), R::b(&items[0].1)]);
    }
    let first = &items[0].0[d..];
    let mut p = first.len();
    for (k, _) in &items[1..] {
        p = p.min(first.iter().zip(&k[d..]).take_while(|(a, b)| a == b).count());
    }
    if p > 0 {
        return R::L(vec![R::B(hp(&first[..p], false)), mpt_ref(mpt_node(items, d + p))]);
    }
    let mut l = vec![];
    for nib in 0..16u8 {
        let sub: Vec<_> = items.iter().filter(|(k, _)| k.len() > d && k[d] == nib).cloned().collect();
        l.push(if sub.is_empty() { R::B(vec![]) } else { mpt_ref(mpt_node(&sub, d + 1)) });
    }
    l.push(R::B(items.iter().find(|(k, _)| k.len() == d).map(|(_, v)| v.clone()).unwrap_or_default()));
    R::L(l)
}

/// Root committing to an ordered list the way Ethereum does: key = rlp(index).
pub fn ordered_root(vals: &[Vec<u8>]) -> [u8; 32] {
    mpt_root(&vals.iter().enumerate().map(|(i, v)| (R::u(i as u64).enc(), v.clone())).collect())
}

pub fn bloom_add(bloom: &mut [u8; 256], x: &[u8]) {
    let h = keccak256(x);
    for i in [0, 2, 4] {
        let bit = ((h[i] as usize) << 8 | h[i + 1] as usize) & 0x7ff;
        bloom[255 - bit / 8] |= 1 << (bit % 8);
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn k() {
        assert_eq!(crate::hex(keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(crate::hex(keccak256(&[7; 300])).len(), 64);
        assert_eq!(crate::hex(mpt_root(&Default::default())), "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
        let m = [("do", "verb"), ("dog", "puppy"), ("doge", "coin"), ("horse", "stallion")];
        let m = m.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect();
        assert_eq!(crate::hex(mpt_root(&m)), "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84");
    }
}
