//! Small helpers that do not depend on the code under test.
use primitive_types::U256;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Hash = [u8; 32];
pub type Addr = [u8; 33];

pub fn sha(data: &[u8]) -> Hash {
    Sha256::digest(data).into()
}

pub fn lz(data: &[u8]) -> u32 {
    let mut n = 0;
    for b in data {
        n += b.leading_zeros();
        if *b != 0 {
            break;
        }
    }
    n
}

/// Merkle commitment: leaves padded with ff to a power of two above their number,
/// a node is the hash of the bitwise and of its children.
pub fn merkle_root(items: &[Hash]) -> Hash {
    let mut width = 1;
    while width <= items.len() {
        width *= 2;
    }
    let mut level: Vec<Hash> = items.to_vec();
    level.resize(width, [0xff; 32]);
    while level.len() > 1 {
        level = level
            .chunks(2)
            .map(|p| {
                let mut x = [0u8; 32];
                for i in 0..32 {
                    x[i] = p[0][i] & p[1][i];
                }
                sha(&x)
            })
            .collect();
    }
    level[0]
}

pub fn work(prev: &Hash, txs: &[Hash], pow: &Hash) -> u32 {
    let mut d = prev.to_vec();
    d.extend(merkle_root(txs));
    d.extend(pow);
    lz(&sha(&d))
}

/// The difficulty that demands `n` leading zeros.
pub fn difficulty(n: u32) -> Hash {
    let mut d = [0u8; 32];
    for i in n as usize..256 {
        d[i / 8] |= 0x80 >> (i % 8);
    }
    d
}

pub fn limbs(u: &U256) -> Value {
    let mut v: Vec<u32> = Vec::new();
    for w in u.0.iter() {
        for k in 0..4 {
            v.push(((w >> (16 * k)) & 0xffff) as u32);
        }
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    json!(v)
}

pub fn limbs64(u: u64) -> Value {
    limbs(&U256::from(u))
}

/// Runs `f`; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn res<T, E>(r: &Result<Result<T, E>, ()>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(()) => "panic",
    }
}

/// Own decoder of the u256 encoding: length byte, big endian bytes.
pub fn take_u256(d: &[u8]) -> Option<(U256, usize)> {
    let n = *d.first()? as usize;
    if n > 32 || d.len() < 1 + n {
        return None;
    }
    Some((U256::from_big_endian(&d[1..1 + n]), 1 + n))
}

/// Own encoder of the u256 encoding.
pub fn put_u256(n: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    n.to_big_endian(&mut b);
    let skip = b.iter().take_while(|x| **x == 0).count();
    let mut v = vec![(32 - skip) as u8];
    v.extend(&b[skip..]);
    v
}

#[derive(Clone)]
pub struct Parts {
    pub kind: &'static str,
    pub root: Hash,
    pub time: u64,
    pub prev: Hash,
    pub pow: Hash,
    pub diff: Hash,
    pub founder: Addr,
    pub height: U256,
    pub fee: U256,
    pub txs: Vec<Hash>,
}

/// Own decoder of a block's encoding.
pub fn parse_block(d: &[u8]) -> Option<Parts> {
    let kind = match *d.first()? {
        2 => "tx",
        3 => "der",
        4 => "sum",
        _ => return None,
    };
    let mut i = 1;
    let mut root = [0; 32];
    if kind != "der" {
        root = d.get(i..i + 32)?.try_into().ok()?;
        i += 32;
    }
    let time = u64::from_be_bytes(d.get(i..i + 8)?.try_into().ok()?);
    i += 8;
    let prev = d.get(i..i + 32)?.try_into().ok()?;
    i += 32;
    let pow = d.get(i..i + 32)?.try_into().ok()?;
    i += 32;
    let diff = d.get(i..i + 32)?.try_into().ok()?;
    i += 32;
    let founder = d.get(i..i + 33)?.try_into().ok()?;
    i += 33;
    let (height, n) = take_u256(d.get(i..)?)?;
    i += n;
    let mut fee = U256::zero();
    let mut txs = vec![];
    if kind == "tx" {
        let (f, n) = take_u256(d.get(i..)?)?;
        fee = f;
        i += n;
        if (d.len() - i) % 32 != 0 {
            return None;
        }
        txs = d[i..].chunks(32).map(|c| c.try_into().unwrap()).collect();
    }
    Some(Parts { kind, root, time, prev, pow, diff, founder, height, fee, txs })
}

/// Small seeded generator (xorshift*), so that a run depends on its seed alone.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % (n.max(1) as u64)) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        for x in b.iter_mut() {
            *x = (self.next() >> 24) as u8;
        }
        b
    }
    pub fn u256(&mut self) -> U256 {
        U256::from_big_endian(&self.bytes::<32>())
    }
}

#[derive(Default)]
pub struct Ids {
    map: HashMap<Hash, i64>,
}
impl Ids {
    pub fn id(&mut self, h: &Hash) -> i64 {
        let n = self.map.len() as i64 + 1;
        *self.map.entry(*h).or_insert(n)
    }
    pub fn get(&self, h: &Hash) -> i64 {
        *self.map.get(h).unwrap_or(&0)
    }
}
