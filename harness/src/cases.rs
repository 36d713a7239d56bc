//! Cases: one line in, one line out.  The specification says what each line has to
//! look like; here the real code is asked.
use crate::util::*;
use crate::world::{find_pow, runtime};
use blockchaintree::block::{self, BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::merkletree::MerkleTree;
use blockchaintree::static_values::*;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable, TransactionableItem};
use blockchaintree::txpool::TxPool;
use num_bigint::BigUint;
use primitive_types::U256;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::Arc;

fn s<'a>(c: &'a Value, k: &str) -> &'a str {
    c[k].as_str().unwrap_or("")
}
fn n(c: &Value, k: &str) -> usize {
    c[k].as_u64().unwrap_or(0) as usize
}
fn u256_of(v: &Value) -> U256 {
    let mut u = U256::zero();
    for (i, x) in v.as_array().unwrap().iter().enumerate() {
        u = u + (U256::from(x.as_u64().unwrap()) << (16 * i));
    }
    u
}
fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
}
fn arr<const N: usize>(v: &Value) -> [u8; N] {
    bytes_of(v).try_into().unwrap()
}
fn be(u: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    u.to_big_endian(&mut b);
    b.to_vec()
}
fn word<T, E>(r: &Result<Result<T, E>, ()>, f: impl FnOnce(&T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"res": "ok", "v": f(v)}),
        Ok(Err(_)) => json!({"res": "err"}),
        Err(()) => json!({"res": "panic"}),
    }
}

pub fn run(c: &Value, rng: &mut Rng, scratch: &Path) -> Value {
    let mut o = c.clone();
    let r = match s(c, "k") {
        "retarget" => retarget(c),
        "validate" => validate(c, rng),
        "value" => value(c),
        "bytes" => bytes(c),
        "sig" => sig(c, rng),
        "merkle" => merkle(c, rng),
        "pool" | "swarm" => pool(c, rng),
        "funds" => funds(c, rng, scratch),
        "pack" => pack(c, rng, scratch),
        "bulk" => bulk(c, rng),
        "mass" => crate::mass::mass(c, rng, scratch),
        x => panic!("no such case: {x}"),
    };
    o["r"] = r;
    o
}

// ------------------------------------------------------------------ difficulty

fn retarget(c: &Value) -> Value {
    let (p, t) = (u256_of(&c["p"]).as_u64(), u256_of(&c["t"]).as_u64());
    let mut d = if n(c, "lz") == 0 { BEGINNING_DIFFICULTY } else { difficulty(n(c, "lz") as u32) };
    match guard(|| {
        tools::recalculate_difficulty(p, t, &mut d);
        (d, tools::recalculate_fee(&d))
    }) {
        Ok((d, f)) => {
            let z = lz(&d);
            json!({"res": "ok", "lz": z, "canon": d == difficulty(z), "fee": limbs(&f)})
        }
        Err(()) => json!({"res": "panic", "lz": 0, "canon": false, "fee": []}),
    }
}

// ------------------------------------------------------------------ validation

fn make(kind: &str, info: BasicInfo, root: Hash, fee: U256, txs: Vec<Hash>) -> BlockArc {
    match kind {
        "tx" => Arc::new(TransactionBlock::new(fee, info, root, txs)),
        "sum" => Arc::new(SummarizeBlock { default_info: info, merkle_tree_root: root }),
        _ => Arc::new(DerivativeBlock { default_info: info }),
    }
}

fn retargeted(p: u32, before: u64, now: u64) -> u32 {
    let d = now.saturating_sub(before);
    match d.cmp(&TIME_PER_BLOCK) {
        std::cmp::Ordering::Less => (p + 1).min(256),
        std::cmp::Ordering::Equal => p,
        std::cmp::Ordering::Greater => p.saturating_sub(1).max(1),
    }
}

fn validate(c: &Value, rng: &mut Rng) -> Value {
    let kind = s(c, "kind");
    let plz = n(c, "plz") as u32;
    let ptime = match s(c, "ptime") {
        "zero" => 0,
        "max" => u64::MAX - rng.below(3) as u64,
        _ => INCEPTION_TIMESTAMP + rng.below(100_000) as u64,
    };
    let time = match s(c, "time") {
        "same" => ptime,
        "past" => ptime.saturating_sub(1 + rng.below(5000) as u64),
        "early" => ptime.saturating_add(1 + rng.below(598) as u64),
        "on-" => ptime.saturating_add(TIME_PER_BLOCK - 1),
        "on" => ptime.saturating_add(TIME_PER_BLOCK),
        "on+" => ptime.saturating_add(TIME_PER_BLOCK + 1),
        "zero" => 0,
        "max" => u64::MAX,
        _ => ptime.saturating_add(TIME_PER_BLOCK + 2 + rng.below(100_000) as u64),
    };
    let pdiff = match s(c, "pdiff") {
        "" => difficulty(plz),
        "ones" => [0xff; 32],
        "random" => rng.bytes(),
        _ => {
            // some leading zeros, then anything
            let mut d: Hash = rng.bytes();
            for b in d.iter_mut().take(rng.below(33)) {
                *b = 0;
            }
            d
        }
    };
    let height = match s(c, "ph") {
        "zero" => U256::zero(),
        "one" => U256::one(),
        "epoch" => U256::from(BLOCKS_PER_EPOCH as u64) * U256::from(1 + rng.below(3) as u64) - U256::from(rng.below(3)),
        "byte" => U256::from(256u64 << (8 * rng.below(3))) - U256::from(rng.below(3)),
        "max" => U256::MAX,
        _ => U256::from(rng.below(2000)),
    };
    let ptxs: Vec<Hash> = (0..1 + rng.below(3)).map(|_| rng.bytes()).collect();
    let pinfo = BasicInfo::new(ptime, rng.bytes(), rng.bytes(), height, pdiff, rng.bytes());
    let proot = if s(c, "pkind") == "tx" { merkle_root(&ptxs) } else { rng.bytes() };
    let prev = make(s(c, "pkind"), pinfo, proot, U256::from(rng.below(1_000_000)), ptxs.clone());
    let phash = sha(&prev.dump().unwrap());
    // the block's parts
    let mut txs: Vec<Hash> = if kind == "tx" { (0..n(c, "ntx")).map(|_| rng.bytes()).collect() } else { vec![] };
    for k in 0..txs.len() {
        match s(c, "txs") {
            "zeros" => txs[k] = [0; 32],
            "twice" => txs[k] = txs[k / 2],
            "pred" if k < ptxs.len() => txs[k] = ptxs[k],
            "link" => txs[k] = phash,
            _ => {}
        }
    }
    let txs = txs;
    let link = match s(c, "link") {
        "bit" => {
            let mut h = phash;
            let k = rng.below(256);
            h[k / 8] ^= 1 << (k % 8);
            h
        }
        "zero" => [0; 32],
        "before" => prev.get_info().previous_hash,
        "random" => rng.bytes(),
        _ => phash,
    };
    let want = retargeted(plz, ptime, time);
    let diff = match s(c, "diff") {
        "harder" => difficulty((want + 1).min(256)),
        "easier" => difficulty(want.saturating_sub(1)),
        "kept" => pdiff,
        "first" => BEGINNING_DIFFICULTY,
        "bit" => {
            let mut d = difficulty(want);
            let k = rng.below(256);
            d[k / 8] ^= 1 << (k % 8);
            d
        }
        "random" => rng.bytes(),
        _ => difficulty(want),
    };
    let mtxs = txs.clone();
    let root = if kind == "der" {
        [0; 32]
    } else if kind == "sum" {
        rng.bytes()
    } else {
        match s(c, "root") {
            "zero" => [0; 32],
            "random" => rng.bytes(),
            "dropped" => merkle_root(&txs[..txs.len().saturating_sub(1)]),
            "added" => {
                let mut t = txs.clone();
                t.push(rng.bytes());
                merkle_root(&t)
            }
            "replaced" if !txs.is_empty() => {
                let mut t = txs.clone();
                let k = rng.below(t.len());
                t[k] = rng.bytes();
                merkle_root(&t)
            }
            "bit" => {
                let mut h = merkle_root(&txs);
                let k = rng.below(256);
                h[k / 8] ^= 1 << (k % 8);
                h
            }
            _ => merkle_root(&txs),
        }
    };
    let need = lz(&pdiff);
    let salt = rng.next();
    let pow = if need > 24 {
        rng.bytes()
    } else {
        let r = match s(c, "pow") {
            "more" => find_pow(&link, &mtxs, salt, |w| w > need),
            "short" if need > 0 => find_pow(&link, &mtxs, salt, |w| w + 1 == need),
            "none" if need > 0 => find_pow(&link, &mtxs, salt, |w| w == 0),
            "zeros" => Some([0; 32]),
            // enough over the block's own hash, over the predecessor's predecessor, or
            // over other transactions, not over what counts
            "wrongtx" if need > 0 => {
                let o: Vec<Hash> = if mtxs.is_empty() { vec![rng.bytes()] } else { vec![] };
                pick_pow(&link, &mtxs, &link, &o, need, salt)
            }
            "wrongprev" if need > 0 => pick_pow(&link, &mtxs, &prev.get_info().previous_hash, &mtxs, need, salt),
            // enough for the new block's easier demand only
            "new" if need > 1 => find_pow(&link, &mtxs, salt, |w| w + 1 == need),
            _ => find_pow(&link, &mtxs, salt, |w| w == need),
        };
        r.unwrap_or_else(|| rng.bytes())
    };
    let bheight = match s(c, "height") {
        "random" => rng.u256(),
        "max" => U256::MAX,
        "zero" => U256::zero(),
        "one" => U256::one(),
        "same" => height,
        "below" => height.overflowing_sub(U256::one()).0,
        "skip" => height.overflowing_add(U256::from(2)).0,
        _ => height.overflowing_add(U256::one()).0,
    };
    let founder = match s(c, "founder") {
        "zero" => [0; 33],
        "same" => prev.get_info().founder,
        "root" => ROOT_PUBLIC_ADDRESS,
        _ => rng.bytes(),
    };
    let fee = match s(c, "fee") {
        "zero" => U256::zero(),
        "max" => U256::MAX,
        _ => *FEE_STEP * lz(&diff),
    };
    let info = BasicInfo::new(time, pow, link, bheight, diff, founder);
    let b = make(kind, info, root, fee, txs.clone());
    let alone = s(c, "pred") == "none";
    let r = guard(|| b.validate(if alone { None } else { Some(prev.clone()) }));
    let res = match r {
        Ok(Ok(true)) => "true",
        Ok(Ok(false)) => "false",
        Ok(Err(_)) => "err",
        Err(()) => "panic",
    };
    let vb = guard(|| b.verify_block(&phash));
    json!({"res": res, "alone": alone, "kind": kind, "link": link == phash, "plz": lz(&pdiff), "pcanon": pdiff == difficulty(lz(&pdiff)),
        "ptime": limbs64(ptime), "time": limbs64(time), "lz": lz(&diff), "canon": diff == difficulty(lz(&diff)),
        "work": work(&link, &txs, &pow), "root": kind != "tx" || root == merkle_root(&txs),
        "verify": match vb { Ok(true) => "true", Ok(false) => "false", _ => "panic" }})
}

/// work enough over (a, ta) but not over (k, t)
fn pick_pow(k: &Hash, t: &[Hash], a: &Hash, ta: &[Hash], need: u32, salt: u64) -> Option<Hash> {
    for i in 0..200 {
        let p = find_pow(a, ta, salt.wrapping_add(i), |w| w >= need)?;
        if work(k, t, &p) < need {
            return Some(p);
        }
    }
    None
}

// ------------------------------------------------------------------ encodings

fn info_json(i: &BasicInfo) -> serde_json::Map<String, Value> {
    let mut m = serde_json::Map::new();
    m.insert("ts".into(), json!(i.timestamp.to_be_bytes()));
    m.insert("prev".into(), json!(i.previous_hash));
    m.insert("pow".into(), json!(i.pow));
    m.insert("diff".into(), json!(i.difficulty));
    m.insert("founder".into(), json!(i.founder.to_vec()));
    m.insert("height".into(), json!(be(&i.height)));
    m
}
/// what a block says of itself
fn block_json(b: &dyn Block) -> Value {
    let mut m = info_json(b.get_info());
    m.insert("founder".into(), json!(b.get_founder().to_vec()));
    let t = match (b.get_type() as u8, b.transactions()) {
        (2, Some(t)) => {
            m.insert("fee".into(), json!(be(&b.get_fee())));
            m.insert("root".into(), json!(b.get_merkle_root()));
            m.insert("txs".into(), json!(t));
            "txb"
        }
        (4, None) if b.get_fee().is_zero() => {
            m.insert("root".into(), json!(b.get_merkle_root()));
            "sum"
        }
        (3, None) if b.get_fee().is_zero() => "der",
        _ => "of no kind",
    };
    m.insert("t".into(), json!(t));
    Value::Object(m)
}
fn der_json(b: &DerivativeBlock) -> Value {
    block_json(b)
}
fn tx_json(t: &Transaction) -> Value {
    json!({"t": "tx", "sender": t.get_sender().to_vec(), "receiver": t.get_receiver().to_vec(),
        "ts": t.get_timestamp().to_be_bytes(), "sig": t.get_signature().to_vec(),
        "amount": be(t.get_amount()), "data": t.get_data().unwrap_or(&[])})
}
fn num(v: &Value) -> U256 {
    U256::from_big_endian(&bytes_of(v))
}
fn info_of(v: &Value) -> BasicInfo {
    BasicInfo::new(u64::from_be_bytes(arr(&v["ts"])), arr(&v["pow"]), arr(&v["prev"]), num(&v["height"]), arr(&v["diff"]), arr(&v["founder"]))
}

/// encodes a value and decodes what came out
fn value(c: &Value) -> Value {
    let v = &c["v"];
    let r = guard(|| match s(v, "t") {
        "tx" => {
            let d = bytes_of(&v["data"]);
            let d = if d.is_empty() && !v["some"].as_bool().unwrap_or(false) { None } else { Some(d) };
            let t = Transaction::new_signed(arr(&v["sender"]), arr(&v["receiver"]), u64::from_be_bytes(arr(&v["ts"])), num(&v["amount"]), d, arr(&v["sig"]));
            let dump = t.dump().map_err(|_| ())?;
            let h = t.hash();
            let back = guard(|| Transaction::parse(&dump[1..]));
            let again = match &back {
                Ok(Ok(t)) => t.hash() == h && t.dump().map_or(false, |x| x == dump) && t.get_dump_size() == dump.len(),
                _ => false,
            };
            Ok((t.get_dump_size(), h == sha(&dump), word(&back, |t| tx_json(t)), again, dump))
        }
        "u256" => {
            let x = num(&v["n"]);
            let mut dump = vec![];
            tools::dump_u256(&x, &mut dump).map_err(|_| ())?;
            let back = guard(|| tools::load_u256(&dump));
            Ok((tools::u256_size(&x), true, word(&back, |r| json!({"t": "u256", "n": be(&r.0)})), true, dump))
        }
        "big" => {
            let x = BigUint::from_bytes_be(&bytes_of(&v["n"]));
            let mut dump = vec![];
            tools::dump_biguint(&x, &mut dump).map_err(|_| ())?;
            let back = guard(|| tools::load_biguint(&dump));
            Ok((tools::bigint_size(&x), true, word(&back, |r| json!({"t": "big", "n": big_be(&r.0)})), true, dump))
        }
        "der" => {
            let b = DerivativeBlock { default_info: info_of(v) };
            let dump = b.dump().map_err(|_| ())?;
            let h = b.hash().map_err(|_| ())?;
            let back = guard(|| DerivativeBlock::parse(&dump[1..]));
            let again = match &back {
                Ok(Ok(t)) => t.hash().map_or(false, |x| x == h) && t.dump().map_or(false, |x| x == dump) && t.get_dump_size() == dump.len(),
                _ => false,
            };
            Ok((b.get_dump_size(), h == sha(&dump), word(&back, der_json), again, dump))
        }
        t => {
            let b: BlockArc = if t == "txb" {
                let txs = v["txs"].as_array().unwrap().iter().map(arr).collect();
                Arc::new(TransactionBlock::new(num(&v["fee"]), info_of(v), arr(&v["root"]), txs))
            } else {
                Arc::new(SummarizeBlock { default_info: info_of(v), merkle_tree_root: arr(&v["root"]) })
            };
            let dump = b.dump().map_err(|_| ())?;
            let h = b.hash().map_err(|_| ())?;
            let back = guard(|| block::deserialize_main_chain_block(&dump));
            let again = match &back {
                Ok(Ok(t)) => t.hash().map_or(false, |x| x == h) && t.dump().map_or(false, |x| x == dump) && t.get_dump_size() == dump.len(),
                _ => false,
            };
            Ok((b.get_dump_size(), h == sha(&dump), word(&back, |b| block_json(b.as_ref())), again, dump))
        }
    });
    match r {
        Ok(Ok((size, hashed, back, again, dump))) => json!({"res": "ok", "dump": dump, "size": size, "hash": hashed, "back": back, "again": again}),
        Ok(Err::<_, ()>(())) => json!({"res": "err", "dump": [], "size": 0, "hash": false, "back": {"res": "err"}, "again": false}),
        Err(()) => json!({"res": "panic", "dump": [], "size": 0, "hash": false, "back": {"res": "err"}, "again": false}),
    }
}

fn big_be(x: &BigUint) -> Vec<u8> {
    let v = x.to_bytes_be();
    if v == [0] { vec![] } else { v }
}

/// decodes bytes
fn bytes(c: &Value) -> Value {
    let d = bytes_of(&c["d"]);
    match s(c, "as") {
        "u256" => word(&guard(|| tools::load_u256(&d)), |r| json!({"t": "u256", "n": be(&r.0)})),
        "big" => word(&guard(|| tools::load_biguint(&d)), |r| json!({"t": "big", "n": big_be(&r.0)})),
        "tx" => word(&guard(|| Transaction::parse(&d)), tx_json),
        "der" => word(&guard(|| DerivativeBlock::parse(&d)), der_json),
        "info" => word(&guard(|| BasicInfo::parse(&d)), |i| {
            let mut m = info_json(i);
            m.insert("t".into(), json!("info"));
            Value::Object(m)
        }),
        "txb" => word(&guard(|| TransactionBlock::parse(&d)), |b| block_json(b)),
        "sum" => word(&guard(|| SummarizeBlock::parse(&d)), |b| block_json(b)),
        _ => word(&guard(|| block::deserialize_main_chain_block(&d)), |b| block_json(b.as_ref())),
    }
}

// ------------------------------------------------------------------ signatures

const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0,
    0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];

fn key(rng: &mut Rng) -> ([u8; 32], [u8; 33]) {
    loop {
        let k: [u8; 32] = rng.bytes();
        if let Ok(sk) = secp256k1::SecretKey::from_slice(&k) {
            return (k, sk.public_key(&secp256k1::Secp256k1::new()).serialize());
        }
    }
}

fn sig(c: &Value, rng: &mut Rng) -> Value {
    let (k1, a1) = key(rng);
    let (k2, a2) = key(rng);
    let receiver: [u8; 33] = match s(c, "to") {
        "self" => a1,
        "key" => a2,
        _ => rng.bytes(),
    };
    let ts = match s(c, "ts") {
        "zero" => 0,
        "max" => u64::MAX,
        _ => rng.next(),
    };
    let amount = match s(c, "amount") {
        "zero" => U256::zero(),
        "max" => U256::MAX,
        "byte" => U256::one() << (8 * (1 + rng.below(31))),
        _ => rng.u256() >> rng.below(256),
    };
    let data: Option<Vec<u8>> = match s(c, "data") {
        "none" => None,
        "empty" => Some(vec![]),
        "long" => Some((0..500 + rng.below(2000)).map(|_| rng.next() as u8).collect()),
        "huge" => Some((0..66_000 + rng.below(2000)).map(|_| rng.next() as u8).collect()),
        _ => Some((0..1 + rng.below(40)).map(|_| rng.next() as u8).collect()),
    };
    // modulo the order
    let take = |a: &[u8], b: &[u8]| -> [u8; 32] {
        let (a, b) = (U256::from_big_endian(a), U256::from_big_endian(b));
        let d = if a >= b { a - b } else { U256::from_big_endian(&ORDER) - (b - a) };
        be(&d).try_into().unwrap()
    };
    let signer = match s(c, "signer") {
        "other" => k2,
        "zero" => [0; 32],
        "order" => ORDER,
        "ones" => [0xff; 32],
        // the key of which the sender's is the negation, and some others near it
        "negated" => take(&ORDER, &k1),
        "next" => take(&k1, &[1]),
        "double" => take(&k1, &take(&ORDER, &k1)),
        "reversed" => {
            let mut k = k1;
            k.reverse();
            k
        }
        _ => k1,
    };
    let made = guard(|| Transaction::new(a1, receiver, ts, amount, signer, data.clone()));
    let made2 = guard(|| Transaction::generate_signature(&a1, &receiver, ts, &amount, data.as_deref(), &signer));
    let agree = match (&made, &made2) {
        (Ok(Ok(t)), Ok(Ok(s))) => t.get_signature() == s,
        (Ok(Err(_)), Ok(Err(_))) => true,
        _ => false,
    };
    let t = match made {
        Ok(Ok(t)) => t,
        Ok(Err(_)) => return json!({"made": "err", "agree": agree, "same": false, "before": "", "verify": "", "after": "", "again": "", "why": ""}),
        Err(()) => return json!({"made": "panic", "agree": agree, "same": false, "before": "", "verify": "", "after": "", "again": "", "why": ""}),
    };
    let mut snd = *t.get_sender();
    let mut rcv = *t.get_receiver();
    let mut time = t.get_timestamp();
    let mut x = *t.get_amount();
    let mut d = t.get_data().map(|d| d.to_vec());
    let mut sg = *t.get_signature();
    let kth = n(c, "n");
    fn flip(b: &mut [u8], k: usize) {
        let k = k % (b.len() * 8);
        b[k / 8] ^= 0x80 >> (k % 8);
    }
    match s(c, "alter") {
        "sender bit" => flip(&mut snd, kth),
        "sender other" => snd = a2,
        "sender negated" => snd[0] ^= 1,
        "sender prefix" => snd[0] = [0, 1, 4, 5, 6, 7, 0xff][kth % 7],
        "sender zero" => snd = [0; 33],
        "sender ones" => snd = [0xff; 33],
        "swap" => std::mem::swap(&mut snd, &mut rcv),
        "receiver bit" => flip(&mut rcv, kth),
        "receiver other" => rcv = rng.bytes(),
        "time bit" => time ^= 1 << (kth % 64),
        "time next" => time = time.wrapping_add(1),
        "amount bit" => x ^= U256::one() << (kth % 256),
        "amount next" => x = x.overflowing_add(U256::one()).0,
        "amount byte" => x = if x >> 248 == U256::zero() { (x << 8) + U256::from(rng.below(256)) } else { x >> 8 },
        // a byte moves between amount and data
        "amount to data" => {
            let b = x.byte(0);
            x = x >> 8;
            let mut v = vec![b];
            v.extend(d.clone().unwrap_or_default());
            d = Some(v);
        }
        "data bit" => match &mut d {
            Some(v) if !v.is_empty() => flip(v, kth),
            _ => d = Some(vec![1]),
        },
        "data longer" => {
            let mut v = d.clone().unwrap_or_default();
            v.push([0, 1, 0xff][kth % 3]);
            d = Some(v);
        }
        "data end" => match &mut d {
            Some(v) if !v.is_empty() => *v.last_mut().unwrap() ^= 1 << (kth % 8),
            _ => d = Some(vec![2]),
        },
        "data shorter" => match &mut d {
            Some(v) if !v.is_empty() => {
                v.pop();
            }
            _ => d = Some(vec![0]),
        },
        "data dropped" => {
            if d.as_ref().map_or(true, |v| v.is_empty()) {
                d = Some(vec![0]);
            } else {
                d = None;
            }
        }
        "sig bit" => flip(&mut sg, kth),
        "sig zero" => sg = [0; 64],
        "sig ones" => sg = [0xff; 64],
        "sig r zero" => sg[..32].fill(0),
        "sig s zero" => sg[32..].fill(0),
        "sig r order" => sg[..32].copy_from_slice(&ORDER),
        "sig s order" => sg[32..].copy_from_slice(&ORDER),
        "sig swapped" => sg.rotate_left(32),
        // the other root: n - s
        "sig high" => {
            let s0 = U256::from_big_endian(&sg[32..]);
            let mut b = [0u8; 32];
            (U256::from_big_endian(&ORDER) - s0).to_big_endian(&mut b);
            sg[32..].copy_from_slice(&b);
        }
        "sig random" => sg = {
            let mut b = [0u8; 64];
            b[..32].copy_from_slice(&rng.bytes::<32>());
            b[32..].copy_from_slice(&rng.bytes::<32>());
            b
        },
        // valid for the same content with another timestamp
        "sig old" => {
            sg = Transaction::generate_signature(&a1, &receiver, ts.wrapping_add(1), &amount, data.as_deref(), &k1).unwrap();
        }
        // by the receiver's or another key
        "sig other" => {
            sg = Transaction::generate_signature(&a1, &receiver, ts, &amount, data.as_deref(), &k2).unwrap();
        }
        _ => {}
    }
    let content = |t: &Transaction| (*t.get_sender(), *t.get_receiver(), t.get_timestamp(), *t.get_amount(), t.get_data().unwrap_or(&[]).to_vec(), *t.get_signature());
    let coded = s(c, "coded") == "yes";
    fn verdict(t: &Transaction) -> &'static str {
        match guard(|| t.verify()) {
            Ok(Ok(true)) => "true",
            Ok(Ok(false)) => "false",
            Ok(Err(_)) => "err",
            Err(()) => "panic",
        }
    }
    // the one that was made is asked before the altered one, or only after it
    let before = if rng.below(2) == 0 { verdict(&t) } else { "" };
    let made_content = content(&t);
    let u = guard(|| {
        let u = Transaction::new_signed(snd, rcv, time, x, d, sg);
        if coded {
            let dump = u.dump().map_err(|_| ())?;
            Transaction::parse(&dump[1..]).map_err(|_| ())
        } else {
            Ok(u)
        }
    });
    let (same, v) = match &u {
        Ok(Ok(u)) => (content(u) == made_content, verdict(u)),
        Ok(Err(())) => (false, "err"),
        Err(()) => (false, "panic"),
    };
    let after = verdict(&t);
    let again = match &u {
        Ok(Ok(u)) => verdict(u),
        _ => v,
    };
    json!({"made": "ok", "agree": agree, "same": same, "before": before, "verify": v, "after": after, "again": again, "why": ""})
}

// ------------------------------------------------------------------ values of megabytes

fn bulk(c: &Value, rng: &mut Rng) -> Value {
    let width = |rng: &mut Rng, w: usize| -> U256 {
        if w == 0 {
            return U256::zero();
        }
        let top = U256::one() << (8 * w - 1);
        top | (rng.u256() & (top - U256::one()))
    };
    let (a, b) = (width(rng, n(c, "a")), width(rng, n(c, "b")));
    let m = n(c, "m");
    let ok = |d: Vec<u8>, size: usize, hash: bool, want: &[u8], back: Result<Result<bool, ()>, ()>, cut: &str| {
        let back = match back {
            Ok(Ok(true)) => "ok",
            Ok(Ok(false)) => "other",
            Ok(Err(())) => "err",
            Err(()) => "panic",
        };
        json!({"res": "ok", "size": size, "len": d.len(), "layout": d == want, "hash": hash, "back": back, "cut": cut})
    };
    let bad = json!({"res": "err", "size": 0, "len": 0, "layout": false, "hash": false, "back": "", "cut": ""});
    if s(c, "t") == "tx" {
        let data: Vec<u8> = (0..m.div_ceil(8)).flat_map(|_| rng.next().to_le_bytes()).take(m).collect();
        let (from, to, time, sg): (Addr, Addr, u64, [u8; 64]) = (rng.bytes(), rng.bytes(), rng.next(), [rng.next() as u8; 64]);
        let t = Transaction::new_signed(from, to, time, a, Some(data.clone()), sg);
        let want = [&[0u8][..], &from, &to, &time.to_be_bytes(), &sg, &put_u256(&a), &data].concat();
        let Ok(Ok(d)) = guard(|| t.dump()) else { return bad };
        let back = guard(|| -> Result<bool, ()> {
            let u = Transaction::parse(&d[1..]).map_err(|_| ())?;
            Ok(u.get_data() == Some(&data[..]) && *u.get_sender() == from && *u.get_receiver() == to && u.get_timestamp() == time
                && *u.get_signature() == sg && *u.get_amount() == a && u.hash() == t.hash() && u.get_dump_size() == want.len())
        });
        let cut = match guard(|| Transaction::parse(&d[1..d.len() - 1])) {
            Ok(Ok(u)) => if u.get_data() == Some(&data[..m - 1]) && *u.get_sender() == from { "shorter" } else { "other" },
            Ok(Err(_)) => "err",
            Err(()) => "panic",
        };
        let (size, hash) = (t.get_dump_size(), matches!(guard(|| t.hash()), Ok(h) if h == sha(&want)));
        return ok(d, size, hash, &want, back, cut);
    }
    let txs: Vec<Hash> = (0..m).map(|_| rng.bytes()).collect();
    let root: Hash = rng.bytes();
    let info = BasicInfo::new(rng.next(), rng.bytes(), rng.bytes(), a, difficulty(7), rng.bytes());
    let i = &info;
    let want = [&[2u8][..], &root, &i.timestamp.to_be_bytes(), &i.previous_hash, &i.pow, &i.difficulty, &i.founder, &put_u256(&a), &put_u256(&b), &txs.concat()].concat();
    let t = TransactionBlock::new(b, info, root, txs.clone());
    let Ok(Ok(d)) = guard(|| t.dump()) else { return bad };
    let back = guard(|| -> Result<bool, ()> {
        let u = block::deserialize_main_chain_block(&d).map_err(|_| ())?;
        Ok(u.transactions().is_some_and(|x| x == txs) && u.dump().is_ok_and(|x| x == want) && u.get_fee() == b && u.get_merkle_root() == root
            && u.hash().is_ok_and(|h| h == sha(&want)) && u.get_info().height == a)
    });
    let cut = match guard(|| block::deserialize_main_chain_block(&d[..d.len() - 1]).is_ok()) {
        Ok(true) => "other",
        Ok(false) => "err",
        Err(()) => "panic",
    };
    let (size, hash) = (t.get_dump_size(), matches!(guard(|| t.hash()), Ok(Ok(h)) if h == sha(&want)));
    ok(d, size, hash, &want, back, cut)
}

// ------------------------------------------------------------------ merkle

/// list: symbols (small numbers); equal symbols are equal values, 0 is the padding,
/// 100000 k + s (k = 1, 2, 3) a value like s except for one bit
fn merkle(c: &Value, rng: &mut Rng) -> Value {
    let syms: Vec<usize> = c["list"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let max = 400.max(syms.len() + 10);
    let mut vals: Vec<Hash> = (0..=max).map(|_| rng.bytes()).collect();
    vals[0] = [0xff; 32];
    let val = |s: usize| {
        let mut v = vals[s % 100000];
        match s / 100000 {
            0 => {}
            1 => v[31] ^= 1,
            2 => v[0] ^= 0x80,
            _ => v[16] ^= 0x10,
        }
        v
    };
    let items: Vec<Hash> = syms.iter().map(|s| val(*s)).collect();
    let Ok(tree) = guard(|| MerkleTree::build_tree(&items)) else {
        return json!({"res": "panic", "proofs": [], "tries": [], "again": false, "same": [], "asked": 0, "unproved": []});
    };
    let root = *tree.get_root();
    let again = guard(|| *MerkleTree::build_tree(&items).get_root() == root).unwrap_or(false);
    let mut proofs = vec![];
    let mut tries = vec![];
    let check = |v: &Hash, r: &Hash, p: &[Hash]| -> &'static str {
        let refs: Vec<&Hash> = p.iter().collect();
        match guard(|| MerkleTree::verify_proof(v, r, &refs)) {
            Ok(true) => "true",
            Ok(false) => "false",
            Err(()) => "panic",
        }
    };
    // positions to ask about
    let mut at: Vec<usize> = (0..items.len()).collect();
    let cap = n(c, "cap").max(1);
    while at.len() > cap {
        // the last one stays
        let k = rng.below(at.len() - 1);
        at.remove(k);
    }
    for i in at {
        let v = items[i];
        let p: Vec<Hash> = match guard(|| tree.get_proof(&v).into_iter().copied().collect::<Vec<Hash>>()) {
            Ok(p) => p,
            Err(()) => {
                proofs.push("panic");
                continue;
            }
        };
        proofs.push("ok");
        let q = p[..p.len() - 1].to_vec();
        let mut push = |what: &str, r: &str| tries.push(json!([what, r, syms[i]]));
        push("member", check(&v, &root, &q));
        push("other value", check(&rng.bytes(), &root, &q));
        push("fresh value", check(&vals[max], &root, &q));
        let mut w = v;
        w[rng.below(32)] ^= 1 << rng.below(8);
        // a bit the sibling has as well counts
        let changes = (0..32).any(|j| w[j] & q[0][j] != v[j] & q[0][j]);
        if changes {
            push("altered value", check(&w, &root, &q));
        } else {
            push("altered value, lost in the sibling", check(&w, &root, &q));
        }
        for _ in 0..items.len().min(3) {
            let w = items[rng.below(items.len())];
            if w == v {
                continue;
            }
            let changes = (0..32).any(|j| w[j] & q[0][j] != v[j] & q[0][j]);
            push(if changes { "other member" } else { "other member, lost in the sibling" }, check(&w, &root, &q));
        }
        push("random root", check(&v, &rng.bytes(), &q));
        // what lies between the leaves and the root, and the root, are no members
        push("root as value", check(&root, &root, &q));
        push("value as root", check(&v, &v, &q));
        let mut x = v;
        for e in &q {
            for j in 0..32 {
                x[j] &= e[j];
            }
            x = sha(&x);
            push("node as value", check(&x, &root, &q));
        }
        let mut r2 = root;
        r2[rng.below(32)] ^= 1 << rng.below(8);
        push("altered root", check(&v, &r2, &q));
        // the list with one member more, less, another
        let mut l = items.clone();
        l.push(rng.bytes());
        push("root with one more", check(&v, MerkleTree::build_tree(&l).get_root(), &q));
        let mut l = items.clone();
        let k = rng.below(l.len());
        l[k] = rng.bytes();
        push("root with another", check(&v, MerkleTree::build_tree(&l).get_root(), &q));
        for k in 0..q.len() {
            let mut q2 = q.clone();
            q2[k] = rng.bytes();
            push("replaced in proof", check(&v, &root, &q2));
            let mut q2 = q.clone();
            let (b, m) = (rng.below(32), 1u8 << rng.below(8));
            q2[k][b] ^= m;
            // does the bit matter?
            let mut x = v;
            for e in &q[..k] {
                let mut y = [0u8; 32];
                for j in 0..32 {
                    y[j] = x[j] & e[j];
                }
                x = sha(&y);
            }
            if x[b] & m != 0 {
                push("bit in proof", check(&v, &root, &q2));
            } else {
                push("bit in proof, lost in the other", check(&v, &root, &q2));
            }
        }
        if q.len() > 1 {
            push("shorter proof", check(&v, &root, &q[..q.len() - 1]));
            push("shorter proof", check(&v, &root, &q[1..]));
        }
        push("longer proof", check(&v, &root, &p));
        let mut q2 = q.clone();
        q2.push([0xff; 32]);
        push("longer proof", check(&v, &root, &q2));
        // a value that is no member gets no proof
        let f: Hash = rng.bytes();
        if let Ok(p) = guard(|| tree.get_proof(&f).into_iter().copied().collect::<Vec<Hash>>()) {
            push("no member", check(&f, &root, &p[..p.len() - 1]));
        } else {
            push("no member", "panic");
        }
        if !syms.contains(&0) {
            if let Ok(p) = guard(|| tree.get_proof(&vals[0]).into_iter().copied().collect::<Vec<Hash>>()) {
                push("no member, the padding", check(&vals[0], &root, &p[..p.len() - 1]));
            }
        }
    }
    // how the root changes with the list
    let mut same = vec![];
    for l in c["variants"].as_array().unwrap() {
        let l: Vec<Hash> = l.as_array().unwrap().iter().map(|x| val(x.as_u64().unwrap() as usize)).collect();
        same.push(match guard(|| *MerkleTree::build_tree(&l).get_root() == root) {
            Ok(true) => "same",
            Ok(false) => "new",
            Err(()) => "panic",
        });
    }
    // every member of a list (of a long one: the ends, the turns, some others) has a proof that holds
    let mut at: Vec<usize> = if items.len() <= 2100 {
        (0..items.len()).collect()
    } else {
        let mut at = vec![0, 1, items.len() / 2, items.len() - 2, items.len() - 1];
        let mut p = 2;
        while p < items.len() {
            at.extend([p - 1, p, p + 1]);
            p *= 2;
        }
        at.extend((0..400).map(|_| rng.below(items.len())));
        at.retain(|k| *k < items.len());
        at
    };
    at.sort();
    at.dedup();
    let mut unproved = vec![];
    for i in at.iter() {
        let held = guard(|| {
            let p: Vec<Hash> = tree.get_proof(&items[*i]).into_iter().copied().collect();
            check(&items[*i], &root, &p[..p.len() - 1])
        });
        if held != Ok("true") && unproved.len() < 10 {
            unproved.push(i + 1);
        }
    }
    json!({"res": "ok", "proofs": proofs, "tries": tries, "again": again, "same": same, "asked": at.len(), "unproved": unproved})
}

// ------------------------------------------------------------------ pool

struct Item {
    ts: u64,
    hash: Hash,
    a: [u8; 33],
    g: [u8; 64],
}
impl Transactionable for Item {
    fn hash_without_signature(&self) -> [u8; 32] {
        self.hash
    }
    fn verify(&self) -> error_stack::Result<bool, blockchaintree::errors::TransactionError> {
        Ok(true)
    }
    fn dump(&self) -> error_stack::Result<Vec<u8>, blockchaintree::errors::TransactionError> {
        Ok(self.hash.to_vec())
    }
    fn hash(&self) -> [u8; 32] {
        self.hash
    }
    fn get_dump_size(&self) -> usize {
        32
    }
    fn parse(_: &[u8]) -> error_stack::Result<Self, blockchaintree::errors::TransactionError> {
        unimplemented!()
    }
    fn get_sender(&self) -> &[u8; 33] {
        &self.a
    }
    fn get_receiver(&self) -> &[u8; 33] {
        &self.a
    }
    fn get_timestamp(&self) -> u64 {
        self.ts
    }
    fn get_signature(&self) -> &[u8; 64] {
        &self.g
    }
    fn get_amount(&self) -> Option<U256> {
        None
    }
    fn get_data(&self) -> Option<&[u8]> {
        None
    }
}

/// items: [timestamp class, hash class]; ops: ["push", i], ["pop"], ["has", i]
fn pool(c: &Value, rng: &mut Rng) -> Value {
    let real = s(c, "items") == "real";
    let times: Vec<u64> = c["times"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let base = if rng.below(2) == 0 { 0 } else { (u64::MAX >> 1) - 3 + rng.below(3) as u64 };
    let m: Hash = rng.bytes();
    let mut hashes: Vec<Hash> = vec![];
    let mut txs: Vec<Transaction> = vec![];
    for t in &times {
        if real {
            let mut sg = [0u8; 64];
            sg[..32].copy_from_slice(&rng.bytes::<32>());
            let tx = Transaction::new_signed(rng.bytes(), rng.bytes(), base + t, rng.u256(), None, sg);
            hashes.push(tx.hash());
            txs.push(tx);
        } else {
            // hashes that differ late, early or in one bit
            loop {
                let mut h = m;
                match rng.below(4) {
                    0 => h = rng.bytes(),
                    1 => h[31] = rng.next() as u8,
                    2 => h[rng.below(32)] ^= 1 << rng.below(8),
                    _ => h[8 * rng.below(4)] = rng.next() as u8,
                }
                if !hashes.contains(&h) {
                    hashes.push(h);
                    break;
                }
            }
        }
    }
    let item = |i: usize| -> TransactionableItem {
        if real {
            Box::new(txs[i].clone())
        } else {
            Box::new(Item { ts: base + times[i], hash: hashes[i], a: [0; 33], g: [0; 64] })
        }
    };
    let id = |h: &Hash| hashes.iter().position(|x| x == h).map_or(-1, |p| p as i64 + 1);
    let mut p = if rng.below(2) == 0 { TxPool::new() } else { TxPool::with_capacity(2) };
    if s(c, "k") == "swarm" {
        return match guard(|| swarm(&item, &id, times.len())) {
            Ok(v) => v,
            Err(()) => json!([]),
        };
    }
    let mut evs = vec![];
    for o in c["ops"].as_array().unwrap() {
        let i = o[1].as_u64().unwrap_or(0) as usize;
        let r = match o[0].as_str().unwrap() {
            "push" => match guard(|| p.push(item(i - 1))) {
                Ok(true) => 1,
                Ok(false) => 0,
                Err(()) => -3,
            },
            "new" => {
                p = TxPool::new();
                1
            }
            "has" => match guard(|| p.transaction_exists(&hashes[i - 1])) {
                Ok(true) => 1,
                Ok(false) => 0,
                Err(()) => -3,
            },
            _ => match guard(|| p.pop()) {
                Ok(None) => 0,
                Ok(Some((h, t))) => {
                    let k = id(&h);
                    if k > 0 && t.hash() == h && t.get_timestamp() == base + times[k as usize - 1] { k } else { -2 }
                }
                Err(()) => -3,
            },
        };
        let has: Vec<i64> = (1..=hashes.len() as i64).filter(|k| p.transaction_exists(&hashes[*k as usize - 1])).collect();
        let mut held: Vec<i64> = p.transactions_iter().map(|t| id(&t.hash())).collect();
        held.sort();
        evs.push(json!({"op": o[0], "i": i, "r": r, "len": p.len(), "empty": p.is_empty(), "has": has, "held": held}));
    }
    json!(evs)
}

/// everything in, some of it again, and out; once more in another order
fn swarm(item: &dyn Fn(usize) -> TransactionableItem, id: &dyn Fn(&Hash) -> i64, n: usize) -> Value {
    let mut rounds = vec![];
    for round in 0..2 {
        let mut p = if round == 0 { TxPool::new() } else { TxPool::with_capacity(n / 3) };
        let order: Vec<usize> = if round == 0 { (0..n).collect() } else { (0..n).rev().collect() };
        let taken: Vec<usize> = order.iter().map(|i| (p.push(item(*i)), p.len()).1).collect();
        let twice = order.iter().filter(|i| *i % 3 == 0 && p.push(item(**i))).count();
        let known = (0..n).filter(|i| p.transaction_exists(&item(*i).hash())).count();
        let listed = p.transactions_iter().count();
        let mut out = vec![];
        let mut left = vec![];
        while let Some((h, t)) = p.pop() {
            out.push(if t.hash() == h { id(&h) } else { -2 });
            left.push(p.len());
            if out.len() > n + 10 {
                break;
            }
        }
        rounds.push(json!({"taken": taken, "twice": twice, "known": known, "listed": listed, "out": out, "left": left, "empty": p.is_empty()}));
    }
    json!(rounds)
}

// ------------------------------------------------------------------ funds

fn funds(c: &Value, rng: &mut Rng, scratch: &Path) -> Value {
    let mut addrs = crate::world::addresses(rng, n(c, "n"));
    // bytes that are no text
    for a in addrs.iter_mut().skip(1) {
        match rng.below(4) {
            0 => *a = rng.bytes(),
            1 => a[rng.below(33)] = 0x80 | rng.next() as u8,
            _ => {}
        }
    }
    let mut dir = scratch.join("funds");
    let _ = std::fs::remove_dir_all(&dir);
    let mut killed = vec![];
    let rt = runtime();
    let mut db = Some(SummaryDB::new(sled::open(&dir).unwrap()));
    let mut evs = vec![];
    let get = |db: &SummaryDB, a: &Addr| -> Value {
        match guard(|| db.get_funds(a)) {
            Ok(Ok(v)) => limbs(&U256::from_big_endian(&v.to_bytes_be())),
            Ok(Err(_)) => json!([-1]),
            Err(()) => json!([-2]),
        }
    };
    let look = |db: &SummaryDB, addrs: &[Addr]| -> Value { addrs.iter().map(|a| get(db, a)).collect() };
    for o in c["ops"].as_array().unwrap() {
        let k = o[0].as_str().unwrap();
        let a = o[1].as_u64().unwrap_or(1) as usize;
        let cl = o[2].as_str().unwrap_or("");
        let d = db.as_ref().unwrap();
        let bal = match get(d, &addrs[a - 1]) {
            Value::Array(v) if v.first() != Some(&json!(-1)) && v.first() != Some(&json!(-2)) => u256_of(&Value::Array(v)),
            _ => U256::zero(),
        };
        let one = U256::one();
        let x = match cl {
            "zero" => U256::zero(),
            "one" => one,
            "bal" => bal,
            "bal-" => bal.saturating_sub(one),
            "bal+" => bal.saturating_add(one),
            "room" => U256::MAX - bal,
            "room+" => (U256::MAX - bal).saturating_add(one),
            "max" => U256::MAX,
            "byte" => (one << (8 * (1 + rng.below(31)))) - U256::from(rng.below(2)),
            "small" => U256::from(rng.below(1000)),
            _ => rng.u256() >> rng.below(256),
        };
        let r = match k {
            "add" => res(&guard(|| rt.block_on(d.add_funds(&addrs[a - 1], &x)))),
            "sub" => res(&guard(|| rt.block_on(d.decrease_funds(&addrs[a - 1], &x)))),
            "flush" => res(&guard(|| rt.block_on(d.flush()))),
            _ => {
                if k == "kill" {
                    // what is on disk now is what a kill leaves; the database itself lives on
                    let left = scratch.join(format!("funds{}", killed.len()));
                    let _ = std::fs::remove_dir_all(&left);
                    crate::io::Image::take(&dir, "").restore(&left);
                    killed.push((std::mem::replace(&mut dir, left), db.take()));
                }
                db = None;
                let mut opened = None;
                for i in 0..60 {
                    match sled::open(&dir) {
                        Ok(o) => {
                            opened = Some(o);
                            break;
                        }
                        Err(_) => std::thread::sleep(std::time::Duration::from_millis(2 * i)),
                    }
                }
                db = Some(SummaryDB::new(opened.unwrap()));
                "ok"
            }
        };
        let d = db.as_ref().unwrap();
        let l = look(d, &addrs);
        // an address that was never named
        let f = get(d, &rng.bytes());
        evs.push(json!({"op": k, "a": a, "x": limbs(&x), "res": r, "bal": l, "fresh": f}));
    }
    drop(db);
    let _ = std::fs::remove_dir_all(&dir);
    for (d, db) in killed {
        drop(db);
        let _ = std::fs::remove_dir_all(&d);
    }
    json!(evs)
}

// ------------------------------------------------------------------ compressed files

fn content(rng: &mut Rng, class: &str, len: usize) -> Vec<u8> {
    match class {
        "zeros" => vec![0; len],
        "rnd" => (0..len).map(|_| rng.next() as u8).collect(),
        // something a compressed file itself starts with
        "magic" => [0x28, 0xb5, 0x2f, 0xfd].iter().copied().cycle().take(len).collect(),
        _ => {
            let period = 1 + rng.below(97);
            let p: Vec<u8> = (0..period).map(|_| rng.next() as u8).collect();
            (0..len).map(|i| p[i % period]).collect()
        }
    }
}

/// a process where no file can grow beyond so many bytes
pub fn tight(path: &str, len: usize, room: u64, seed: u64) -> i32 {
    let d = content(&mut Rng::new(seed), "rnd", len);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: room, rlim_max: room };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
    }
    match guard(|| tools::compress_to_file(path.into(), &d)) {
        Ok(Ok(())) => 0,
        Ok(Err(_)) => 1,
        Err(()) => 2,
    }
}

/// what a history of writing, reading and damaging files gives
fn pack(c: &Value, rng: &mut Rng, scratch: &Path) -> Value {
    let dir = scratch.join("pack");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut puts: Vec<Vec<u8>> = vec![];
    let mut evs = vec![];
    for o in c["ops"].as_array().unwrap() {
        let k = o[0].as_str().unwrap();
        let f = n_of(&o[1]);
        let path = if f == 0 { dir.join("none").join("f0") } else { dir.join(format!("f{f}")) };
        let name = path.to_str().unwrap().to_string();
        let mut got = json!([]);
        let r = match k {
            "put" => {
                let d = content(rng, o[2].as_str().unwrap(), n_of(&o[3]));
                let r = guard(|| tools::compress_to_file(name, &d));
                puts.push(d);
                res(&r)
            }
            // there is no room for all of it
            "full" => {
                let len = 1 + rng.below(n_of(&o[2]).max(1));
                let room = if rng.below(3) == 0 { len - 1 } else { rng.below(len) };
                let by = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["tight", &name, &len.to_string(), &room.to_string(), &rng.next().to_string()])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                match by.code() {
                    Some(0) => "ok",
                    Some(1) => "err",
                    _ => "panic",
                }
            }
            "get" => {
                let r = guard(|| tools::decompress_from_file(name));
                if let Ok(Ok(d)) = &r {
                    // the numbers of the writes it is equal to
                    got = puts.iter().enumerate().filter(|(_, p)| *p == d).map(|(i, _)| i + 1).collect();
                }
                res(&r)
            }
            "cut" => match std::fs::read(&path) {
                Ok(d) if d.is_empty() => "err",
                Ok(d) => {
                    let keep = if o[2] == "end" { d.len() - 1 } else { 1 + rng.below(d.len().max(2) - 1) };
                    std::fs::write(&path, &d[..keep]).unwrap();
                    "ok"
                }
                Err(_) => "err",
            },
            // something else follows what was written
            "tail" => match std::fs::read(&path) {
                Ok(d) if d.is_empty() => "err",
                Ok(mut d) => {
                    let len = rng.below(n_of(&o[2]).max(1));
                    d.push(b'#');
                    d.extend(content(rng, "rnd", len));
                    std::fs::write(&path, &d).unwrap();
                    "ok"
                }
                Err(_) => "err",
            },
            "junk" => {
                let len = 1 + rng.below(300);
                let d = content(rng, "rnd", len);
                // never what a compressed file starts with
                std::fs::write(&path, [&b"#"[..], &d].concat()).unwrap();
                "ok"
            }
            _ => {
                let _ = std::fs::remove_file(&path);
                "ok"
            }
        };
        evs.push(json!({"op": k, "f": f, "res": r, "got": got}));
    }
    let _ = std::fs::remove_dir_all(&dir);
    json!({"evs": evs, "same": (0..puts.len()).map(|i| puts.iter().position(|p| *p == puts[i]).unwrap() + 1).collect::<Vec<_>>()})
}
fn n_of(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
