//! Scripts: abstract operations, made concrete against the state of the real tree.
use crate::util::*;
use crate::world::*;
use blockchaintree::block::{self, Block as _};
use blockchaintree::dump_headers::Headers;
use blockchaintree::static_values::*;
use primitive_types::U256;
use serde_json::Value;

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or("")
}
fn n(op: &Value, k: &str) -> usize {
    op[k].as_u64().unwrap_or(0) as usize
}

fn verb(op: &Value) -> &'static str {
    match s(op, "k") {
        "add" => "add",
        "sub" => "sub",
        "set" => "set",
        _ => "send",
    }
}

fn bal(w: &World, coin: bool, a: usize) -> U256 {
    let x = w.addr(a);
    let t = w.tree.as_ref().unwrap();
    guard(|| if coin { t.get_amount(&x) } else { t.get_gas(&x) }).ok().and_then(|r| r.ok()).unwrap_or_default()
}

/// an amount of the class `c`, for an operation on account `a` (and `b`)
pub fn amount(w: &mut World, c: &str, coin: bool, a: usize, b: usize) -> U256 {
    let one = U256::one();
    let ba = bal(w, coin, a);
    let bb = bal(w, coin, b);
    match c {
        "zero" => U256::zero(),
        "one" => one,
        "small" => U256::from(w.rng.below(1000)),
        "bal" => ba,
        "bal-" => ba.saturating_sub(one),
        "bal+" => ba.saturating_add(one),
        "part" => {
            let k = w.rng.below(250);
            (ba >> 1) >> k.min(ba.bits())
        }
        "half" => ba >> 1,
        "max" => U256::MAX,
        "room" => U256::MAX - ba,
        "room+" => (U256::MAX - ba).saturating_add(one),
        "broom" => U256::MAX - bb,
        "broom+" => (U256::MAX - bb).saturating_add(one),
        // amounts at the boundaries of the encoding: 2^(8k)-1, 2^(8k), 2^(8k)+1
        "byte" => {
            let k = w.rng.below(32);
            let p = one << (8 * k);
            match w.rng.below(3) {
                0 => p - one,
                1 => p,
                _ => p + one,
            }
        }
        // as wide as it gets
        "whole" => {
            let x = w.rng.u256();
            if x > U256::MAX - ba { U256::MAX - ba } else { x }
        }
        // such that the resulting balance of a is at a boundary of the encoding
        "tobyte" => {
            let k = w.rng.below(31) + 1;
            let p = one << (8 * k);
            if ba > p { ba - p } else { p - ba }
        }
        _ => w.rng.u256() >> w.rng.below(256),
    }
}

pub fn time(w: &mut World, c: &str, tip: u64) -> u64 {
    match c {
        "same" => tip,
        "past" => tip.saturating_sub(1 + w.rng.below(2000) as u64),
        "zero" => 0,
        "early" => tip.saturating_add(1 + w.rng.below(598) as u64),
        "on-" => tip.saturating_add(TIME_PER_BLOCK - 1),
        "on" => tip.checked_add(TIME_PER_BLOCK).unwrap_or(0),
        "on+" => tip.checked_add(TIME_PER_BLOCK + 1).unwrap_or(0),
        "late" => tip.checked_add(TIME_PER_BLOCK + 2 + (w.rng.next() >> 40)).unwrap_or(0),
        "big" => tip.checked_add(1 << 33).unwrap_or(0),
        "max" => u64::MAX,
        _ => w.rng.next() >> w.rng.below(40),
    }
}

/// keeps mining affordable: no further rise of a high demand
fn tame(c: &str, need: u32) -> &str {
    if need > 11 && !matches!(c, "late" | "on" | "on+") {
        "late"
    } else {
        c
    }
}

fn become_(w: &mut World, coin: bool, a: usize, from: U256, to: U256) {
    if to > from {
        w.ledger(coin, "add", a, a, to - from);
    } else {
        w.ledger(coin, "sub", a, a, from - to);
    }
}

pub fn run(w: &mut World, index: usize, ops: &[Value]) {
    for (i, op) in ops.iter().enumerate() {
        if w.dead() && s(op, "op") != "open" {
            break;
        }
        crate::beat::beat(&serde_json::json!({"script": index, "at": i, "op": op}).to_string());
        step(w, op);
    }
    crate::beat::rest();
}

fn nonce(w: &mut World, c: &str, k: &Hash, need: u32, txs: &[Hash]) -> Hash {
    let salt = w.rng.next();
    let any: Hash = w.rng.bytes();
    let stale = w.stale;
    let r = match c {
        "exact" => find_pow(k, txs, salt, |x| x == need),
        "more" => find_pow(k, txs, salt, |x| x > need),
        "short" if need > 0 => find_pow(k, txs, salt, |x| x + 1 == need),
        "none" if need > 0 => find_pow(k, txs, salt, |x| x == 0),
        // enough for the block before the tip, not for the tip
        "stale" if need > 0 && stale.is_some() => {
            let st = stale.unwrap();
            let mut r = None;
            for i in 0..400 {
                let Some(p) = find_pow(&st, txs, salt.wrapping_add(i), |x| x >= need) else { break };
                if work(k, txs, &p) < need {
                    r = Some(p);
                    break;
                }
            }
            r
        }
        // enough without the transactions, not with them
        "other" if need > 0 => {
            let mut r = None;
            let o: Vec<Hash> = if txs.is_empty() { vec![[3; 32]] } else { vec![] };
            for i in 0..400 {
                let Some(p) = find_pow(k, &o, salt.wrapping_add(i), |x| x >= need) else { break };
                if work(k, txs, &p) < need {
                    r = Some(p);
                    break;
                }
            }
            r
        }
        "zeros" => Some([0; 32]),
        _ => find_pow(k, txs, salt, |x| x >= need),
    };
    r.unwrap_or(any)
}

pub fn step(w: &mut World, op: &Value) {
    match s(op, "op") {
        "open" => w.open(),
        "close" => w.close(),
        "kill" => w.kill(),
        "flush" => w.flush(),
        "rest" => w.rest(),
        "wait" => std::thread::sleep(std::time::Duration::from_millis(1100)),
        "peer" => w.peer(s(op, "mode"), op["rest"].as_bool().unwrap_or(false)),
        "dflush" => w.dflush(n(op, "o")),
        "coin" | "gas" => {
            let coin = s(op, "op") == "coin";
            let (a, b) = (n(op, "a"), n(op, "b").max(1));
            if op["b"].is_null() {
                let x = amount(w, s(op, "x"), coin, a, a);
                w.ledger(coin, verb(op), a, a, x);
            } else {
                let x = amount(w, s(op, "x"), coin, a, b);
                w.ledger(coin, verb(op), a, b, x);
            }
        }
        "churn" => w.churn(n(op, "n")),
        "odd" => {
            let coin = s(op, "k") == "coin";
            let a = n(op, "a");
            let x = amount(w, s(op, "x"), coin, a, a);
            let y = amount(w, s(op, "y"), coin, a, a).min(x);
            w.odd(coin, a, x, y);
        }
        // coins or gas or both for everybody
        "crowd" => {
            for a in 2..=w.accts.len() {
                let which = w.rng.below(4);
                for (coin, on) in [(true, which != 0), (false, which > 1)] {
                    if on {
                        let c = if w.rng.below(3) == 0 { "byte" } else { "rnd" };
                        let x = amount(w, c, coin, a, a);
                        w.ledger(coin, "add", a, a, x);
                    }
                }
            }
        }
        // changes that a commitment to the balances has to tell apart: one bit of one
        // balance, two balances exchanged, coins and gas of one account exchanged
        "flip" => {
            let coin = s(op, "k") == "coin";
            let a = if s(op, "of") == "last" { w.accts.len() } else if s(op, "of") == "any" { 1 + w.rng.below(w.accts.len()) } else { n(op, "a") };
            let have = bal(w, coin, a);
            let k = match w.rng.below(5) {
                0 => w.rng.below(256),
                2 => w.rng.below(8),
                3 => have.bits().saturating_sub(1 + w.rng.below(8)),
                1 => w.rng.below(have.bits().max(1)),
                _ => 8 * w.rng.below(have.bits() / 8 + 1),
            };
            let k = k.min(255);
            let x = U256::one() << k;
            w.ledger(coin, if have.bit(k) { "sub" } else { "add" }, a, a, x);
        }
        "swap" => {
            let (coin, a, b) = (s(op, "k") == "coin", n(op, "a"), n(op, "b"));
            let (x, y) = (bal(w, coin, a), bal(w, coin, b));
            become_(w, coin, a, x, y);
            become_(w, coin, b, y, x);
        }
        "cross" => {
            let a = n(op, "a");
            let (x, y) = (bal(w, true, a), bal(w, false, a));
            become_(w, true, a, x, y);
            become_(w, false, a, y, x);
        }
        "submit" => submit(w, op),
        "resubmit" => {
            if !w.known.is_empty() {
                let i = w.rng.below(w.known.len());
                w.submit(i);
            }
        }
        "addtx" => {
            let k = 1 + w.rng.below(3);
            let v = batch(w, k);
            let many = w.rng.below(2) == 0;
            w.addtx(&v, many);
        }
        "addblock" => add_block(w, op),
        // a block there was before, most often one that a kill took back
        "again" => {
            let h = w.t().get_main_chain().get_height();
            let Some(d) = once_more(w, h, |d| block::deserialize_main_chain_block(d).ok().map(|b| b.get_info().height)) else { return };
            let through = w.rng.below(2) == 0;
            w.add_block(block::deserialize_main_chain_block(&d).unwrap(), &[], through);
        }
        "dagain" => {
            let o = n(op, "o");
            if !w.handles.contains_key(&o) {
                w.dopen(o);
            }
            let Some(h) = w.handles.get(&o).and_then(|l| l.last()).map(|c| c.get_height()) else { return };
            let a = w.addr(o);
            let read = |d: &[u8]| {
                if d[0] != Headers::DerivativeBlock as u8 {
                    return None;
                }
                block::DerivativeBlock::parse(&d[1..]).ok().filter(|b| b.default_info.founder == a).map(|b| b.default_info.height)
            };
            let Some(d) = once_more(w, h, read) else { return };
            let i = w.rng.below(4);
            w.dadd_block(o, block::DerivativeBlock::parse(&d[1..]).unwrap(), i);
        }
        "mine" => {
            let Some((k, need, tt, h)) = w.tip() else { return };
            let end = (h % U256::from(BLOCKS_PER_EPOCH)).is_zero();
            let cnt = match s(op, "n") {
                "right" if end => 0,
                "right" if w.rng.below(24) == 0 => 6 + w.rng.below(300),
                "right" => 1 + w.rng.below(5),
                "wrong" => if end { 1 + w.rng.below(2) } else { 0 },
                "none" => 0,
                "one" => 1,
                _ => w.rng.below(9),
            };
            let mut txs: Vec<Hash> = vec![];
            for _ in 0..cnt {
                let t = match w.rng.below(4) {
                    0 if !w.known.is_empty() => {
                        let i = w.rng.below(w.known.len());
                        sha(&w.known[i].dump)
                    }
                    1 if !txs.is_empty() => txs[0],
                    _ => w.rng.bytes(),
                };
                txs.push(t);
            }
            let t = time(w, tame(s(op, "t"), need), tt);
            let p = nonce(w, s(op, "w"), &k, need, &txs);
            let f = 1 + w.rng.below(w.accts.len());
            // first the same nonce over other transactions, for which it is too weak
            if need > 0 && !txs.is_empty() && w.rng.below(3) == 0 {
                for _ in 0..20 {
                    let mut other = txs.clone();
                    let i = w.rng.below(other.len());
                    other[i] = w.rng.bytes();
                    if work(&k, &other, &p) < need {
                        w.mine(p, f, &other, t);
                        break;
                    }
                }
            }
            w.mine(p, f, &txs, t);
            w.stale = Some(k);
        }
        "dopen" => w.dopen(n(op, "o")),
        "dmine" => {
            let o = n(op, "o");
            if !w.handles.contains_key(&o) {
                w.dopen(o);
            }
            let Some((k, need, tt, _)) = w.der_tip(o) else { return };
            let t = time(w, tame(s(op, "t"), need), tt);
            let p = nonce(w, s(op, "w"), &k, need, &[]);
            w.dmine(o, p, t);
            w.stale = Some(k);
        }
        "dadd" => {
            let o = n(op, "o");
            if !w.handles.contains_key(&o) {
                w.dopen(o);
            }
            let Some((k, need, tt, h)) = w.der_tip(o) else { return };
            let h = height(w, s(op, "h"), h);
            let i = w.rng.below(4);
            w.dadd(o, h, need.max(1), tt.saturating_add(5), k, i);
        }
        "jump" => {
            let h = far(op);
            // never over blocks that a kill cut off: they would come back
            if w.lost || h <= w.t().get_main_chain().get_height() {
                return;
            }
            // without the hook a kill before the flush would leave a tip that is not there
            let images = w.images;
            w.images = images && cfg!(verif);
            w.jump(h);
            if !w.dead() {
                add_block(w, &serde_json::json!({"h": "tip", "kind": "tx", "lz": "one", "n": 0, "first": true}));
                w.flush();
            }
            w.images = images;
        }
        "djump" => {
            let (o, h) = (n(op, "o"), far(op));
            let Some(c) = w.handles.get(&o).and_then(|l| l.last()).cloned() else { return };
            if w.lost || h <= c.get_height() {
                return;
            }
            drop(c);
            let images = w.images;
            w.images = images && cfg!(verif);
            w.djump(o, h);
            if !w.dead() {
                step(w, &serde_json::json!({"op": "dadd", "o": o, "h": "tip"}));
                w.dflush(o);
            }
            w.images = images;
        }
        "grow" => {
            // many plain blocks in a row
            for _ in 0..n(op, "n") {
                add_block(w, &serde_json::json!({"h": "tip", "kind": "tx", "lz": "one", "n": 0}));
            }
        }
        "dgrow" => {
            let o = n(op, "o");
            for _ in 0..n(op, "n") {
                step(w, &serde_json::json!({"op": "dadd", "o": o, "h": "tip"}));
            }
        }
        x => panic!("no such script operation: {x}"),
    }
}

/// a height: a number, or 2^p and d more
/// (of the first multiple of the epoch's length from there)
fn far(op: &Value) -> U256 {
    match op["p"].as_u64() {
        Some(p) => {
            let d = op["d"].as_i64().unwrap_or(0);
            let mut x = U256::one() << p as usize;
            if op["m"].as_bool().unwrap_or(false) {
                let e = U256::from(BLOCKS_PER_EPOCH);
                x = (x / e + U256::one()) * e;
            }
            if d < 0 { x - U256::from(-d) } else { x + U256::from(d) }
        }
        None => U256::from(op["h"].as_u64().unwrap()),
    }
}

fn height(w: &mut World, c: &str, tip: U256) -> U256 {
    let one = U256::one();
    match c {
        "tip" => tip,
        "above" => tip + one,
        "below" => tip.saturating_sub(one),
        "zero" => U256::zero(),
        "far" => tip + U256::from(2 + w.rng.below(1000)),
        "byte" => tip + U256::from(256),
        "huge" => U256::MAX - U256::from(w.rng.below(3)),
        "wrap" => {
            let p = *w.rng.pick(&[16usize, 32, 63, 64, 65, 96, 127, 128, 129, 192, 255]);
            tip.overflowing_add(one << p).0
        }
        _ => U256::from(w.rng.below(20)),
    }
}

/// a list of transactions, some of which were there before
fn batch(w: &mut World, k: usize) -> Vec<usize> {
    let k = if w.rng.below(32) == 0 { 7 + w.rng.below(30) } else { k };
    let mut v = vec![];
    for _ in 0..k {
        let (a, b) = (1 + w.rng.below(w.accts.len()), 1 + w.rng.below(w.accts.len()));
        let x = amount(w, "rnd", true, a, b);
        let c = *w.rng.pick(&["some", "none", "one", "empty"]);
        let d = data(w, c);
        v.push(w.make_tx(a, b, x, d));
    }
    // known ones in front, in between and twice
    if w.rng.below(2) == 0 {
        for _ in 0..1 + w.rng.below(2) {
            let i = w.rng.below(w.known.len());
            let at = w.rng.below(v.len() + 1);
            v.insert(at, i);
        }
    }
    v
}

/// some block of this height, or now and then of any, that has been seen before
fn once_more(w: &mut World, h: U256, height: impl Fn(&[u8]) -> Option<U256>) -> Option<Vec<u8>> {
    let any = w.rng.below(8) == 0;
    let fit: Vec<usize> = (0..w.raw.len()).filter(|i| height(&w.raw[*i]).is_some_and(|x| any || x == h)).collect();
    if fit.is_empty() {
        return None;
    }
    let i = *w.rng.pick(&fit);
    Some(w.raw[i].clone())
}

fn add_block(w: &mut World, op: &Value) {
    let c = w.t().get_main_chain();
    let h0 = c.get_height();
    let (k, tt) = match w.tip() {
        Some((k, _, tt, _)) => (k, tt),
        None => ([0; 32], INCEPTION_TIMESTAMP),
    };
    let h = height(w, s(op, "h"), h0);
    let lz = match s(op, "lz") {
        "one" => 1,
        "two" => 2,
        "high" => 40 + w.rng.below(200) as u32,
        "top" => 256,
        _ => 1 + w.rng.below(6) as u32,
    };
    let cnt = if w.rng.below(16) == 0 { 14 + w.rng.below(500) } else { w.rng.below(4) };
    let txs: Vec<Hash> = (0..cnt + 1).map(|_| w.rng.bytes()).collect();
    let stored = if n(op, "n") == 0 { vec![] } else { batch(w, n(op, "n")) };
    let t = tt.saturating_add(10);
    let f = 1 + w.rng.below(w.accts.len());
    let b = w.foreign(s(op, "kind"), h, lz, t, k, txs, f);
    let through = w.rng.below(2) == 0 || !stored.is_empty();
    w.add_block(b, &stored, through);
    w.stale = Some(k);
}

fn data(w: &mut World, c: &str) -> Option<Vec<u8>> {
    match c {
        "none" => None,
        "one" => Some(vec![7]),
        "empty" => Some(vec![]),
        "long" => {
            let k = 200 + w.rng.below(4000);
            Some((0..k).map(|i| i as u8).collect())
        }
        "huge" => {
            let k = 65_536 + w.rng.below(3000);
            Some((0..k).map(|i| (i >> 8) as u8).collect())
        }
        _ => {
            let k = 1 + w.rng.below(60);
            Some((0..k).map(|_| w.rng.next() as u8).collect())
        }
    }
}

/// more than `v`, with low bits that are less than `v`
fn wide(w: &mut World, v: U256) -> U256 {
    let k = (v.bits() + 1).max(*w.rng.pick(&[8, 16, 31, 32, 53, 63, 64, 65, 127, 128, 129, 192, 255]));
    (U256::one() << k) + if w.rng.below(2) == 0 { U256::zero() } else { v - U256::one() }
}

/// prepares the sender's coins and gas relative to what the transaction needs and
/// submits it
fn submit(w: &mut World, op: &Value) {
    let (a, b) = (n(op, "a"), n(op, "b"));
    let d = data(w, s(op, "d"));
    let need_lz = w.tip().map_or(1, |t| t.1);
    let fee = *FEE_STEP * need_lz;
    let have = bal(w, true, a);
    let spare = have.saturating_sub(fee);
    let one = U256::one();
    let x = match s(op, "x") {
        "spare" => spare,
        "spare+" => spare + one,
        "spare-" => spare.saturating_sub(one),
        "part" => {
            let k = w.rng.below(200);
            (spare >> 1) >> k.min(spare.bits())
        }
        "bal" => have,
        "bal+" => have.saturating_add(one),
        "nofee" => U256::MAX - fee + one,
        "mfee" => U256::MAX - fee,
        c => {
            let c = c.to_string();
            amount(w, &c, true, a, b)
        }
    };
    let i = w.make_tx(a, b, x, d);
    let need = *BYTE_GAS_PRICE * U256::from(w.known[i].dump.len());
    let g = bal(w, false, a);
    let want = match s(op, "g") {
        "exact" => Some(need),
        "short" => Some(need - one),
        "plus" => Some(need + one),
        "zero" => Some(U256::zero()),
        "bytes-" => Some(need - *BYTE_GAS_PRICE),
        "rich" => Some(need * 5 + w.rng.below(1000)),
        // enough, but not in its low bits
        "wide" => Some(wide(w, need)),
        _ => None,
    };
    if let Some(want) = want {
        if want > g {
            w.ledger(false, "add", a, a, want - g);
        } else if want < g {
            w.ledger(false, "sub", a, a, g - want);
        }
    }
    let want = match s(op, "c") {
        "exact" => fee.checked_add(x),
        "short" => fee.checked_add(x).map(|v| v - one),
        "plus" => fee.checked_add(x).and_then(|v| v.checked_add(one)),
        "feeless" => Some(x),
        "wide" => fee.checked_add(x).filter(|v| v.bits() < 200).map(|v| wide(w, v)),
        _ => None,
    };
    if let Some(want) = want {
        if want != have {
            w.ledger(true, "set", a, a, want);
        }
    }
    if w.dead() {
        return;
    }
    w.submit(i);
}
