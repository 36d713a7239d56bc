//! Drives one real tree and records what it does as events for the specification.
use crate::io;
use crate::peer::Did;
use crate::util::*;
use blockchaintree::block::{self, BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::static_values::*;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// above every height of a trace
pub const FAR: i64 = 2_000_000_000;
/// where the heights around a far one are in a trace: a multiple of every epoch
const BIG: i64 = 1_500_000_000;

pub struct KnownTx {
    pub tx: Transaction,
    pub dump: Vec<u8>,
    pub id: i64,
    pub a: usize,
    pub b: usize,
    pub x: U256,
}

pub struct World {
    pub scratch: PathBuf,
    pub dir: PathBuf,
    pub gen: usize,
    pub tree: Option<BlockChainTree>,
    pub kept: Option<MainChain>,
    pub rt: tokio::runtime::Runtime,
    pub accts: Vec<Addr>,
    pub rng: Rng,
    pub blocks: Ids,
    pub raw: Vec<Vec<u8>>,
    pub hashes: Ids,
    pub pows: Ids,
    pub nb: Vec<Value>,
    pub known: Vec<KnownTx>,
    pub handles: BTreeMap<usize, Vec<DerivativeChain>>,
    pub base: Option<U256>,
    pub jumped: Vec<U256>,
    pub light: bool,
    pub images: bool,
    pub image_cap: usize,
    /// in one of how many database calls the flusher comes in between; never, if 0
    pub stir: usize,
    stirs: u64,
    pub out: Vec<Value>,
    pub n_images: usize,
    pub stale: Option<Hash>,
    pub lost: bool,
    pub ever: std::collections::BTreeSet<usize>,
    pub did: Vec<(Did, &'static str)>,
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// Addresses that are easily confused: equal up to one byte at either end, with
/// separators, all zero, all ones.
pub fn addresses(rng: &mut Rng, n: usize) -> Vec<Addr> {
    let mut v = vec![ROOT_PUBLIC_ADDRESS];
    let mut near_end = ROOT_PUBLIC_ADDRESS;
    near_end[32] ^= 1;
    let mut near_start = ROOT_PUBLIC_ADDRESS;
    near_start[0] ^= 1;
    let mut bars = [b'|'; 33];
    bars[0] = 2;
    let mut pool = vec![near_end, near_start, bars, [0u8; 33], [0xff; 33], [2u8; 33]];
    for _ in 0..n {
        pool.push(rng.bytes());
    }
    while v.len() < n {
        let x = if rng.below(2) == 0 && v.len() > 1 {
            // like one that is there already, but for one byte
            let mut x = v[rng.below(v.len())];
            let at = match rng.below(4) {
                0 | 1 => 0,
                2 => 32,
                _ => rng.below(33),
            };
            x[at] ^= if rng.below(2) == 0 { 1 } else { 0x80 };
            x
        } else {
            pool.swap_remove(rng.below(pool.len()))
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

#[cfg(not(verif))]
pub fn config_of(dir: &Path, o: Option<Addr>) -> PathBuf {
    match o {
        None => dir.join("MAIN/Chain.config"),
        Some(a) => dir.join("DERIVATIVES").join(hex::encode(a)).join("Chain.config"),
    }
}
/// a config starts with the height
#[cfg(not(verif))]
pub fn set_config(file: &Path, from: U256, to: U256) -> bool {
    let Ok(mut d) = std::fs::read(file) else { return false };
    let mut b = [0u8; 32];
    from.to_big_endian(&mut b);
    if !d.starts_with(&b) {
        return false;
    }
    to.to_big_endian(&mut d[..32]);
    std::fs::write(file, d).is_ok()
}

impl World {
    pub fn new(scratch: &Path, seed: u64, n: usize) -> World {
        let mut rng = Rng::new(seed);
        let accts = addresses(&mut rng, n);
        World {
            scratch: scratch.to_path_buf(),
            dir: scratch.join("w0"),
            gen: 0,
            tree: None,
            kept: None,
            rt: runtime(),
            accts,
            rng,
            blocks: Ids::default(),
            raw: vec![],
            hashes: Ids::default(),
            pows: Ids::default(),
            nb: vec![],
            known: vec![],
            handles: BTreeMap::new(),
            base: None,
            jumped: vec![],
            light: false,
            images: false,
            image_cap: 40,
            stir: 0,
            stirs: seed,
            out: vec![],
            n_images: 0,
            stale: None,
            lost: false,
            ever: Default::default(),
            did: vec![],
        }
    }

    pub fn root_str(&self) -> String {
        self.dir.to_str().unwrap().to_string()
    }
    pub fn t(&self) -> &BlockChainTree {
        self.tree.as_ref().unwrap()
    }
    pub fn addr(&self, a: usize) -> Addr {
        self.accts[a - 1]
    }
    pub fn acct(&self, a: &Addr) -> usize {
        self.accts.iter().position(|x| x == a).map_or(0, |p| p + 1)
    }

    /// heights as the small integers of the traces
    pub fn hj(&self, h: &U256) -> i64 {
        if *h < U256::from(1_000_000_000u64) {
            return h.as_u64() as i64;
        }
        if let Some(b) = self.base {
            let lo = b - U256::from(400);
            if *h >= lo && *h < b + U256::from(1000) {
                let off = (b % U256::from(BLOCKS_PER_EPOCH)).as_u64() as i64;
                return BIG + off - 400 + (*h - lo).as_u64() as i64;
            }
        }
        -1
    }

    /// identity of a block's bytes; attributes of new ones go into the next event
    pub fn intern(&mut self, d: &[u8]) -> i64 {
        let h = sha(d);
        let known = self.blocks.get(&h);
        if known != 0 {
            return known;
        }
        let id = self.blocks.id(&h);
        self.raw.push(d.to_vec());
        let v = match parse_block(d) {
            Some(p) => {
                let n = lz(&p.diff);
                json!({"id": id, "kind": p.kind, "h": self.hj(&p.height), "time": limbs64(p.time), "lz": n,
                    "canon": p.diff == difficulty(n), "fee": limbs(&p.fee), "prev": self.blocks.get(&p.prev),
                    "founder": self.acct(&p.founder), "pow": self.pows.id(&p.pow),
                    "root": if p.kind == "tx" { json!(if p.root == merkle_root(&p.txs) { "match" } else { "other" }) } else { json!(hex::encode(p.root)) },
                    "txs": p.txs.iter().map(|t| self.hashes.id(t)).collect::<Vec<_>>()})
            }
            None => json!({"id": id, "kind": "bad", "h": -2, "time": [], "lz": 0, "canon": false, "fee": [],
                "prev": 0, "founder": 0, "pow": 0, "root": "", "txs": []}),
        };
        self.nb.push(v);
        id
    }

    fn heights(&mut self, h: &U256) -> Vec<U256> {
        let mut v: Vec<U256> = vec![];
        let one = U256::one();
        let far = *h > U256::from(60);
        if !far {
            let mut i = U256::zero();
            while i <= *h + one {
                v.push(i);
                i += one;
            }
        } else {
            let win = if self.light { 3 } else { 12 };
            for k in 0..3u64 {
                v.push(U256::from(k));
            }
            for j in self.jumped.clone() {
                for k in 0..win {
                    let x = j + U256::from(k);
                    if x <= *h + one {
                        v.push(x);
                    }
                }
            }
            let lo = h.saturating_sub(U256::from(win));
            let mut i = lo;
            while i <= *h + one {
                v.push(i);
                i += one;
            }
            for _ in 0..4 {
                v.push(U256::from(self.rng.next()) % *h);
            }
            // where a byte of the height rolls over
            for k in 1..32 {
                let p = U256::one() << (8 * k);
                for x in [p - one, p, p + one] {
                    if x <= *h {
                        v.push(x);
                    }
                }
            }
        }
        v.push(*h + U256::from(300));
        v.sort();
        v.dedup();
        v.retain(|x| self.hj(x) >= 0);
        v
    }

    /// some heights far above, of which a part reads like a height of the chain
    fn beyond(&mut self, h: &U256) -> Vec<U256> {
        let mut v = vec![];
        for _ in 0..3 {
            let k = match self.rng.below(3) {
                0 => U256::zero(),
                1 => h.saturating_sub(U256::one()),
                _ => U256::from(self.rng.next()) % (*h + U256::one()),
            };
            let by = [8, 16, 31, 32, 63, 64, 127, 128, 192, 240, 248, 255][self.rng.below(12)];
            if let Some(x) = k.checked_add(U256::one() << by) {
                if x > *h {
                    v.push(x);
                }
            }
        }
        v
    }

    /// hashes that name nothing: some of which are nearly a known one
    fn strange(&mut self, known: &[Hash]) -> Vec<Hash> {
        let mut v = vec![[0u8; 32], [0xff; 32], self.rng.bytes()];
        if !known.is_empty() {
            for k in 0..3 {
                let mut x = known[self.rng.below(known.len())];
                let y: Hash = self.rng.bytes();
                match k {
                    0 => x[self.rng.below(32)] ^= 1 << self.rng.below(8),
                    1 => x[16..].copy_from_slice(&y[16..]),
                    _ => x[..16].copy_from_slice(&y[..16]),
                }
                v.push(x);
            }
        }
        v
    }

    fn sample_ids(&mut self) -> Vec<usize> {
        let n = self.raw.len();
        if n <= 48 {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (n - 12..n).collect();
            for _ in 0..10 {
                v.push(self.rng.below(n));
            }
            v.sort();
            v.dedup();
            v
        }
    }

    pub fn obs_main(&mut self, c: &MainChain) -> Value {
        let h = guard(|| c.get_height()).unwrap_or_default();
        let mut probe = vec![];
        for x in self.heights(&h) {
            probe.push(json!([self.hj(&x), self.by_height(c, &x)]));
        }
        for x in self.beyond(&h) {
            probe.push(json!([FAR, self.by_height(c, &x)]));
        }
        let mut hash = vec![];
        let mut known = vec![];
        for i in self.sample_ids() {
            let k = sha(&self.raw[i]);
            known.push(k);
            hash.push(json!([i + 1, self.by_hash(c, &k)]));
        }
        // hashes that name no block
        for k in self.strange(&known) {
            hash.push(json!([0, self.by_hash(c, &k)]));
        }
        let last = match (guard(|| c.get_last_raw_block()), guard(|| c.get_last_block())) {
            (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.agree(&d, &b),
            (Ok(Ok(None)), Ok(Ok(None))) => 0,
            _ => -3,
        };
        json!({"h": self.hj(&h), "probe": probe, "hash": hash, "last": last})
    }

    fn agree(&mut self, d: &[u8], b: &BlockArc) -> i64 {
        match guard(|| (b.dump(), b.hash())) {
            Ok((Ok(x), Ok(hs))) if x == d && hs == sha(d) => self.intern(d),
            _ => -2,
        }
    }

    fn by_height(&mut self, c: &MainChain, x: &U256) -> i64 {
        match (guard(|| c.find_raw_by_height(x)), guard(|| c.find_by_height(x))) {
            (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.agree(&d, &b),
            (Ok(Ok(None)), Ok(Ok(None))) => 0,
            _ => -3,
        }
    }
    fn by_hash(&mut self, c: &MainChain, k: &Hash) -> i64 {
        match (guard(|| c.find_raw_by_hash(k)), guard(|| c.find_by_hash(k))) {
            (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.agree(&d, &b),
            (Ok(Ok(None)), Ok(Ok(None))) => 0,
            _ => -3,
        }
    }

    fn dagree(&mut self, d: &[u8], b: &DerivativeBlock) -> i64 {
        match guard(|| (b.dump(), b.hash())) {
            Ok((Ok(x), Ok(hs))) if x == d && hs == sha(d) => self.intern(d),
            _ => -2,
        }
    }

    pub fn obs_der(&mut self, o: usize, k: usize, c: &DerivativeChain) -> Value {
        let h = guard(|| c.get_height()).unwrap_or_default();
        let mut probe = vec![];
        for x in self.heights(&h) {
            let r = match (guard(|| c.find_raw_by_height(&x)), guard(|| c.find_by_height(&x))) {
                (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.dagree(&d, &b),
                (Ok(Ok(None)), Ok(Ok(None))) => 0,
                _ => -3,
            };
            probe.push(json!([self.hj(&x), r]));
        }
        for x in self.beyond(&h) {
            let r = match (guard(|| c.find_raw_by_height(&x)), guard(|| c.find_by_height(&x))) {
                (Ok(Ok(None)), Ok(Ok(None))) => 0,
                _ => -3,
            };
            probe.push(json!([FAR, r]));
        }
        let mut hash = vec![];
        let mut keys: Vec<(usize, Hash)> = self.sample_ids().into_iter().map(|i| (i + 1, sha(&self.raw[i]))).collect();
        let known: Vec<Hash> = keys.iter().map(|k| k.1).collect();
        keys.extend(self.strange(&known).into_iter().map(|k| (0, k)));
        for (i, x) in keys {
            let r = match (guard(|| c.find_raw_by_hash(&x)), guard(|| c.find_by_hash(&x))) {
                (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.dagree(&d, &b),
                (Ok(Ok(None)), Ok(Ok(None))) => 0,
                _ => -3,
            };
            hash.push(json!([i, r]));
        }
        let last = match (guard(|| c.get_last_raw_block()), guard(|| c.get_last_block())) {
            (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.dagree(&d, &b),
            (Ok(Ok(None)), Ok(Ok(None))) => 0,
            _ => -3,
        };
        json!({"o": o, "k": k, "anchor": self.blocks.get(&c.genesis_hash), "h": self.hj(&h),
            "probe": probe, "hash": hash, "last": last})
    }

    fn obs_txs(&mut self, c: &MainChain) -> Value {
        let mut v = vec![];
        let byid: HashMap<i64, Hash> = self.known.iter().map(|k| (k.id, sha(&k.dump))).collect();
        let mut ids: Vec<(i64, Hash)> = byid.into_iter().collect();
        ids.sort();
        if ids.len() > 40 {
            let skip = ids.len() - 30;
            ids.drain(..skip);
        }
        // hashes that name no transaction: a block's, a random one
        if let Some(r) = self.raw.last() {
            ids.push((0, sha(r)));
        }
        let known: Vec<Hash> = ids.iter().map(|k| k.1).collect();
        ids.extend(self.strange(&known).into_iter().map(|k| (0, k)));
        for (id, h) in ids {
            let ex = match guard(|| c.transaction_exists(&h)) {
                Ok(Ok(true)) => 1,
                Ok(Ok(false)) => 0,
                _ => -3,
            };
            let raw = match guard(|| c.get_transaction_raw(&h)) {
                Ok(Ok(Some(d))) => {
                    let s = self.hashes.get(&sha(&d));
                    if s == 0 { -2 } else { s }
                }
                Ok(Ok(None)) => 0,
                _ => -3,
            };
            let par = match guard(|| c.get_transaction(&h)) {
                Ok(Ok(Some(t))) => match guard(|| (t.dump(), t.hash())) {
                    Ok((Ok(d), hs)) if hs == sha(&d) => {
                        let s = self.hashes.get(&hs);
                        if s == 0 { -2 } else { s }
                    }
                    _ => -2,
                },
                Ok(Ok(None)) => 0,
                _ => -3,
            };
            v.push(json!([id, ex, raw, par]));
        }
        json!(v)
    }

    pub fn obs_ledgers(&self, t: &BlockChainTree) -> (Value, Value) {
        fn g<E>(r: Result<Result<U256, E>, ()>) -> Value {
            match r {
                Ok(Ok(v)) => limbs(&v),
                Ok(Err(_)) => json!([-1]),
                Err(()) => json!([-2]),
            }
        }
        let coin: Vec<Value> = self.accts.iter().map(|a| g(guard(|| t.get_amount(a)))).collect();
        let gas: Vec<Value> = self.accts.iter().map(|a| g(guard(|| t.get_gas(a)))).collect();
        (json!(coin), json!(gas))
    }

    /// the previous epoch's balances, read through the registry of open databases
    fn obs_old(&self, dir: &Path, name: &str) -> Value {
        let db = sled::vh::lookup(&dir.join(name));
        let v: Vec<Value> = self
            .accts
            .iter()
            .map(|a| match &db {
                None => json!([-3]),
                Some(db) => match db.get(a) {
                    Ok(None) => json!([]),
                    Ok(Some(d)) => match take_u256(&d) {
                        Some((u, n)) if n == d.len() => limbs(&u),
                        _ => json!([-2]),
                    },
                    Err(_) => json!([-1]),
                },
            })
            .collect();
        json!(v)
    }

    pub fn obs(&mut self) -> Value {
        let tree = self.tree.take().unwrap();
        let dir = self.dir.clone();
        let v = self.obs_of(&tree, &dir);
        self.tree = Some(tree);
        let mut der = vec![];
        let hs: Vec<(usize, usize, DerivativeChain)> = self
            .handles
            .iter()
            .flat_map(|(o, l)| l.iter().enumerate().map(|(k, c)| (*o, k, c.clone())))
            .collect();
        for (o, k, c) in hs {
            der.push(self.obs_der(o, k, &c));
        }
        let mut v = v;
        v["der"] = json!(der);
        if let Some(kept) = self.kept.clone() {
            let h = guard(|| kept.get_height()).unwrap_or_default();
            let last = match (guard(|| kept.get_last_raw_block()), guard(|| kept.get_last_block())) {
                (Ok(Ok(Some(d))), Ok(Ok(Some(b)))) => self.agree(&d, &b),
                (Ok(Ok(None)), Ok(Ok(None))) => 0,
                _ => -3,
            };
            let top = self.by_height(&kept, &h.saturating_sub(U256::one()));
            let above = self.by_height(&kept, &h);
            v["main2"] = json!({"h": self.hj(&h), "last": last, "top": top, "above": above});
        }
        v
    }

    pub fn obs_of(&mut self, tree: &BlockChainTree, dir: &Path) -> Value {
        let (coin, gas) = self.obs_ledgers(tree);
        let c = tree.get_main_chain();
        let main = self.obs_main(&c);
        let txs = self.obs_txs(&c);
        json!({"coin": coin, "gas": gas, "main": main, "txs": txs,
            "ocoin": self.obs_old(dir, "SUMMARYOLD"), "ogas": self.obs_old(dir, "GASSUMMARYOLD"), "der": []})
    }

    /// opens what a kill left behind and looks at it; the chains of all owners
    /// with a folder are opened as well
    pub fn obs_image(&mut self, im: &io::Image) -> Value {
        self.n_images += 1;
        let dir = self.scratch.join(format!("img{}", self.n_images));
        im.restore(&dir);
        let r = guard(|| BlockChainTree::new(dir.to_str().unwrap()));
        let v = match r {
            Ok(Ok(mut t)) => {
                let mut v = self.obs_of(&t, &dir);
                let mut der = vec![];
                for o in self.ever.clone() {
                    let a = self.addr(o);
                    match guard(|| t.get_derivative_chain(&a)) {
                        Ok(Ok(c)) => der.push(self.obs_der(o, 0, &c)),
                        _ => der.push(json!({"o": o, "k": 0, "anchor": -3, "h": -3, "probe": [], "hash": [], "last": -3})),
                    }
                }
                v["der"] = json!(der);
                // the chain goes on from there
                v["goes"] = json!(self.goes_on(&mut t, &dir));
                v["opens"] = json!("ok");
                v
            }
            Ok(Err(_)) => json!({"opens": "err"}),
            Err(()) => json!({"opens": "panic"}),
        };
        let mut v = v;
        v["why"] = json!(im.why);
        v["torn"] = json!(im.torn());
        let _ = std::fs::remove_dir_all(&dir);
        v
    }

    /// mines the next block; where that ends an epoch, the balances of before become
    /// the previous epoch's
    fn goes_on(&mut self, t: &mut BlockChainTree, dir: &Path) -> &'static str {
        let before = self.obs_ledgers(t);
        let r = guard(|| -> Result<(), ()> {
            let c = t.get_main_chain();
            let last = c.get_last_block().map_err(|_| ())?.ok_or(())?;
            let prev = last.hash().map_err(|_| ())?;
            let need = lz(&last.get_info().difficulty);
            if need > 16 {
                return Ok(());
            }
            let h = c.get_height();
            let txs: Vec<Hash> = if (h % U256::from(BLOCKS_PER_EPOCH)).is_zero() { vec![] } else { vec![[9; 32]] };
            let pow = find_pow(&prev, &txs, 7, |w| w >= need).unwrap();
            let rt = runtime();
            let b = rt
                .block_on(t.emmit_new_main_block(&pow, &[5; 33], &txs, last.get_info().timestamp.saturating_add(1)))
                .map_err(|_| ())?;
            let k = b.hash().map_err(|_| ())?;
            let f = c.find_raw_by_hash(&k).map_err(|_| ())?.ok_or(())?;
            let moved = !(h % U256::from(BLOCKS_PER_EPOCH)).is_zero()
                || (self.obs_old(dir, "SUMMARYOLD"), self.obs_old(dir, "GASSUMMARYOLD")) == before;
            if moved
                && c.get_height() == h + U256::one()
                && sha(&f) == k
                && c.find_raw_by_height(&h).map_err(|_| ())?.map(|d| sha(&d)) == Some(k)
                && c.find_raw_by_height(&(h + U256::one())).map_err(|_| ())?.is_none()
            {
                Ok(())
            } else {
                Err(())
            }
        });
        match r {
            Ok(Ok(())) => "ok",
            Ok(Err(())) => "err",
            Err(()) => "panic",
        }
    }

    // ------------------------------------------------------------- events

    pub fn begin(&mut self, name: &str) {
        self.out.push(json!({"ev": "begin", "n": self.accts.len(), "name": name}));
    }

    fn before(&mut self) {
        if self.images {
            io::watch(&self.dir, self.image_cap);
            io::mark("before");
        }
        self.stirs = self.stirs.wrapping_add(1 << 20);
        crate::stir::start(&self.dir, self.stirs, self.stir);
    }

    /// finishes an event: observation, images, new blocks
    pub fn emit(&mut self, mut e: Value) {
        crate::stir::stop();
        let imgs = if self.images {
            io::mark("after");
            let ims = io::unwatch();
            let v: Vec<Value> = ims.iter().map(|im| self.obs_image(im)).collect();
            dedupe(v)
        } else {
            vec![]
        };
        let o = self.obs();
        e["obs"] = o;
        e["imgs"] = json!(imgs);
        e["nb"] = json!(std::mem::take(&mut self.nb));
        self.out.push(e);
    }

    pub fn open(&mut self) {
        std::fs::create_dir_all(&self.scratch).unwrap();
        self.before();
        let dir = self.root_str();
        let r = guard(|| BlockChainTree::new(&dir));
        let s = res(&r);
        if let Ok(Ok(t)) = r {
            self.kept = Some(t.get_main_chain());
            self.tree = Some(t);
        } else {
            let imgs = if self.images { io::unwatch().len() } else { 0 };
            self.out.push(json!({"ev": "open", "res": s, "n": imgs, "fatal": true}));
            return;
        }
        let first = guard(|| self.t().get_main_chain().find_raw_by_height(&U256::zero())).ok().and_then(|r| r.ok()).flatten();
        self.emit(json!({"ev": "open", "res": s, "fatal": false, "first": first.map_or("".into(), |d| hex::encode(sha(&d)))}));
    }

    /// everything on disk, then closed and opened again
    pub fn rest(&mut self) {
        for o in self.handles.keys().copied().collect::<Vec<_>>() {
            self.dflush(o);
        }
        self.flush();
        self.close();
    }

    /// a second tree that is given the same
    pub fn peer(&mut self, mode: &str, restarts: bool) {
        let v = crate::peer::peer(self, mode, restarts);
        self.emit(json!({"ev": "peer", "mode": mode, "peer": v, "res": "ok"}));
    }

    pub fn dead(&self) -> bool {
        self.tree.is_none()
    }

    /// opens the tree; what was dropped may not have let go of its files yet
    fn open_again(&self) -> Result<Result<BlockChainTree, ()>, ()> {
        let dir = self.root_str();
        for _ in 0..100 {
            if sled::vh::open_below(&self.dir).is_empty() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        let mut r = Err(());
        for i in 0..30 {
            r = guard(|| BlockChainTree::new(&dir)).map(|r| r.map_err(|_| ()));
            if matches!(r, Ok(Ok(_))) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2 * i));
        }
        r
    }

    fn reopen(&mut self, ev: &str) {
        let r = self.open_again();
        let s = res(&r);
        match r {
            Ok(Ok(t)) => {
                self.kept = Some(t.get_main_chain());
                self.tree = Some(t);
                self.emit(json!({"ev": ev, "res": s, "fatal": false}));
            }
            _ => {
                if self.images {
                    io::unwatch();
                }
                self.out.push(json!({"ev": ev, "res": s, "fatal": true}));
            }
        }
    }

    /// drops the tree and opens it again
    pub fn close(&mut self) {
        let before = guard(|| self.t().get_main_chain().get_height());
        self.close_now();
        if !self.dead() && before != guard(|| self.t().get_main_chain().get_height()) {
            self.lost = true;
        }
    }

    fn close_now(&mut self) {
        self.before();
        self.handles.clear();
        self.kept = None;
        self.tree = None;
        self.reopen("close");
    }

    /// what a kill right now leaves behind is opened instead
    pub fn kill(&mut self) {
        let before = guard(|| self.t().get_main_chain().get_height());
        self.kill_now();
        if !self.dead() && before != guard(|| self.t().get_main_chain().get_height()) {
            self.lost = true;
        }
    }

    fn kill_now(&mut self) {
        let im = io::now(&self.dir, "kill");
        self.handles.clear();
        self.kept = None;
        self.tree = None;
        let _ = std::fs::remove_dir_all(&self.dir);
        self.gen += 1;
        self.dir = self.scratch.join(format!("w{}", self.gen));
        im.restore(&self.dir);
        self.before();
        self.reopen("kill");
    }

    pub fn finish(&mut self) {
        self.handles.clear();
        self.kept = None;
        self.tree = None;
        let _ = std::fs::remove_dir_all(&self.dir);
    }

    pub fn flush(&mut self) {
        self.before();
        let t = self.tree.take().unwrap();
        let rt = runtime();
        let r = guard(|| rt.block_on(t.flush()));
        drop(rt);
        self.tree = Some(t);
        self.emit(json!({"ev": "flush", "res": res(&r)}));
    }

    pub fn dflush(&mut self, o: usize) {
        let Some(c) = self.handles.get(&o).and_then(|l| l.last()).cloned() else { return };
        self.before();
        let rt = runtime();
        let r = guard(|| rt.block_on(c.flush()));
        drop(rt);
        self.emit(json!({"ev": "dflush", "o": o, "res": res(&r)}));
    }

    pub fn ledger(&mut self, coin: bool, k: &'static str, a: usize, b: usize, x: U256) {
        self.before();
        let (aa, bb) = (self.addr(a), self.addr(b));
        let t = self.tree.as_ref().unwrap();
        let r = guard(|| match (coin, k) {
            (true, "add") => t.add_amount(&aa, x),
            (true, "sub") => t.sub_amount(&aa, x),
            (true, "set") => t.set_amount(&aa, x),
            (true, "send") => t.send_amount(&aa, &bb, x),
            (false, "add") => t.add_gas(&aa, x),
            (false, "sub") => t.sub_gas(&aa, x),
            (false, "send") => t.send_gas(&aa, &bb, x),
            _ => panic!("no such op"),
        });
        let s = res(&r);
        self.did.push((Did::Ledger { coin, k, a: aa, b: bb, x }, s));
        self.emit(json!({"ev": if coin { "coin" } else { "gas" }, "k": k, "a": a, "b": b, "x": limbs(&x), "res": s}));
    }

    /// a long history that comes to nothing: credits and debits of the same amounts
    pub fn churn(&mut self, rounds: usize) {
        self.before();
        let mut res = "ok";
        for i in 0..rounds {
            let (a, coin) = (self.addr(1 + i % self.accts.len()), i % 3 != 0);
            let t = self.tree.as_ref().unwrap();
            let have = if coin { t.get_amount(&a) } else { t.get_gas(&a) }.unwrap_or(U256::MAX);
            let x = (self.rng.u256() >> self.rng.below(256)).min(U256::MAX - have);
            let r = guard(|| if coin {
                t.add_amount(&a, x).is_ok() && t.sub_amount(&a, x).is_ok()
            } else {
                t.add_gas(&a, x).is_ok() && t.sub_gas(&a, x).is_ok()
            });
            if !matches!(r, Ok(true)) {
                res = "err";
            }
        }
        self.emit(json!({"ev": "churn", "n": rounds, "res": res}));
    }

    /// credits an account whose name is shorter or longer than that of account `a`,
    /// moves something to and fro, and empties it again
    pub fn odd(&mut self, coin: bool, a: usize, x: U256, y: U256) {
        let full = self.addr(a);
        let name: Vec<u8> = match self.rng.below(6) {
            0 => full[..32].to_vec(),
            1 => full[1..].to_vec(),
            2 => full[..1].to_vec(),
            3 => vec![],
            4 => [&full[..], &[self.rng.next() as u8]].concat(),
            _ => [&full[..], &full[..]].concat(),
        };
        self.before();
        let h = self.accts.len() + 1;
        let one = U256::one();
        let plan = [("add", h, h, x), ("sub", h, h, x.saturating_add(one)), ("send", h, a, y), ("send", a, h, y),
            ("send", a, h, U256::zero()), ("send", h, a, x.saturating_add(one)), ("sub", h, h, U256::MAX)];
        let mut ops = vec![];
        let mut held = U256::zero();
        let t = self.tree.as_ref().unwrap();
        for (i, (k, p, q, v)) in plan.into_iter().enumerate() {
            let v = if i == 6 { held } else { v };
            let (p1, q1): (&[u8], &[u8]) = (if p == h { &name } else { &full }, if q == h { &name } else { &full });
            let r = guard(|| match (coin, k) {
                (true, "add") => t.add_amount(p1, v),
                (true, "sub") => t.sub_amount(p1, v),
                (true, _) => t.send_amount(p1, q1, v),
                (false, "add") => t.add_gas(p1, v),
                (false, "sub") => t.sub_gas(p1, v),
                (false, _) => t.send_gas(p1, q1, v),
            });
            if res(&r) == "ok" && p != q || k != "send" && res(&r) == "ok" {
                held = if k == "add" || q == h && k == "send" { held.overflowing_add(v).0 } else { held.overflowing_sub(v).0 };
            }
            ops.push(json!({"l": if coin { "coin" } else { "gas" }, "k": k, "a": p, "b": q, "x": limbs(&v), "res": res(&r)}));
        }
        self.emit(json!({"ev": "odd", "ops": ops, "res": "ok"}));
    }

    pub fn note_tx(&mut self, tx: Transaction, a: usize, b: usize, x: U256) -> usize {
        let dump = tx_dump(&self.addr(a), &self.addr(b), &tx, &x);
        let id = self.hashes.id(&sha(&dump));
        if let Some(p) = self.known.iter().position(|k| k.id == id) {
            return p;
        }
        self.known.push(KnownTx { tx, dump, id, a, b, x });
        self.known.len() - 1
    }

    pub fn make_tx(&mut self, a: usize, b: usize, x: U256, data: Option<Vec<u8>>) -> usize {
        let ts = match self.rng.below(24) {
            0 => 0,
            1 => u64::MAX,
            2 if !self.known.is_empty() => self.rng.pick(&self.known).tx.get_timestamp(),
            k => self.rng.next() >> (2 * k),
        };
        let sig: Vec<u8> = (0..2).flat_map(|_| self.rng.bytes::<32>()).collect();
        let tx = Transaction::new_signed(self.addr(a), self.addr(b), ts, x, data, sig.try_into().unwrap());
        self.note_tx(tx, a, b, x)
    }

    pub fn submit(&mut self, i: usize) {
        self.before();
        let k = &self.known[i];
        let (tx, a, b, x, size, id) = (k.tx.clone(), k.a, k.b, k.x, k.dump.len(), k.id);
        let t = self.tree.as_ref().unwrap();
        let r = guard(|| t.send_transaction(&tx));
        let s = res(&r);
        self.did.push((Did::Submit(tx), s));
        self.emit(json!({"ev": "submit", "t": id, "a": a, "b": b, "x": limbs(&x), "size": size, "res": s}));
    }

    pub fn addtx(&mut self, is: &[usize], many: bool) {
        self.before();
        let c = self.t().get_main_chain();
        let txs: Vec<Transaction> = is.iter().map(|i| self.known[*i].tx.clone()).collect();
        let ids: Vec<i64> = is.iter().map(|i| self.known[*i].id).collect();
        let r = guard(|| {
            if many {
                c.add_transactions(&txs)
            } else {
                for t in &txs {
                    c.add_transaction(t)?;
                }
                Ok(())
            }
        });
        let s = res(&r);
        self.did.push((Did::AddTx(txs), s));
        self.emit(json!({"ev": "addtx", "t": ids, "res": s}));
    }

    /// a block the tree did not mine itself
    #[allow(clippy::too_many_arguments)]
    pub fn foreign(&mut self, kind: &str, h: U256, n: u32, time: u64, prev: Hash, txs: Vec<Hash>, founder: usize) -> BlockArc {
        let info = BasicInfo::new(time, self.rng.bytes(), prev, h, difficulty(n), self.addr(founder));
        match kind {
            "sum" => Arc::new(SummarizeBlock { default_info: info, merkle_tree_root: self.rng.bytes() }),
            _ => {
                // nobody holds another tree to the fee its block states
                let fee = match self.rng.below(8) {
                    0 => U256::zero(),
                    1 => U256::one(),
                    2 => *FEE_STEP * (n + 1 + self.rng.below(4) as u32),
                    3 => self.rng.u256() >> self.rng.below(256),
                    _ => *FEE_STEP * n,
                };
                Arc::new(TransactionBlock::new(fee, info, merkle_root(&txs), txs))
            }
        }
    }

    pub fn add_block(&mut self, b: BlockArc, txs: &[usize], through_tree: bool) {
        self.before();
        let dump = b.dump().unwrap();
        let id = self.intern(&dump);
        let ts: Vec<Transaction> = txs.iter().map(|i| self.known[*i].tx.clone()).collect();
        let ids: Vec<i64> = txs.iter().map(|i| self.known[*i].id).collect();
        let kept = self.kept.clone().unwrap();
        let t = self.tree.as_ref().unwrap();
        let r = guard(|| if through_tree { t.add_new_block(b, &ts) } else { kept.add_block(b) });
        let ids = if through_tree { ids } else { vec![] };
        let s = res(&r);
        self.did.push((Did::AddBlock { b: dump, txs: if through_tree { ts } else { vec![] } }, s));
        self.emit(json!({"ev": "addblock", "b": id, "t": ids, "res": s}));
    }

    pub fn mine(&mut self, pow: Hash, founder: usize, txs: &[Hash], time: u64) {
        let c = self.t().get_main_chain();
        let Ok(Ok(Some(tip))) = guard(|| c.get_last_raw_block()) else { return };
        let w = work(&sha(&tip), txs, &pow);
        let prev = guard(|| c.get_last_block()).ok().and_then(|r| r.ok()).flatten();
        self.before();
        let fa = self.addr(founder);
        let mut t = self.tree.take().unwrap();
        let rt = runtime();
        let r = guard(|| rt.block_on(t.emmit_new_main_block(&pow, &fa, txs, time)));
        drop(rt);
        self.tree = Some(t);
        let s = res(&r);
        let b = match &r {
            Ok(Ok(b)) => match guard(|| b.dump()) {
                Ok(Ok(d)) => self.agree(&d, b),
                _ => -2,
            },
            _ => 0,
        };
        let made = if b > 0 { self.raw[b as usize - 1].clone() } else { vec![] };
        self.did.push((Did::Mine { pow, founder: fa, txs: txs.to_vec(), time, made }, s));
        let tx: Vec<i64> = txs.iter().map(|t| self.hashes.id(t)).collect();
        let p = self.pows.id(&pow);
        let read = guard(|| c.get_last_block()).ok().and_then(|r| r.ok()).flatten();
        let v = match &r {
            Ok(Ok(b)) => json!([valid(&**b, &prev), read.map_or("none", |b| valid(&*b, &prev))]),
            _ => json!([]),
        };
        self.emit(json!({"ev": "mine", "valid": v, "w": w, "f": founder, "txs": tx, "time": limbs64(time), "pow": p, "b": b, "res": s}));
    }

    pub fn dopen(&mut self, o: usize) {
        self.before();
        let a = self.addr(o);
        let mut t = self.tree.take().unwrap();
        let r = guard(|| t.get_derivative_chain(&a));
        self.tree = Some(t);
        let s = res(&r);
        self.ever.insert(o);
        self.did.push((Did::DOpen(o), s));
        if let Ok(Ok(c)) = r {
            let l = self.handles.entry(o).or_default();
            l.push(c);
            if l.len() > 2 {
                l.remove(1);
            }
        }
        self.emit(json!({"ev": "dopen", "o": o, "res": s}));
    }

    /// hash and demand the next derivative block has to work against
    pub fn der_tip(&mut self, o: usize) -> Option<(Hash, u32, u64, U256)> {
        let c = self.handles.get(&o)?.last()?.clone();
        match guard(|| c.get_last_raw_block()) {
            Ok(Ok(Some(d))) => {
                let p = parse_block(&d)?;
                Some((sha(&d), lz(&p.diff), p.time, p.height + U256::one()))
            }
            Ok(Ok(None)) => {
                let k = *c.genesis_hash;
                let i = self.blocks.get(&k);
                let t = if i > 0 { parse_block(&self.raw[i as usize - 1]).map_or(0, |p| p.time) } else { 0 };
                Some((k, 1, t, U256::zero()))
            }
            _ => None,
        }
    }

    pub fn dmine(&mut self, o: usize, pow: Hash, time: u64) {
        let Some((k, _, _, _)) = self.der_tip(o) else { return };
        let w = work(&k, &[], &pow);
        let c = self.handles[&o].last().unwrap().clone();
        let prev = guard(|| c.get_last_block()).ok().and_then(|r| r.ok()).flatten().map(|b| Arc::new(b) as BlockArc);
        self.before();
        let a = self.addr(o);
        let mut t = self.tree.take().unwrap();
        let rt = runtime();
        let r = guard(|| rt.block_on(t.emmit_new_derivative_block(&pow, &a, time)));
        drop(rt);
        self.tree = Some(t);
        let s = res(&r);
        let b = match &r {
            Ok(Ok(b)) => match guard(|| b.dump()) {
                Ok(Ok(d)) => self.agree(&d, b),
                _ => -2,
            },
            _ => 0,
        };
        let made = if b > 0 { self.raw[b as usize - 1].clone() } else { vec![] };
        self.did.push((Did::DMine { pow, o, time, made }, s));
        let p = self.pows.id(&pow);
        let read = guard(|| c.get_last_block()).ok().and_then(|r| r.ok()).flatten();
        let v = match &r {
            Ok(Ok(b)) => json!([valid(&**b, &prev), read.map_or("none", |b| valid(&b, &prev))]),
            _ => json!([]),
        };
        self.emit(json!({"ev": "dmine", "valid": v, "o": o, "w": w, "time": limbs64(time), "pow": p, "b": b, "res": s}));
    }

    pub fn dadd(&mut self, o: usize, h: U256, n: u32, time: u64, prev: Hash, hnd: usize) {
        let b = DerivativeBlock { default_info: BasicInfo::new(time, self.rng.bytes(), prev, h, difficulty(n), self.addr(o)) };
        self.dadd_block(o, b, hnd);
    }

    pub fn dadd_block(&mut self, o: usize, b: DerivativeBlock, hnd: usize) {
        let Some(l) = self.handles.get(&o) else { return };
        let c = l[hnd % l.len()].clone();
        self.before();
        let dump = b.dump().unwrap();
        let id = self.intern(&dump);
        let r = guard(|| c.add_block(&b));
        let s = res(&r);
        self.did.push((Did::DAdd { o, b: dump }, s));
        self.emit(json!({"ev": "dadd", "o": o, "b": id, "res": s}));
    }

    /// Without the hook a chain is moved by its config, between closing and
    /// opening; what is not flushed by then would be lost, so that everything is.
    #[cfg(not(verif))]
    fn moved(&mut self, o: Option<usize>, h: U256) -> bool {
        let before = match o {
            None => guard(|| self.t().get_main_chain().get_height()),
            Some(o) => {
                let c = self.handles[&o][0].clone();
                guard(|| c.get_height())
            }
        };
        self.rest();
        if self.dead() {
            return false;
        }
        self.kept = None;
        self.tree = None;
        let file = config_of(&self.dir, o.map(|o| self.addr(o)));
        let ok = before.is_ok_and(|b| set_config(&file, b, h));
        match self.open_again() {
            Ok(Ok(t)) => {
                self.kept = Some(t.get_main_chain());
                self.tree = Some(t);
            }
            _ => {
                self.out.push(json!({"ev": "close", "res": "err", "fatal": true}));
                return false;
            }
        }
        ok
    }
    #[cfg(verif)]
    fn moved(&mut self, o: Option<usize>, h: U256) -> bool {
        match o {
            None => self.t().get_main_chain().verif_set_height(h),
            Some(o) => self.handles[&o][0].verif_set_height(h),
        }
        true
    }

    pub fn jump(&mut self, h: U256) {
        if !self.moved(None, h) {
            return;
        }
        self.did.push((Did::Jump(h), "ok"));
        if h > U256::from(1_000_000_000u64) {
            self.base = Some(h);
        }
        self.jumped.push(h);
        let j = self.hj(&h);
        // nothing to look at until a block is there
        self.out.push(json!({"ev": "jump", "h": j}));
    }

    pub fn djump(&mut self, o: usize, h: U256) {
        if !self.handles.contains_key(&o) || !self.moved(Some(o), h) {
            return;
        }
        self.did.push((Did::DJump(o, h), "ok"));
        if h > U256::from(1_000_000_000u64) {
            self.base = Some(h);
        }
        self.jumped.push(h);
        let j = self.hj(&h);
        self.out.push(json!({"ev": "djump", "o": o, "h": j}));
    }

    pub fn tip(&self) -> Option<(Hash, u32, u64, U256)> {
        let c = self.t().get_main_chain();
        let d = guard(|| c.get_last_raw_block()).ok()?.ok()??;
        let p = parse_block(&d)?;
        Some((sha(&d), lz(&p.diff), p.time, p.height + U256::one()))
    }
}

/// the transaction's encoding, by an independent encoder
pub fn tx_dump(a: &Addr, b: &Addr, tx: &Transaction, x: &U256) -> Vec<u8> {
    let mut d = vec![0u8];
    d.extend(a);
    d.extend(b);
    d.extend(tx.get_timestamp().to_be_bytes());
    d.extend(tx.get_signature());
    d.extend(put_u256(x));
    if let Some(x) = tx.get_data() {
        d.extend(x);
    }
    d
}

pub fn find_pow(prev: &Hash, txs: &[Hash], salt: u64, ok: impl Fn(u32) -> bool) -> Option<Hash> {
    let mut d = prev.to_vec();
    d.extend(merkle_root(txs));
    let mut pow = [0u8; 32];
    pow[24..].copy_from_slice(&salt.to_be_bytes());
    let at = d.len();
    d.extend(pow);
    for n in 0u64..3_000_000 {
        d[at..at + 8].copy_from_slice(&n.to_be_bytes());
        if ok(lz(&sha(&d))) {
            pow[..8].copy_from_slice(&n.to_be_bytes());
            return Some(pow);
        }
    }
    None
}

/// drops images whose observation equals an earlier one
fn dedupe(v: Vec<Value>) -> Vec<Value> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter()
        .filter(|x| {
            let mut y = x.clone();
            y["why"] = json!(0);
            // probes of random hashes and heights differ from look to look
            seen.insert(y.to_string())
        })
        .collect()
}

#[allow(dead_code)]
fn unused(_: &block::BlockArc) {}

/// does the block validate against its predecessor?
fn valid(b: &dyn Block, prev: &Option<BlockArc>) -> &'static str {
    match guard(|| b.validate(prev.clone())) {
        Ok(Ok(true)) => "true",
        Ok(Ok(false)) => "false",
        Ok(Err(_)) => "err",
        Err(()) => "panic",
    }
}
