//! Second trees that are given what a first one was given.
use crate::util::*;
use crate::world::*;
use blockchaintree::block::{deserialize_main_chain_block, Block, BlockArc, DerivativeBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::DerivativeChain;
use blockchaintree::transaction::Transaction;
use primitive_types::U256;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;

/// what was asked of the first tree, with all arguments, and what it answered
#[derive(Clone)]
pub enum Did {
    Ledger { coin: bool, k: &'static str, a: Addr, b: Addr, x: U256 },
    Submit(Transaction),
    AddTx(Vec<Transaction>),
    AddBlock { b: Vec<u8>, txs: Vec<Transaction> },
    Mine { pow: Hash, founder: Addr, txs: Vec<Hash>, time: u64, made: Vec<u8> },
    DOpen(usize),
    DMine { pow: Hash, o: usize, time: u64, made: Vec<u8> },
    DAdd { o: usize, b: Vec<u8> },
    Jump(U256),
    DJump(usize, U256),
}

pub struct Peer {
    dir: PathBuf,
    tree: Option<BlockChainTree>,
    ders: BTreeMap<usize, DerivativeChain>,
    rt: tokio::runtime::Runtime,
    /// answers that differ from the first tree's
    other: Vec<usize>,
}

impl Peer {
    fn t(&mut self) -> &mut BlockChainTree {
        self.tree.as_mut().unwrap()
    }

    /// everything on disk, closed, opened again
    fn rest(&mut self, w: &World) -> Result<(), ()> {
        let t = self.tree.take().unwrap();
        guard(|| self.rt.block_on(t.flush())).map_err(|_| ())?.map_err(|_| ())?;
        for c in self.ders.values() {
            guard(|| self.rt.block_on(c.flush())).map_err(|_| ())?.map_err(|_| ())?;
        }
        let os: Vec<usize> = self.ders.keys().copied().collect();
        self.ders.clear();
        drop(t);
        self.tree = Some(open_at(&self.dir).map_err(|_| ())?.map_err(|_| ())?);
        for o in os {
            self.chain(w, o)?;
        }
        Ok(())
    }

    #[cfg(verif)]
    fn moved(&mut self, w: &World, o: Option<usize>, h: U256) -> bool {
        match o {
            None => self.t().get_main_chain().verif_set_height(h),
            Some(o) => match self.chain(w, o) {
                Ok(c) => c.verif_set_height(h),
                Err(()) => return false,
            },
        }
        true
    }
    #[cfg(not(verif))]
    fn moved(&mut self, w: &World, o: Option<usize>, h: U256) -> bool {
        let before = match o {
            None => self.t().get_main_chain().get_height(),
            Some(o) => match self.chain(w, o) {
                Ok(c) => c.get_height(),
                Err(()) => return false,
            },
        };
        if self.rest(w).is_err() {
            return false;
        }
        self.ders.clear();
        self.tree = None;
        let ok = set_config(&config_of(&self.dir, o.map(|o| w.addr(o))), before, h);
        let Ok(Ok(t)) = open_at(&self.dir) else { return false };
        self.tree = Some(t);
        ok
    }

    fn chain(&mut self, w: &World, o: usize) -> Result<DerivativeChain, ()> {
        let a = w.addr(o);
        let c = guard(|| self.tree.as_mut().unwrap().get_derivative_chain(&a)).map_err(|_| ())?.map_err(|_| ())?;
        self.ders.insert(o, c.clone());
        Ok(c)
    }

    /// looks that are to change nothing
    fn peek(&mut self, w: &World, rng: &mut Rng) {
        let a = w.addr(1 + rng.below(w.accts.len()));
        let h = U256::from(rng.below(6));
        let t = self.tree.as_ref().unwrap();
        let _ = guard(|| (t.get_amount(&a).is_ok(), t.get_gas(&a).is_ok()));
        let c = t.get_main_chain();
        let _ = guard(|| (c.find_by_height(&h).is_ok(), c.get_last_block().is_ok(), c.transaction_exists(&[7; 32]).is_ok()));
    }

    fn same(&mut self, w: &World, d: &Did, rng: &mut Rng) -> &'static str {
        let one = rng.below(2) == 0;
        match d {
            Did::Ledger { coin, k, a, b, x } => {
                let t = self.t();
                res(&guard(|| match (*coin, *k) {
                    (true, "add") => t.add_amount(a, *x),
                    (true, "sub") => t.sub_amount(a, *x),
                    (true, "set") => t.set_amount(a, *x),
                    (true, _) => t.send_amount(a, b, *x),
                    (false, "add") => t.add_gas(a, *x),
                    (false, "sub") => t.sub_gas(a, *x),
                    (false, _) => t.send_gas(a, b, *x),
                }))
            }
            Did::Submit(tx) => res(&guard(|| self.tree.as_ref().unwrap().send_transaction(tx))),
            Did::AddTx(txs) => {
                let c = self.t().get_main_chain();
                res(&guard(|| {
                    if one {
                        c.add_transactions(txs)
                    } else {
                        for t in txs {
                            c.add_transaction(t)?;
                        }
                        Ok(())
                    }
                }))
            }
            Did::AddBlock { b, txs } => self.hand(b, txs, one),
            Did::Mine { pow, founder, txs, time, made } => {
                let mut t = self.tree.take().unwrap();
                let r = guard(|| self.rt.block_on(t.emmit_new_main_block(pow, founder, txs, *time)));
                self.tree = Some(t);
                match &r {
                    Ok(Ok(b)) if guard(|| b.dump()).ok().and_then(|d| d.ok()).as_ref() != Some(made) => "other",
                    _ => res(&r),
                }
            }
            Did::DOpen(o) => if self.chain(w, *o).is_ok() { "ok" } else { "err" },
            Did::DMine { pow, o, time, made } => {
                let a = w.addr(*o);
                let mut t = self.tree.take().unwrap();
                let r = guard(|| self.rt.block_on(t.emmit_new_derivative_block(pow, &a, *time)));
                self.tree = Some(t);
                match &r {
                    Ok(Ok(b)) if guard(|| b.dump()).ok().and_then(|d| d.ok()).as_ref() != Some(made) => "other",
                    _ => res(&r),
                }
            }
            Did::DAdd { o, b } => self.hand_der(w, *o, b),
            Did::Jump(h) => {
                if self.moved(w, None, *h) { "ok" } else { "err" }
            }
            Did::DJump(o, h) => {
                if self.moved(w, Some(*o), *h) { "ok" } else { "err" }
            }
        }
    }

    /// a block of which only the bytes are handed over
    fn hand(&mut self, b: &[u8], txs: &[Transaction], through: bool) -> &'static str {
        let t = self.tree.as_ref().unwrap();
        let c = t.get_main_chain();
        match guard(|| deserialize_main_chain_block(b)) {
            Ok(Ok(b)) => res(&guard(|| if through || !txs.is_empty() { t.add_new_block(b, txs) } else { c.add_block(b) })),
            _ => "bytes",
        }
    }

    fn hand_der(&mut self, w: &World, o: usize, b: &[u8]) -> &'static str {
        let Ok(c) = self.chain(w, o) else { return "err" };
        let body = if b.is_empty() { b } else { &b[1..] };
        match guard(|| DerivativeBlock::parse(body)) {
            Ok(Ok(b)) => res(&guard(|| c.add_block(&b))),
            _ => "bytes",
        }
    }

    /// what was accepted comes as bytes; a mined block has to validate where it arrives
    fn handed(&mut self, w: &World, d: &Did, was: &str, rng: &mut Rng) -> &'static str {
        if was != "ok" {
            return match d {
                // refused things may be handed over as well
                Did::AddBlock { b, txs } => self.hand(b, txs, true),
                Did::DAdd { o, b } => self.hand_der(w, *o, b),
                // a refused attempt on a chain opens it
                Did::DMine { o, .. } => { let _ = self.chain(w, *o); leak(was) }
                _ => leak(was),
            };
        }
        match d {
            Did::Ledger { .. } => "ok",
            Did::Submit(tx) => {
                let c = self.t().get_main_chain();
                res(&guard(|| c.add_transaction(tx)))
            }
            Did::Mine { made, .. } => {
                let c = self.t().get_main_chain();
                let v = guard(|| -> Result<bool, ()> {
                    let b = deserialize_main_chain_block(made).map_err(|_| ())?;
                    let p = c.get_last_block().map_err(|_| ())?;
                    b.validate(p).map_err(|_| ())
                });
                if v != Ok(Ok(true)) { "invalid" } else { self.hand(made, &[], rng.below(2) == 0) }
            }
            Did::DMine { o, made, .. } => {
                let Ok(c) = self.chain(w, *o) else { return "err" };
                let body = if made.is_empty() { &made[..] } else { &made[1..] };
                let v = guard(|| -> Result<bool, ()> {
                    let b = DerivativeBlock::parse(body).map_err(|_| ())?;
                    let p = c.get_last_block().map_err(|_| ())?.map(|b| Arc::new(b) as BlockArc);
                    b.validate(p).map_err(|_| ())
                });
                if v != Ok(Ok(true)) { "invalid" } else { self.hand_der(w, *o, made) }
            }
            d => self.same(w, d, rng),
        }
    }
}

fn leak(s: &str) -> &'static str {
    match s {
        "ok" => "ok",
        "err" => "err",
        _ => "panic",
    }
}

fn open_at(dir: &std::path::Path) -> Result<Result<BlockChainTree, ()>, ()> {
    let s = dir.to_str().unwrap();
    for _ in 0..100 {
        if sled::vh::open_below(dir).is_empty() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    let mut r = Err(());
    for i in 0..30 {
        r = guard(|| BlockChainTree::new(s)).map(|r| r.map_err(|_| ()));
        if matches!(r, Ok(Ok(_))) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5 * i));
    }
    r
}

/// gives a new tree what `w`'s was given, `mode` how, and says what it holds then
pub fn peer(w: &mut World, mode: &str, restarts: bool) -> Value {
    let dir = w.scratch.join(format!("peer{}", w.n_images));
    w.n_images += 1;
    let mut rng = Rng::new(w.rng.next());
    let did = w.did.clone();
    let r = peer_in(w, &dir, &did, mode, restarts, &mut rng);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(v) => v,
        Err(at) => json!({"opens": "err", "at": at, "other": []}),
    }
}

fn peer_in(w: &mut World, dir: &std::path::Path, did: &[(Did, &'static str)], mode: &str, restarts: bool, rng: &mut Rng) -> Result<Value, usize> {
    let tree = open_at(dir).map_err(|_| 0usize)?.map_err(|_| 0usize)?;
    let mut p = Peer { dir: dir.to_path_buf(), tree: Some(tree), ders: BTreeMap::new(), rt: runtime(), other: vec![] };
    for (i, (d, was)) in did.iter().enumerate() {
        // (a tip that was just moved has no block yet)
        let moved = i > 0 && matches!(did[i - 1].0, Did::Jump(_) | Did::DJump(..));
        if restarts && !moved && rng.below(8) == 0 {
            p.rest(w).map_err(|_| i)?;
        }
        if rng.below(4) == 0 {
            p.peek(w, rng);
        }
        let r = if mode == "same" { p.same(w, d, rng) } else { p.handed(w, d, was, rng) };
        if r != *was {
            p.other.push(i + 1);
        }
    }
    let tree = p.tree.take().unwrap();
    let mut v = w.obs_of(&tree, dir);
    p.tree = Some(tree);
    // the same chains are open in both
    let mut der = vec![];
    for o in w.ever.clone() {
        let c = p.chain(w, o).map_err(|_| did.len())?;
        der.push(w.obs_der(o, 0, &c));
    }
    v["der"] = json!(der);
    v["opens"] = json!("ok");
    v["other"] = json!(p.other);
    Ok(v)
}
