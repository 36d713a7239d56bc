//! Trees that hold a lot: thousands of accounts, transactions and blocks.  Nobody
//! could compare all of it state by state, so what a tree holds is compared here with
//! the numbered versions of what it was given, and the specification (Mass) says which
//! number has to be seen when.
use crate::util::*;
use crate::world::{find_pow, runtime};
use blockchaintree::block::{BasicInfo, Block, BlockArc, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::MainChain;
use blockchaintree::static_values::*;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Held = HashMap<Addr, U256>;
#[derive(Clone, Default)]
struct Version {
    coin: Held,
    gas: Held,
}

#[cfg(verif)]
fn jump(c: &MainChain, h: U256) {
    c.verif_set_height(h)
}
#[cfg(not(verif))]
fn jump(_: &MainChain, _: U256) {}

fn open(dir: &Path) -> Option<BlockChainTree> {
    let name = format!("{}/", dir.display());
    for i in 0..60 {
        if let Ok(Ok(t)) = guard(|| BlockChainTree::new(&name)) {
            return Some(t);
        }
        std::thread::sleep(std::time::Duration::from_millis(2 * i));
    }
    None
}

pub fn mass(c: &Value, rng: &mut Rng, scratch: &Path) -> Value {
    let num = |k: &str| c[k].as_u64().unwrap_or(0) as usize;
    let rt = runtime();
    let mut dirs: Vec<PathBuf> = vec![scratch.join("mass")];
    let _ = std::fs::remove_dir_all(&dirs[0]);
    let mut killed: Vec<BlockChainTree> = vec![];
    let mut tree = open(&dirs[0]);
    let mut evs = vec![];
    let accts: Vec<Addr> = (0..num("n")).map(|_| rng.bytes()).collect();
    let mut vs = vec![Version::default()];
    vs[0].coin.insert(ROOT_PUBLIC_ADDRESS, *COINS_PER_CYCLE);
    let mut blocks: Vec<(U256, Hash)> = vec![];
    let mut txs: Vec<Hash> = vec![];
    let mut roots: Vec<Hash> = vec![];
    // versions the ledger had, for going back
    let mut past: Vec<(bool, Addr, U256)> = vec![];
    let some = |rng: &mut Rng| (rng.u256() >> rng.below(256)).max(U256::one());
    for o in c["steps"].as_array().unwrap() {
        let k = o.as_str().unwrap();
        let Some(t) = tree.as_mut() else { break };
        let mut good = true;
        let mut root = 0;
        let (mut listed, mut committed, mut valid) = (true, true, true);
        match k {
            "fill" => {
                let mut v = vs.last().unwrap().clone();
                for (i, a) in accts.iter().enumerate() {
                    // coins, gas, or both
                    if i % 4 != 3 {
                        let have = v.coin.get(a).copied().unwrap_or_default();
                        let x = some(rng).min(U256::MAX - have);
                        good &= matches!(guard(|| t.add_amount(a, x)), Ok(Ok(())));
                        v.coin.insert(*a, have + x);
                    }
                    if i % 4 > 1 {
                        let have = v.gas.get(a).copied().unwrap_or_default();
                        let x = some(rng).min(U256::MAX - have);
                        good &= matches!(guard(|| t.add_gas(a, x)), Ok(Ok(())));
                        v.gas.insert(*a, have + x);
                    }
                }
                vs.push(v);
                let m = t.get_main_chain();
                let mut made = vec![];
                for i in 0..num("txs") {
                    let d = (0..rng.below(60)).map(|_| rng.next() as u8).collect::<Vec<_>>();
                    let x = Transaction::new_signed(rng.bytes(), rng.bytes(), i as u64, some(rng), Some(d), [1; 64]);
                    txs.push(sha(&x.dump().unwrap()));
                    made.push(x);
                }
                // one by one, together, and together with a block
                let (alone, rest) = made.split_at(made.len() / 4);
                let (with, together) = rest.split_at(rest.len() / 2);
                for x in alone {
                    good &= matches!(guard(|| m.add_transaction(x)), Ok(Ok(())));
                }
                good &= matches!(guard(|| m.add_transactions(together)), Ok(Ok(())));
                let h = m.get_height();
                let info = BasicInfo::new(rng.next(), rng.bytes(), rng.bytes(), h, difficulty(1), rng.bytes());
                let b = Arc::new(TransactionBlock::new(*FEE_STEP, info, rng.bytes(), with.iter().map(|x| sha(&x.dump().unwrap())).collect()));
                blocks.push((h, sha(&b.dump().unwrap())));
                good &= matches!(guard(|| t.add_new_block(b, with)), Ok(Ok(())));
                for _ in 0..num("blocks") {
                    let h = m.get_height();
                    let info = BasicInfo::new(rng.next(), rng.bytes(), rng.bytes(), h, difficulty(1), rng.bytes());
                    let b = Arc::new(TransactionBlock::new(*FEE_STEP, info, rng.bytes(), vec![rng.bytes()]));
                    blocks.push((h, sha(&b.dump().unwrap())));
                    good &= matches!(guard(|| m.add_block(b)), Ok(Ok(())));
                }
            }
            // one balance of one account, and back
            "first" | "last" | "any" | "back" => {
                let mut v = vs.last().unwrap().clone();
                let (coin, a, x) = if k == "back" {
                    past.pop().unwrap()
                } else {
                    let at = match k {
                        "first" => accts.iter().min().unwrap(),
                        "last" => accts.iter().max().unwrap(),
                        _ => rng.pick(&accts),
                    };
                    // what the account has, if it has one only
                    let coin = v.coin.contains_key(at) && (rng.below(2) == 0 || !v.gas.contains_key(at));
                    let was = *if coin { &v.coin } else { &v.gas }.get(at).unwrap();
                    past.push((coin, *at, was));
                    (coin, *at, was ^ (U256::one() << rng.below(256)))
                };
                let have = *if coin { &v.coin } else { &v.gas }.get(&a).unwrap();
                let r = guard(|| match (coin, x > have) {
                    (true, true) => t.add_amount(&a, x - have),
                    (true, false) => t.sub_amount(&a, have - x),
                    (false, true) => t.add_gas(&a, x - have),
                    (false, false) => t.sub_gas(&a, have - x),
                });
                good = matches!(r, Ok(Ok(())));
                if coin { &mut v.coin } else { &mut v.gas }.insert(a, x);
                vs.push(v);
            }
            "end" => {
                let m = t.get_main_chain();
                let per = U256::from(BLOCKS_PER_EPOCH);
                let h = (m.get_height() / per + U256::one()) * per - U256::one();
                jump(&m, h);
                let info = BasicInfo::new(INCEPTION_TIMESTAMP + 100_000, rng.bytes(), rng.bytes(), h, difficulty(1), [7; 33]);
                let b = TransactionBlock::new(*FEE_STEP, info, merkle_root(&[[1; 32]]), vec![[1; 32]]);
                let d = b.dump().unwrap();
                blocks.push((h, sha(&d)));
                good = matches!(guard(|| m.add_block(Arc::new(b))), Ok(Ok(())));
                let pow = find_pow(&sha(&d), &[], rng.next(), |z| z >= 1).unwrap();
                match guard(|| rt.block_on(t.emmit_new_main_block(&pow, &[7; 33], &[], INCEPTION_TIMESTAMP + 100_000))) {
                    Ok(Ok(b)) => {
                        blocks.push((h + 1, sha(&b.dump().unwrap())));
                        let r = b.get_merkle_root();
                        root = roots.iter().position(|x| *x == r).unwrap_or_else(|| {
                            roots.push(r);
                            roots.len() - 1
                        }) + 1;
                    }
                    _ => good = false,
                }
            }
            // a block of many transactions
            "mine" => {
                let m = t.get_main_chain();
                let h = m.get_height();
                let info = BasicInfo::new(INCEPTION_TIMESTAMP + 100_000, rng.bytes(), rng.bytes(), h, difficulty(1), [7; 33]);
                let prev: BlockArc = Arc::new(TransactionBlock::new(*FEE_STEP, info, merkle_root(&[[1; 32]]), vec![[1; 32]]));
                let d = prev.dump().unwrap();
                blocks.push((h, sha(&d)));
                good = matches!(guard(|| m.add_block(prev.clone())), Ok(Ok(())));
                let list: Vec<Hash> = (0..num("list")).map(|_| rng.bytes()).collect();
                let pow = find_pow(&sha(&d), &list, rng.next(), |z| z >= 1).unwrap();
                match guard(|| rt.block_on(t.emmit_new_main_block(&pow, &[7; 33], &list, INCEPTION_TIMESTAMP + 100_600))) {
                    Ok(Ok(b)) => {
                        let d = b.dump().unwrap();
                        blocks.push((h + 1, sha(&d)));
                        listed = b.transactions() == Some(&list[..]) && d.ends_with(&list.concat());
                        committed = b.get_merkle_root() == merkle_root(&list);
                        valid = matches!(guard(|| b.validate(Some(prev.clone()))), Ok(Ok(true)));
                    }
                    _ => good = false,
                }
            }
            "flush" => good = matches!(guard(|| rt.block_on(t.flush())), Ok(Ok(()))),
            "kill" | "close" => {
                if k == "kill" {
                    let left = scratch.join(format!("mass{}", dirs.len()));
                    let _ = std::fs::remove_dir_all(&left);
                    crate::io::Image::take(dirs.last().unwrap(), "").restore(&left);
                    dirs.push(left);
                    killed.extend(tree.take());
                }
                tree = None;
                tree = open(dirs.last().unwrap());
                good = tree.is_some();
            }
            x => panic!("no such step: {x}"),
        }
        let mut e = json!({"op": k, "res": if good { "ok" } else { "err" }, "root": root, "now": 0, "old": 0, "extra": 0, "blocks": 0, "txs": 0,
            "listed": listed, "committed": committed, "valid": valid});
        if let Some(t) = &tree {
            // the latest version that everything agrees with; what differs from the last one, below zero
            let ask = |l: &dyn Fn(&Addr) -> Option<U256>, of: fn(&Version) -> &Held| -> Vec<i64> {
                vs.iter()
                    .map(|v| {
                        let all = accts.iter().chain([&ROOT_PUBLIC_ADDRESS]);
                        all.filter(|a| l(a) != Some(of(v).get(*a).copied().unwrap_or_default())).count() as i64
                    })
                    .collect()
            };
            let which = |a: Vec<i64>, b: Vec<i64>| -> i64 {
                let d: Vec<i64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
                d.iter().rposition(|x| *x == 0).map_or(-d.last().unwrap(), |v| v as i64 + 1)
            };
            let now = which(ask(&|a| guard(|| t.get_amount(a)).ok()?.ok(), |v| &v.coin), ask(&|a| guard(|| t.get_gas(a)).ok()?.ok(), |v| &v.gas));
            let dir = dirs.last().unwrap();
            let dbs = ["SUMMARYOLD", "GASSUMMARYOLD"].map(|n| sled::vh::lookup(&dir.join(n)));
            let stored = |db: &Option<sled::Tree>, a: &Addr| -> Option<U256> {
                match db.as_ref()?.get(a).ok()? {
                    None => Some(U256::zero()),
                    Some(d) => take_u256(&d).filter(|x| x.1 == d.len()).map(|x| x.0),
                }
            };
            // nothing before the first end
            let empty = dbs.iter().all(|d| d.as_ref().is_some_and(|d| d.is_empty()));
            let old = if empty { 0 } else { which(ask(&|a| stored(&dbs[0], a), |v| &v.coin), ask(&|a| stored(&dbs[1], a), |v| &v.gas)) };
            let known: std::collections::HashSet<&Addr> = accts.iter().collect();
            let extra: usize = dbs
                .iter()
                .flatten()
                .map(|d| d.iter().flatten().filter(|(k, _)| <&Addr>::try_from(&k[..]).map_or(true, |k| *k != ROOT_PUBLIC_ADDRESS && !known.contains(k))).count())
                .sum();
            let m = t.get_main_chain();
            let here = |h: &U256, k: &Hash| {
                let a = guard(|| m.find_raw_by_height(h)).ok()?.ok()??;
                let b = guard(|| m.find_raw_by_hash(k)).ok()?.ok()??;
                (sha(&a) == *k && a == b).then_some(())
            };
            let lost = blocks.iter().filter(|(h, k)| here(h, k).is_none()).count();
            let gone = txs.iter().filter(|k| !matches!(guard(|| m.get_transaction(k)), Ok(Ok(Some(x))) if sha(&x.dump().unwrap()) == **k)).count();
            e["now"] = json!(now);
            e["old"] = json!(old);
            e["extra"] = json!(extra);
            e["blocks"] = json!(lost);
            e["txs"] = json!(gone);
        }
        evs.push(e);
    }
    drop(tree);
    drop(killed);
    for d in dirs {
        let _ = std::fs::remove_dir_all(&d);
    }
    json!(evs)
}
