//! Several threads on one tree.  A controller decides which of them goes on at every
//! call of the storage engine and every acquisition of a lock; what the threads did,
//! saw and left behind is written down as histories for the specification.
use crate::beat;
use crate::io;
use crate::util::*;
use crate::world::{addresses, runtime, tx_dump};
use blockchaintree::block::{BasicInfo, Block, BlockArc, DerivativeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::static_values::*;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::transaction::Transaction;
use primitive_types::U256;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ the controller

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Blocked,
    Parked,
    Done,
}

struct Ctl {
    m: Mutex<Vec<(St, bool, i32)>>,
    cv: Condvar,
    go: Condvar,
}

#[derive(Clone, Copy)]
enum Mode {
    Off,
    Sched(*const Ctl, usize),
    Noise(u64),
}
thread_local!(static MODE: Cell<Mode> = const { Cell::new(Mode::Off) });
thread_local!(static NO_MUTEX: Cell<bool> = const { Cell::new(false) });

fn point() {
    let Ok(m) = MODE.try_with(|m| m.get()) else { return };
    match m {
        Mode::Off => {}
        Mode::Sched(c, i) => unsafe { (*c).park(i) },
        Mode::Noise(mut s) => {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            MODE.with(|m| m.set(Mode::Noise(s)));
            match s % 8 {
                0 => std::thread::yield_now(),
                1..=3 => {
                    for _ in 0..(s >> 8) % 400 {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn install() {
    sled::vh::set_hook(Some(|_, _, _| point()));
    parking_lot::vh::set_hook(Some(|kind| {
        if kind == 1 || !NO_MUTEX.try_with(|x| x.get()).unwrap_or(true) {
            point()
        }
    }));
}

impl Ctl {
    fn new(n: usize) -> Ctl {
        Ctl { m: Mutex::new(vec![(St::Running, false, 0); n]), cv: Condvar::new(), go: Condvar::new() }
    }
    fn park(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        g[i].0 = St::Parked;
        self.cv.notify_one();
        while !g[i].1 {
            g = self.go.wait(g).unwrap();
        }
        g[i].1 = false;
        g[i].0 = St::Running;
    }
    fn set(&self, i: usize, s: St, tid: i32) {
        let mut g = self.m.lock().unwrap();
        g[i].0 = s;
        if tid != 0 {
            g[i].2 = tid;
        }
        self.cv.notify_one();
    }
    /// waits until every thread is parked, done or blocked
    fn settle(&self) -> Vec<St> {
        let mut asleep = HashMap::new();
        let start = Instant::now();
        let mut g = self.m.lock().unwrap();
        // a step may have released what others wait for
        for x in g.iter_mut() {
            if x.0 == St::Blocked {
                if sleeping(x.2) {
                    continue;
                }
                x.0 = St::Running;
            }
        }
        loop {
            if g.iter().all(|x| x.0 != St::Running) {
                let v: Vec<St> = g.iter().map(|x| x.0).collect();
                if v.contains(&St::Parked) || v.iter().all(|s| *s == St::Done) {
                    return v;
                }
                // all that is left waits: for something that is still going on
                // elsewhere, or for ever
                if start.elapsed() > Duration::from_secs(8) {
                    unsafe { libc::_exit(beat::STUCK) };
                }
                for x in g.iter_mut().filter(|x| x.0 == St::Blocked) {
                    x.0 = St::Running;
                }
                asleep.clear();
            }
            g = self.cv.wait_timeout(g, Duration::from_micros(100)).unwrap().0;
            for i in 0..g.len() {
                if g[i].0 == St::Running && g[i].2 != 0 {
                    let n = asleep.entry(i).or_insert(0);
                    *n = if sleeping(g[i].2) { *n + 1 } else { 0 };
                    if *n >= 3 {
                        g[i].0 = St::Blocked;
                    }
                }
            }
        }
    }
    fn resume(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        g[i].1 = true;
        g[i].0 = St::Running;
        self.go.notify_all();
    }
}

fn sleeping(tid: i32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
    s.rsplit(") ").next().is_some_and(|r| r.starts_with('S'))
}

/// How the next thread is chosen.
enum Policy {
    /// follow this, then stay with a thread as long as it goes on
    Follow(Vec<usize>),
    Random(Rng),
    /// no control: real threads, slowed down here and there
    Free(Rng),
}

struct Decision {
    enabled: Vec<usize>,
    chosen: usize,
    last: usize,
}

/// the threads' work under a policy; `shot` is taken at some decisions
fn under(policy: &mut Policy, work: Vec<Box<dyn FnOnce() + Send + '_>>, at: &[usize], shot: &mut dyn FnMut()) -> Vec<Decision> {
    let n = work.len();
    let ctl = Ctl::new(n);
    let mut log = vec![];
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|sc| {
        for (i, w) in work.into_iter().enumerate() {
            let free = match policy {
                Policy::Free(r) => Some(r.next() | 1),
                _ => None,
            };
            let (ctl, gate) = (&ctl, &gate);
            sc.spawn(move || {
                match free {
                    Some(s) => {
                        ctl.set(i, St::Running, unsafe { libc::syscall(libc::SYS_gettid) } as i32);
                        MODE.with(|m| m.set(Mode::Noise(s)));
                        gate.wait();
                    }
                    None => {
                        ctl.set(i, St::Running, unsafe { libc::syscall(libc::SYS_gettid) } as i32);
                        MODE.with(|m| m.set(Mode::Sched(ctl, i)));
                        ctl.park(i);
                    }
                }
                w();
                MODE.with(|m| m.set(Mode::Off));
                ctl.set(i, St::Done, 0);
            });
        }
        if let Policy::Free(r) = policy {
            for _ in at {
                std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
                shot();
            }
            ctl.free();
            return;
        }
        let mut last = usize::MAX;
        loop {
            let s = ctl.settle();
            let enabled: Vec<usize> = (0..n).filter(|i| s[*i] == St::Parked).collect();
            if enabled.is_empty() {
                return;
            }
            for _ in at.iter().filter(|k| **k == log.len()) {
                shot();
            }
            let default = if enabled.contains(&last) { last } else { enabled[0] };
            let chosen = match policy {
                Policy::Follow(p) => p.get(log.len()).copied().filter(|c| enabled.contains(c)).unwrap_or(default),
                Policy::Random(r) => {
                    if r.below(10) < 4 {
                        default
                    } else {
                        *r.pick(&enabled)
                    }
                }
                Policy::Free(_) => unreachable!(),
            };
            log.push(Decision { enabled, chosen, last });
            last = chosen;
            ctl.resume(chosen);
        }
    });
    log
}

impl Ctl {
    /// waits for the end of threads that are not controlled
    fn free(&self) {
        let start = Instant::now();
        let mut g = self.m.lock().unwrap();
        while !g.iter().all(|x| x.0 == St::Done) {
            g = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
            if start.elapsed() > Duration::from_secs(20) {
                unsafe { libc::_exit(beat::STUCK) };
            }
        }
    }
}

/// Schedules of a scenario, those with few switches away from a thread that could
/// have gone on first; then random ones; then free runs.
struct Explorer {
    queue: Vec<VecDeque<(Vec<usize>, usize)>>,
    seen: HashSet<Vec<usize>>,
    caps: [usize; 3],
    done: [usize; 3],
    rng: Rng,
    complete: bool,
}

const SWITCHES: usize = 3;

impl Explorer {
    fn new(caps: [usize; 3], rng: Rng) -> Explorer {
        let mut queue: Vec<VecDeque<(Vec<usize>, usize)>> = (0..=SWITCHES).map(|_| VecDeque::new()).collect();
        queue[0].push_back((vec![], 0));
        Explorer { queue, seen: HashSet::new(), caps, done: [0; 3], rng, complete: false }
    }
    fn next(&mut self) -> Option<(Policy, usize)> {
        if self.done[0] < self.caps[0] {
            let Explorer { queue, rng, .. } = self;
            if let Some((k, q)) = queue.iter_mut().enumerate().find(|(_, q)| !q.is_empty()) {
                let i = if q.len() > 200 { rng.below(q.len()) } else { 0 };
                let (p, _) = q.swap_remove_front(i).unwrap();
                self.done[0] += 1;
                return Some((Policy::Follow(p), k));
            }
            self.complete = true;
        }
        for k in 1..3 {
            if self.done[k] < self.caps[k] {
                self.done[k] += 1;
                let r = Rng::new(self.rng.next());
                return Some((if k == 1 { Policy::Random(r) } else { Policy::Free(r) }, 0));
            }
        }
        None
    }
    fn learn(&mut self, p: &Policy, cost: usize, log: &[Decision]) {
        let Policy::Follow(prefix) = p else { return };
        for i in prefix.len()..log.len() {
            let d = &log[i];
            for c in &d.enabled {
                if *c == d.chosen {
                    continue;
                }
                // up to i, the prefix and then the default were followed
                let k = cost + usize::from(d.enabled.contains(&d.last));
                if k > SWITCHES {
                    continue;
                }
                let mut q: Vec<usize> = log[..i].iter().map(|d| d.chosen).collect();
                q.push(*c);
                if self.seen.insert(q.clone()) {
                    self.queue[k].push_back((q, k));
                }
            }
        }
    }
}

// ------------------------------------------------------------ scenarios

/// a chain of either kind
#[derive(Clone)]
enum Chain {
    Main(MainChain),
    Der(DerivativeChain),
}

impl Chain {
    fn height(&self) -> U256 {
        match self {
            Chain::Main(c) => c.get_height(),
            Chain::Der(c) => c.get_height(),
        }
    }
    fn add(&self, b: &BlockArc) -> Result<(), ()> {
        match self {
            Chain::Main(c) => c.add_block(b.clone()).map_err(|_| ()),
            Chain::Der(c) => c.add_block(&DerivativeBlock { default_info: b.get_info().clone() }).map_err(|_| ()),
        }
    }
    fn at(&self, h: &U256) -> Result<Option<Vec<u8>>, ()> {
        match self {
            Chain::Main(c) => c.find_by_height(h).map(|b| b.map(|b| b.dump().unwrap())).map_err(|_| ()),
            Chain::Der(c) => c.find_by_height(h).map(|b| b.map(|b| b.dump().unwrap())).map_err(|_| ()),
        }
    }
    fn by_hash(&self, h: &Hash) -> Result<Option<Vec<u8>>, ()> {
        match self {
            Chain::Main(c) => c.find_by_hash(h).map(|b| b.map(|b| b.dump().unwrap())).map_err(|_| ()),
            Chain::Der(c) => c.find_by_hash(h).map(|b| b.map(|b| b.dump().unwrap())).map_err(|_| ()),
        }
    }
    fn last(&self) -> Result<Option<Vec<u8>>, ()> {
        match self {
            Chain::Main(c) => c.get_last_raw_block().map_err(|_| ()),
            Chain::Der(c) => c.get_last_raw_block().map_err(|_| ()),
        }
    }
}

struct Site {
    dir: PathBuf,
    tree: BlockChainTree,
    owner: Addr,
    used: usize,
    /// a funds database of its own, for scenarios on one
    funds: Option<SummaryDB>,
}

impl Site {
    fn new(dir: &Path) -> Site {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        let tree = BlockChainTree::new(dir.to_str().unwrap()).expect("new tree");
        Site { dir: dir.to_path_buf(), tree, owner: [7; 33], used: 0, funds: None }
    }
}

fn num(v: &Value) -> U256 {
    let mut u = U256::zero();
    for (i, x) in v.as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().enumerate() {
        u |= U256::from(x.as_u64().unwrap()) << (16 * i);
    }
    u
}

fn int(v: &Value, k: &str) -> usize {
    v[k].as_i64().unwrap_or(0) as usize
}

/// block of a run: its bytes, and what the specification wants to know of it
struct Run {
    accts: Vec<Addr>,
    blocks: Vec<BlockArc>,
    ids: HashMap<Hash, i64>,
    hashes: Vec<Hash>,
    txs: Vec<Transaction>,
    base: U256,
    clock: u64,
}

impl Run {
    fn id(&self, r: Result<Result<Option<Vec<u8>>, ()>, ()>) -> i64 {
        match r {
            Ok(Ok(None)) => -1,
            Ok(Ok(Some(d))) => *self.ids.get(&sha(&d)).unwrap_or(&-2),
            _ => -3,
        }
    }
}

struct Ptr(*mut BlockChainTree);
unsafe impl Send for Ptr {}
unsafe impl Sync for Ptr {}

fn small(h: U256) -> i64 {
    if h < U256::from(1u64 << 30) {
        h.as_u64() as i64
    } else {
        -1
    }
}

/// relative height
fn rel(h: U256, base: U256) -> i64 {
    if h >= base {
        small(h - base)
    } else {
        -1 - small(base - h)
    }
}

fn transaction(rng: &mut Rng, accts: &[Addr], a: usize, b: usize, x: U256, data: usize) -> Transaction {
    let sig: Vec<u8> = (0..2).flat_map(|_| rng.bytes::<32>()).collect();
    let d = if data == 0 { None } else { Some((0..data).map(|_| rng.next() as u8).collect()) };
    Transaction::new_signed(accts[a - 1], accts[b - 1], rng.next() >> 20, x, d, sig.try_into().unwrap())
}

fn limb_res<E>(r: Result<Result<U256, E>, ()>) -> (String, Value) {
    match r {
        Ok(Ok(v)) => ("ok".into(), limbs(&v)),
        Ok(Err(_)) => ("err".into(), json!([])),
        Err(()) => ("panic".into(), json!([])),
    }
}

/// moves the main chain to just below the next epoch's end
#[cfg(verif)]
fn before_epoch_end(site: &mut Site, rng: &mut Rng) {
    let main = site.tree.get_main_chain();
    let per = U256::from(BLOCKS_PER_EPOCH);
    let h = (main.get_height() / per + U256::one()) * per - U256::one();
    main.verif_set_height(h);
    let info = BasicInfo::new(INCEPTION_TIMESTAMP + 100_000, rng.bytes(), rng.bytes(), h, difficulty(1), [7; 33]);
    main.add_block(Arc::new(TransactionBlock::new(*FEE_STEP, info, merkle_root(&[[1; 32]]), vec![[1; 32]]))).expect("a block below the epoch's end");
}
#[cfg(not(verif))]
fn before_epoch_end(_: &mut Site, _: &mut Rng) {}

/// one run of a scenario; its history and the decisions of the controller
/// `steps`: about how many decisions a run takes
fn run_once(case: &Value, site: &mut Site, policy: &mut Policy, rng: &mut Rng, steps: usize) -> (Value, Vec<Decision>) {
    let kind = case["k"].as_str().unwrap();
    let der = case["der"].as_bool().unwrap_or(false);
    let flushes = case["flushes"].as_bool().unwrap_or(false);
    let threads = case["threads"].as_array().unwrap();
    site.used += 1;
    // the block above the tip ends an epoch; account 1 is the root's
    let epoch = case["epoch"].as_bool().unwrap_or(false);
    if epoch {
        before_epoch_end(site, rng);
    }
    let nacc = case["coin"].as_array().map_or(0, |a| a.len());
    let accts: Vec<Addr> = if epoch {
        (0..nacc).map(|i| if i == 0 { ROOT_PUBLIC_ADDRESS } else { rng.bytes() }).collect()
    } else if site.used == 1 && nacc > 0 {
        addresses(rng, nacc + 1)[1..].to_vec()
    } else {
        (0..nacc).map(|_| rng.bytes()).collect()
    };
    let on_funds = kind == "funds";
    if on_funds {
        let dir = site.dir.join("FUNDS");
        let f = site.funds.take().unwrap_or_else(|| SummaryDB::new(sled::Config::new().path(dir).open().unwrap()));
        let rt = runtime();
        for i in 0..nacc {
            rt.block_on(f.add_funds(&accts[i], &num(&case["coin"][i]))).unwrap();
        }
        site.funds = Some(f);
    }
    for i in 0..nacc {
        if on_funds {
            break;
        }
        let c = num(&case["coin"][i]);
        if !c.is_zero() {
            site.tree.set_amount(&accts[i], c).unwrap();
        }
        let g = num(&case["gas"][i]);
        if !g.is_zero() {
            site.tree.add_gas(&accts[i], g).unwrap();
        }
    }
    let owner = site.owner;
    let main = site.tree.get_main_chain();
    let chain = if der { Chain::Der(site.tree.get_derivative_chain(&owner).unwrap()) } else { Chain::Main(main.clone()) };
    let base = chain.height();
    let mut run = Run { accts, blocks: vec![], ids: HashMap::new(), hashes: vec![], txs: vec![], base, clock: 0 };
    let anchor = match &chain {
        Chain::Der(d) => *d.genesis_hash,
        _ => [0; 32],
    };
    // what the chain stands on
    let tip = chain.last().unwrap_or(None);
    let (tip_hash, tip_time, tip_lz) = match &tip {
        Some(d) => {
            let p = parse_block(d).unwrap();
            (sha(d), p.time, lz(&p.diff))
        }
        None => (anchor, INCEPTION_TIMESTAMP, 1),
    };
    run.clock = tip_time.max(INCEPTION_TIMESTAMP) + 100_000;
    run.ids.insert(tip_hash, 0);
    run.hashes.push(tip_hash);
    let mut lzs = vec![tip_lz];
    for (i, h) in case["blocks"].as_array().unwrap_or(&vec![]).iter().enumerate() {
        let h = (base + U256::from(1000)).overflowing_add(U256::from((h.as_i64().unwrap() + 1000) as u64)).0.overflowing_sub(U256::from(2000)).0;
        run.clock += 100_000;
        let info = BasicInfo::new(run.clock, rng.bytes(), rng.bytes(), h, difficulty(1), owner);
        let b: BlockArc = if der {
            Arc::new(DerivativeBlock { default_info: info })
        } else {
            Arc::new(TransactionBlock::new(*FEE_STEP, info, merkle_root(&[[1; 32]]), vec![[1; 32]]))
        };
        let hs = sha(&b.dump().unwrap());
        run.ids.insert(hs, i as i64 + 1);
        run.hashes.push(hs);
        run.blocks.push(b);
        lzs.push(1);
    }
    let mut sizes = vec![];
    for t in case["txs"].as_array().unwrap_or(&vec![]) {
        let (a, b, x) = (int(t, "a"), int(t, "b"), num(&t["x"]));
        let tx = transaction(rng, &run.accts, a, b, x, int(t, "d"));
        sizes.push(tx_dump(&run.accts[a - 1], &run.accts[b - 1], &tx, &x).len());
        run.txs.push(tx);
    }
    let mine_txs: &[Hash] = if epoch { &[] } else { &[[2u8; 32]] };
    if flushes && site.used == 1 {
        // the floor of the first run
        let rt = runtime();
        rt.block_on(site.tree.flush()).unwrap();
        if let Chain::Der(d) = &chain {
            rt.block_on(d.flush()).unwrap();
        }
    } else if flushes {
        let rt = runtime();
        rt.block_on(site.tree.flush()).unwrap();
        if let Chain::Der(d) = &chain {
            rt.block_on(d.flush()).unwrap();
        }
    }

    let clock = AtomicU64::new(1);
    let results: Mutex<Vec<(usize, usize, u64, u64, String, Value, Value)>> = Mutex::new(vec![]);
    let tree = Ptr(&mut site.tree);
    let funds = site.funds.as_ref().filter(|_| on_funds);
    let mut pows: BTreeMap<(usize, usize), Hash> = BTreeMap::new();
    for (t, ops) in threads.iter().enumerate() {
        for (j, o) in ops.as_array().unwrap().iter().enumerate() {
            if o["op"] == "mine" {
                // enough work on the block it is meant to stand on
                let on = run.hashes[int(o, "on")];
                let need = lzs[int(o, "on")] + 2;
                let txs: &[Hash] = if der { &[] } else { mine_txs };
                let p = crate::world::find_pow(&on, txs, rng.next(), |n| n >= need).unwrap_or([0; 32]);
                pows.insert((t, j), p);
            }
        }
    }
    // images of the disk in the middle of the run
    let shots: Vec<usize> = if flushes { (0..2).map(|_| rng.below(steps + 1)).collect() } else { vec![] };
    let mut images: Vec<(u64, u64, io::Image)> = vec![];
    let log = {
        let mut shot = || {
            let call = clock.fetch_add(1, Ordering::SeqCst);
            let im = io::now(&site.dir, "kill");
            let ret = clock.fetch_add(1, Ordering::SeqCst);
            images.push((call, ret, im));
        };
        let mut work: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (t, ops) in threads.iter().enumerate() {
            let (run, clock, results, chain, tree, pows, mine_txs, funds) = (&run, &clock, &results, chain.clone(), &tree, &pows, mine_txs, &funds);
            let main = main.clone();
            work.push(Box::new(move || {
                for (j, o) in ops.as_array().unwrap().iter().enumerate() {
                    if j > 0 {
                        point();
                    }
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let (res, val, extra) = if let Some(f) = funds { fund(o, run, f) } else { one(o, run, &chain, &main, tree, &owner, der, pows.get(&(t, j)), mine_txs, t) };
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    results.lock().unwrap().push((t, j, call, ret, res, val, extra));
                }
            }));
        }
        under(policy, work, &shots, &mut shot)
    };
    let mut rs = results.into_inner().unwrap();
    rs.sort_by_key(|r| (r.0, r.1));
    // blocks that were mined
    let mut mined = vec![];
    for r in rs.iter_mut() {
        if r.6["mined"].is_string() {
            let d = hex::decode(r.6["mined"].as_str().unwrap()).unwrap();
            let hs = sha(&d);
            let id = run.hashes.len() as i64;
            run.ids.insert(hs, id);
            run.hashes.push(hs);
            let p = parse_block(&d).unwrap();
            lzs.push(lz(&p.diff));
            let prev = *run.ids.get(&p.prev).unwrap_or(&-2);
            mined.push(json!({"id": id, "prev": prev, "h": rel(p.height, base), "lz": lz(&p.diff)}));
            r.5 = json!(id);
        }
    }
    // reads of blocks that were mined later on are known by now
    for r in rs.iter_mut() {
        if r.6["raw"].is_string() {
            let h: Hash = hex::decode(r.6["raw"].as_str().unwrap()).unwrap().try_into().unwrap();
            r.5 = json!(run.ids.get(&h).copied().unwrap_or(-2));
        }
    }
    // a kill at those instants
    for (j, (call, ret, im)) in images.into_iter().enumerate() {
        if !im.torn() {
            let v = reopened(&im, &site.dir, &run, der, &owner);
            rs.push((threads.len(), j, call, ret, "ok".into(), v, json!({})));
        }
    }
    let ops: Vec<Value> = rs
        .iter()
        .map(|r| {
            let mut o = threads.get(r.0).map_or(json!({"op": "kill"}), |t| t[r.1].clone());
            o["t"] = json!(r.0 + 1);
            o["res"] = json!(r.4);
            o["val"] = r.5.clone();
            o["pre"] = json!(rs.iter().enumerate().filter(|(_, p)| p.3 < r.2).map(|(i, _)| i + 1).collect::<Vec<_>>());
            if let Some(p) = pows.get(&(r.0, r.1)) {
                let txs: &[Hash] = if der { &[] } else { mine_txs };
                o["w"] = json!(run.hashes.iter().zip(&lzs).map(|(h, n)| (work(h, txs, p) >= *n) as u8).collect::<Vec<_>>());
            }
            o
        })
        .collect();
    let mut h = json!({"k": kind, "ops": ops, "lzs": lzs, "mined": mined, "sizes": sizes, "epoch": epoch});
    let t = &site.tree;
    let g = |r: Result<Result<U256, ()>, ()>| limb_res(r).1;
    let coin: Vec<Value> = run.accts.iter().map(|a| match funds {
        Some(f) => held(f, a).1,
        None => g(guard(|| t.get_amount(a).map_err(|_| ()))),
    }).collect();
    let gas: Vec<Value> = run.accts.iter().map(|a| g(guard(|| t.get_gas(a).map_err(|_| ())))).collect();
    h["fin"] = look(&run, &chain, &main);
    h["fin"]["coin"] = json!(coin);
    h["fin"]["gas"] = json!(gas);
    if flushes {
        // the process is killed now
        let im = io::now(&site.dir, "kill");
        if !im.torn() {
            h["img"] = reopened(&im, &site.dir, &run, der, &owner);
        }
    }
    (h, log)
}

/// the balance of the funds database
fn held(f: &SummaryDB, a: &Addr) -> (String, Value) {
    limb_res(guard(|| f.get_funds(a).map_err(|_| ()).and_then(|v| {
        let b = v.to_bytes_be();
        if b.len() > 32 { Err(()) } else { Ok(U256::from_big_endian(&b)) }
    })))
}

fn fund(o: &Value, run: &Run, f: &SummaryDB) -> (String, Value, Value) {
    let a = run.accts[int(o, "a") - 1];
    if o["op"] == "getcoin" {
        let (r, v) = held(f, &a);
        return (r, v, json!({}));
    }
    let x = num(&o["x"]);
    NO_MUTEX.with(|x| x.set(true));
    let rt = runtime();
    let r = guard(|| rt.block_on(async { if o["k"] == "add" { f.add_funds(&a, &x).await } else { f.decrease_funds(&a, &x).await } }));
    drop(rt);
    NO_MUTEX.with(|x| x.set(false));
    (res(&r).to_string(), json!([]), json!({}))
}

/// what a kill that left this image leaves of the run
fn reopened(im: &io::Image, of: &Path, run: &Run, der: bool, owner: &Addr) -> Value {
    let dir = of.with_extension("img");
    let _ = std::fs::remove_dir_all(&dir);
    im.restore(&dir);
    let g = |r: Result<Result<U256, ()>, ()>| limb_res(r).1;
    let v = match guard(|| BlockChainTree::new(dir.to_str().unwrap())) {
        Ok(Ok(mut t)) => {
            let main = t.get_main_chain();
            let c = if der {
                match guard(|| t.get_derivative_chain(owner)) {
                    Ok(Ok(c)) => Some(Chain::Der(c)),
                    _ => None,
                }
            } else {
                Some(Chain::Main(main.clone()))
            };
            match c {
                None => json!({"opens": "no"}),
                Some(c) => {
                    let mut v = look(run, &c, &main);
                    v["opens"] = json!("ok");
                    let coin: Vec<Value> = run.accts.iter().map(|a| g(guard(|| t.get_amount(a).map_err(|_| ())))).collect();
                    let gas: Vec<Value> = run.accts.iter().map(|a| g(guard(|| t.get_gas(a).map_err(|_| ())))).collect();
                    v["coin"] = json!(coin);
                    v["gas"] = json!(gas);
                    v
                }
            }
        }
        _ => json!({"opens": "no"}),
    };
    let _ = std::fs::remove_dir_all(&dir);
    v
}


/// a chain from the height it had before the run
fn look(run: &Run, chain: &Chain, main: &MainChain) -> Value {
    let hh = guard(|| chain.height()).unwrap_or_default();
    let h = rel(hh, run.base);
    let mut at = vec![];
    for k in 0..8u64 {
        let i = run.id(guard(|| chain.at(&(run.base + U256::from(k)))));
        at.push(json!(if i == -1 { 0 } else { i }));
    }
    let hash: Vec<i64> = run
        .hashes
        .iter()
        .skip(1)
        .map(|x| {
            let i = run.id(guard(|| chain.by_hash(x)));
            if i == -1 { 0 } else { i }
        })
        .collect();
    let mut last = run.id(guard(|| chain.last()));
    if last == -1 && hh.is_zero() && matches!(chain, Chain::Der(_)) {
        last = 0;
    }
    let txs: Vec<i64> = run
        .txs
        .iter()
        .map(|t| {
            let d = blockchaintree::transaction::Transactionable::dump(t).unwrap();
            match guard(|| main.get_transaction_raw(&sha(&d))) {
                Ok(Ok(None)) => 0,
                Ok(Ok(Some(x))) if x == d => 1,
                _ => -3,
            }
        })
        .collect();
    json!({"h": h, "at": at, "hash": hash, "last": last, "txs": txs})
}

#[allow(clippy::too_many_arguments)]
fn one(o: &Value, run: &Run, chain: &Chain, main: &MainChain, tree: &Ptr, owner: &Addr, der: bool, pow: Option<&Hash>, mine_txs: &[Hash], t: usize) -> (String, Value, Value) {
    let tr = unsafe { &*tree.0 };
    let ok = |r: Result<Result<(), ()>, ()>| (res(&r).to_string(), json!([]), json!({}));
    let acc = |k: &str| run.accts[int(o, k) - 1];
    // what names a block; blocks that are mined get their number later
    let block = |r: Result<Result<Option<Vec<u8>>, ()>, ()>, none: i64| match &r {
        Ok(Ok(Some(d))) => ("ok".to_string(), json!(0), json!({"raw": hex::encode(sha(d))})),
        Ok(Ok(None)) => ("ok".to_string(), json!(none), json!({})),
        _ => (res(&r).to_string(), json!(-3), json!({})),
    };
    match o["op"].as_str().unwrap() {
        "coin" => {
            let (a, x) = (acc("a"), num(&o["x"]));
            ok(guard(|| match o["k"].as_str().unwrap() {
                "add" => tr.add_amount(&a, x).map_err(|_| ()),
                "sub" => tr.sub_amount(&a, x).map_err(|_| ()),
                "set" => tr.set_amount(&a, x).map_err(|_| ()),
                _ => tr.send_amount(&a, &acc("b"), x).map_err(|_| ()),
            }))
        }
        "gas" => {
            let (a, x) = (acc("a"), num(&o["x"]));
            ok(guard(|| match o["k"].as_str().unwrap() {
                "add" => tr.add_gas(&a, x).map_err(|_| ()),
                "sub" => tr.sub_gas(&a, x).map_err(|_| ()),
                _ => tr.send_gas(&a, &acc("b"), x).map_err(|_| ()),
            }))
        }
        "getcoin" => {
            let (r, v) = limb_res(guard(|| tr.get_amount(&acc("a"))));
            (r, v, json!({}))
        }
        "getgas" => {
            let (r, v) = limb_res(guard(|| tr.get_gas(&acc("a"))));
            (r, v, json!({}))
        }
        "submit" => ok(guard(|| tr.send_transaction(&run.txs[int(o, "tx") - 1]).map_err(|_| ()))),
        "append" => ok(guard(|| chain.add(&run.blocks[int(o, "b") - 1]))),
        "append+" => {
            let ts: Vec<Transaction> = o["txs"].as_array().unwrap().iter().map(|i| run.txs[i.as_u64().unwrap() as usize - 1].clone()).collect();
            ok(guard(|| tr.add_new_block(run.blocks[int(o, "b") - 1].clone(), &ts).map_err(|_| ())))
        }
        "store" => ok(guard(|| main.add_transaction(&run.txs[int(o, "tx") - 1]).map_err(|_| ()))),
        "tx" => {
            let d = blockchaintree::transaction::Transactionable::dump(&run.txs[int(o, "tx") - 1]).unwrap();
            let r = guard(|| main.get_transaction_raw(&sha(&d)));
            let v = match &r {
                Ok(Ok(None)) => 0,
                Ok(Ok(Some(x))) if *x == d => 1,
                _ => -3,
            };
            (res(&r).to_string(), json!(v), json!({}))
        }
        "height" => {
            let r = guard(|| chain.height());
            (if r.is_ok() { "ok" } else { "panic" }.into(), json!(rel(r.unwrap_or_default(), run.base)), json!({}))
        }
        "at" => block(guard(|| chain.at(&(run.base + U256::from(int(o, "h"))))), 0),
        "hash" => block(guard(|| chain.by_hash(&run.hashes[int(o, "b")])), 0),
        "last" => block(guard(|| chain.last()), if der && run.base.is_zero() { 0 } else { -1 }),
        "mine" => {
            let tm = unsafe { &mut *tree.0 };
            let time = run.clock + 100_000;
            NO_MUTEX.with(|x| x.set(mine_txs.is_empty() && !der));
            let rt = runtime();
            let r: Result<Result<Vec<u8>, ()>, ()> = guard(|| {
                if der {
                    rt.block_on(tm.emmit_new_derivative_block(pow.unwrap(), owner, time)).map(|b| b.dump().unwrap()).map_err(|_| ())
                } else {
                    rt.block_on(tm.emmit_new_main_block(pow.unwrap(), owner, mine_txs, time)).map(|b| b.dump().unwrap()).map_err(|_| ())
                }
            });
            drop(rt);
            NO_MUTEX.with(|x| x.set(false));
            match &r {
                Ok(Ok(d)) => ("ok".into(), json!(0), json!({"mined": hex::encode(d)})),
                _ => (res(&r).into(), json!(0), json!({})),
            }
        }
        "flush" => {
            NO_MUTEX.with(|x| x.set(true));
            let rt = runtime();
            let r = guard(|| rt.block_on(tr.flush()).map_err(|_| ()));
            drop(rt);
            NO_MUTEX.with(|x| x.set(false));
            ok(r)
        }
        "dflush" => {
            NO_MUTEX.with(|x| x.set(true));
            let rt = runtime();
            let r = guard(|| match chain {
                Chain::Der(c) => rt.block_on(c.flush()).map_err(|_| ()),
                Chain::Main(c) => rt.block_on(c.flush()).map_err(|_| ()),
            });
            drop(rt);
            NO_MUTEX.with(|x| x.set(false));
            ok(r)
        }
        x => panic!("no such op {x} in thread {t}"),
    }
}

/// explores the schedules of every scenario; a line for each different history
pub fn main(cases: Vec<Value>, seed: u64, first: usize, caps: [usize; 3], out: &str, scratch: &Path) {
    install();
    io::hold(cases.iter().any(|c| c["flushes"] == true));
    let next = AtomicUsize::new(0);
    let done = Mutex::new(vec![Vec::<Value>::new(); cases.len()]);
    let stats = Mutex::new([0usize; 4]);
    std::thread::scope(|sc| {
        for k in 0..8 {
            let (next, done, cases, stats) = (&next, &done, &cases, &stats);
            let dir = scratch.join(format!("k{k}"));
            sc.spawn(move || {
                let mut site: Option<Site> = None;
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    let c = &cases[i];
                    if cfg!(not(verif)) && c["epoch"] == true {
                        continue;
                    }
                    let mut rng = Rng::new(seed.wrapping_mul(9_000_011).wrapping_add((first + i) as u64));
                    let mut ex = Explorer::new(caps, Rng::new(rng.next()));
                    let mut seen: BTreeMap<String, (Value, usize)> = BTreeMap::new();
                    let flushes = c["flushes"].as_bool().unwrap_or(false);
                    // each case starts with a tree of its own
                    drop(site.take());
                    let mut steps = 20;
                    while let Some((mut p, cost)) = ex.next() {
                        beat::beat(&json!({"script": i, "at": ex.done[0] + ex.done[1] + ex.done[2], "op": {"op": "conc"}}).to_string());
                        if site.as_ref().is_none_or(|s| s.used >= if flushes { 40 } else { 4000 }) {
                            drop(site.take());
                            site = Some(Site::new(&dir));
                        }
                        let (mut h, log) = guard(|| run_once(c, site.as_mut().unwrap(), &mut p, &mut rng, steps)).unwrap_or_else(|_| std::process::abort());
                        if !log.is_empty() {
                            steps = log.len();
                        }
                        ex.learn(&p, cost, &log);
                        h["c"] = json!(i + 1);
                        let sched: Vec<usize> = log.iter().map(|d| d.chosen).collect();
                        seen.entry(h.to_string()).or_insert_with(|| {
                            let mut h = h.clone();
                            for f in ["coin", "gas", "blocks", "txs"] {
                                h[f] = c[f].clone();
                            }
                            h["sched"] = json!(sched);
                            (h, 0)
                        }).1 += 1;
                    }
                    let mut s = stats.lock().unwrap();
                    s[0] += ex.done.iter().sum::<usize>();
                    s[1] += usize::from(ex.complete);
                    done.lock().unwrap()[i] = seen.into_values().map(|(mut h, n)| { h["n"] = json!(n); h }).collect();
                }
                drop(site.take());
                beat::rest();
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
    use std::io::Write;
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for l in done.into_inner().unwrap().iter().flatten() {
        writeln!(f, "{l}").unwrap();
    }
    f.flush().unwrap();
    let s = stats.into_inner().unwrap();
    std::fs::write(format!("{out}.stats"), json!({"runs": s[0], "complete": s[1]}).to_string()).unwrap();
}
