//! What the database's background flusher may do at any time: some of the open
//! databases are written to disk, others are not.  Between two database calls of an
//! operation each is by chance; the script's seed decides.
use crate::util::Rng;
use std::cell::RefCell;
use std::path::{Path, PathBuf};

struct Stir {
    root: PathBuf,
    rng: Rng,
    one_in: usize,
}
thread_local!(static NOW: RefCell<Option<Stir>> = const { RefCell::new(None) });

pub fn install() {
    sled::vh::set_hook(Some(|_, _, _| at_call()));
}

fn at_call() {
    // flushing makes calls as well
    let Some(mut s) = NOW.with(|n| n.borrow_mut().take()) else { return };
    if s.rng.below(s.one_in) == 0 {
        for (_, db) in sled::vh::open_below(&s.root) {
            if s.rng.below(2) == 0 {
                let _ = db.flush();
            }
        }
    }
    NOW.with(|n| *n.borrow_mut() = Some(s));
}

/// until `stop`, one in so many database calls of this thread
pub fn start(root: &Path, seed: u64, one_in: usize) {
    let s = (one_in > 0).then(|| Stir { root: root.to_path_buf(), rng: Rng::new(seed), one_in });
    NOW.with(|n| *n.borrow_mut() = s);
}

pub fn stop() {
    NOW.with(|n| n.borrow_mut().take());
}
