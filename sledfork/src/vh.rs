//! Verification hooks (the only addition to sled 0.34.7): a callback before each
//! public operation on a tree, a registry of open databases by path, and a switch
//! that keeps the background flusher from being started.
use std::mem::ManuallyDrop;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

use crate::tree::{Tree, TreeInner};

struct Entry(PathBuf, ManuallyDrop<Tree>);
#[allow(unsafe_code)]
unsafe impl Send for Entry {}

/// Called with the operation, the path of the database and the key.
pub type HookFn = fn(&'static str, &Tree, &[u8]);

static HOOK: AtomicUsize = AtomicUsize::new(0);
static NO_FLUSHER: AtomicBool = AtomicBool::new(false);
static OPEN: Mutex<Vec<Entry>> = Mutex::new(Vec::new());

/// Installs or removes the callback.
pub fn set_hook(hook: Option<HookFn>) {
    HOOK.store(hook.map_or(0, |h| h as usize), Ordering::SeqCst);
}

/// Keeps later opened databases from flushing in the background.
pub fn set_no_flusher(v: bool) {
    NO_FLUSHER.store(v, Ordering::SeqCst);
}

pub(crate) fn no_flusher() -> bool {
    NO_FLUSHER.load(Ordering::SeqCst)
}

#[allow(unsafe_code)]
pub(crate) fn call(op: &'static str, tree: &Tree, key: &[u8]) {
    let h = HOOK.load(Ordering::Relaxed);
    if h != 0 {
        let f: HookFn = unsafe { std::mem::transmute(h) };
        f(op, tree, key);
    }
}

// The registry does not keep a database open: an entry is a second copy of the
// handle that is never dropped, removed when the database is dropped.
#[allow(unsafe_code)]
pub(crate) fn register(path: &Path, tree: &Tree) {
    let copy = ManuallyDrop::new(unsafe { std::ptr::read(tree) });
    OPEN.lock().unwrap().push(Entry(path.to_path_buf(), copy));
}

pub(crate) fn deregister(inner: &TreeInner) {
    if let Ok(mut open) = OPEN.lock() {
        open.retain(|e| !std::ptr::eq::<TreeInner>(&**e.1, inner));
    }
}

/// The most recently opened database at `path` that is still open.
pub fn lookup(path: &Path) -> Option<Tree> {
    let open = OPEN.lock().unwrap();
    open.iter().rev().find(|e| e.0 == path).map(|e| (*e.1).clone())
}

/// All open databases below `root`, with their paths.
pub fn open_below(root: &Path) -> Vec<(PathBuf, Tree)> {
    let open = OPEN.lock().unwrap();
    open.iter()
        .filter(|e| e.0.starts_with(root))
        .map(|e| (e.0.clone(), (*e.1).clone()))
        .collect()
}

impl Tree {
    /// The path of the database the tree belongs to.
    pub fn vh_path(&self) -> PathBuf {
        self.context.get_path()
    }
}
