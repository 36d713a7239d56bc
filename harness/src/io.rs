//! Stand-ins for the system calls that change files.  While a watch is on, every
//! such call below the watched folder is made under one lock, and the folder's
//! content just before the call is an image a kill at that instant would leave.
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::ffi::CStr;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, RwLock};

use libc::*;

const PAGE: usize = 4096;

#[derive(Clone)]
pub struct Image {
    pub dirs: Vec<PathBuf>,
    pub files: Vec<(PathBuf, u64, Vec<(u64, Vec<u8>)>)>,
    pub why: String,
    pub digest: u64,
}

impl Image {
    pub fn take(root: &Path, why: &str) -> Image {
        let mut im = Image { dirs: vec![], files: vec![], why: why.into(), digest: 0 };
        im.walk(root, root);
        let mut h = DefaultHasher::new();
        im.dirs.hash(&mut h);
        im.files.hash(&mut h);
        im.digest = h.finish();
        im
    }
    fn walk(&mut self, root: &Path, p: &Path) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for e in es {
            let rel = e.strip_prefix(root).unwrap().to_path_buf();
            if e.is_dir() {
                self.dirs.push(rel);
                self.walk(root, &e);
            } else if let Ok(d) = std::fs::read(&e) {
                let mut pages = vec![];
                for (i, c) in d.chunks(PAGE).enumerate() {
                    if c.iter().any(|b| *b != 0) {
                        pages.push(((i * PAGE) as u64, c.to_vec()));
                    }
                }
                self.files.push((rel, d.len() as u64, pages));
            }
        }
    }
    /// Was the storage engine in the middle of writing one of its own small files?
    /// (`conf` when a database is created, `snap.*` when one is opened or closed.)
    pub fn torn(&self) -> bool {
        self.files.iter().any(|(p, len, pages)| {
            let n = p.file_name().unwrap().to_string_lossy();
            if n.starts_with("snap.") {
                return n.ends_with(".generating");
            }
            if n != "conf" {
                return false;
            }
            let d: &[u8] = pages.first().map_or(&[], |p| &p.1);
            // text, then four bytes of checksum
            *len <= 4 || !d[..*len as usize - 4].ends_with(b"version: 0.34\n")
        })
    }
    pub fn restore(&self, root: &Path) {
        use std::os::unix::fs::FileExt;
        std::fs::create_dir_all(root).unwrap();
        for d in &self.dirs {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for (p, len, pages) in &self.files {
            let f = std::fs::File::create(root.join(p)).unwrap();
            f.set_len(*len).unwrap();
            for (o, d) in pages {
                f.write_all_at(d, *o).unwrap();
            }
        }
    }
}

pub struct Watch {
    root: PathBuf,
    seen: HashSet<u64>,
    images: Vec<Image>,
    cap: usize,
    pub calls: usize,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static WATCH: Mutex<Option<Watch>> = Mutex::new(None);
thread_local!(static INSIDE: Cell<bool> = const { Cell::new(false) });

pub fn watch(root: &Path, cap: usize) {
    *WATCH.lock().unwrap() =
        Some(Watch { root: root.to_path_buf(), seen: HashSet::new(), images: vec![], cap, calls: 0 });
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn unwatch() -> Vec<Image> {
    ACTIVE.store(false, Ordering::SeqCst);
    let w = WATCH.lock().unwrap().take();
    w.map(|w| w.images).unwrap_or_default()
}

/// The images gathered so far; the watch goes on.
pub fn take_images() -> Vec<Image> {
    WATCH.lock().unwrap().as_mut().map(|w| std::mem::take(&mut w.images)).unwrap_or_default()
}

/// While this is on, no file changes in the middle of taking an image with `now`.
static HOLD: AtomicBool = AtomicBool::new(false);
static CHANGES: RwLock<()> = RwLock::new(());

pub fn hold(v: bool) {
    HOLD.store(v, Ordering::SeqCst);
}

/// An image of the watched folder as it is now.
pub fn now(root: &Path, why: &str) -> Image {
    let _h = HOLD.load(Ordering::SeqCst).then(|| CHANGES.write().unwrap());
    let _l = WATCH.lock().unwrap();
    INSIDE.with(|i| i.set(true));
    let im = Image::take(root, why);
    INSIDE.with(|i| i.set(false));
    im
}

/// Adds an image of the watched folder as it is now.
pub fn mark(why: &str) {
    let mut g = WATCH.lock().unwrap();
    if let Some(w) = g.as_mut() {
        INSIDE.with(|i| i.set(true));
        w.shot(why);
        INSIDE.with(|i| i.set(false));
    }
}

impl Watch {
    fn shot(&mut self, why: &str) {
        if self.images.len() >= self.cap {
            return;
        }
        let im = Image::take(&self.root, why);
        if self.seen.insert(im.digest) {
            self.images.push(im);
        }
    }
}

fn fd_path(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}

/// Runs `call` under the lock, taking an image first if `path` is watched.
unsafe fn guarded<R>(name: &str, path: impl FnOnce() -> Option<PathBuf>, call: impl FnOnce() -> R) -> R {
    if INSIDE.with(|i| i.get()) {
        return call();
    }
    if !ACTIVE.load(Ordering::Relaxed) {
        if !HOLD.load(Ordering::Relaxed) {
            return call();
        }
        INSIDE.with(|i| i.set(true));
        let l = CHANGES.read().unwrap();
        let r = call();
        let e = *__errno_location();
        drop(l);
        INSIDE.with(|i| i.set(false));
        *__errno_location() = e;
        return r;
    }
    INSIDE.with(|i| i.set(true));
    let mut g = WATCH.lock().unwrap();
    if let Some(w) = g.as_mut() {
        if let Some(p) = path() {
            if p.starts_with(&w.root) {
                w.calls += 1;
                let rel = p.strip_prefix(&w.root).unwrap().display().to_string();
                w.shot(&format!("before {name} {rel}"));
            }
        }
    }
    let r = call();
    // errno of the call has to survive what follows
    let e = *__errno_location();
    drop(g);
    INSIDE.with(|i| i.set(false));
    *__errno_location() = e;
    r
}

unsafe fn cpath(p: *const c_char) -> Option<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    let s = CStr::from_ptr(p);
    Some(PathBuf::from(std::ffi::OsStr::from_bytes(s.to_bytes())))
}

unsafe fn atpath(dirfd: c_int, p: *const c_char) -> Option<PathBuf> {
    let p = cpath(p)?;
    if p.is_absolute() || dirfd == AT_FDCWD {
        return Some(p);
    }
    Some(fd_path(dirfd)?.join(p))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    guarded("write", || fd_path(fd), || syscall(SYS_write, fd, buf, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    guarded("pwrite", || fd_path(fd), || syscall(SYS_pwrite64, fd, buf, n, o) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    guarded("pwrite", || fd_path(fd), || syscall(SYS_pwrite64, fd, buf, n, o) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    guarded("writev", || fd_path(fd), || syscall(SYS_writev, fd, v, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    guarded("truncate", || fd_path(fd), || syscall(SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    guarded("truncate", || fd_path(fd), || syscall(SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    guarded("rename", || cpath(a), || syscall(SYS_rename, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    guarded("unlink", || cpath(a), || syscall(SYS_unlink, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    guarded("rmdir", || cpath(a), || syscall(SYS_rmdir, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    guarded("unlink", || atpath(d, a), || syscall(SYS_unlinkat, d, a, f) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    guarded("mkdir", || cpath(a), || syscall(SYS_mkdir, a, m) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn open64(a: *const c_char, f: c_int, m: mode_t) -> c_int {
    if f & (O_CREAT | O_TRUNC) != 0 {
        guarded("open", || cpath(a), || syscall(SYS_openat, AT_FDCWD, a, f | O_LARGEFILE, m) as c_int)
    } else {
        syscall(SYS_openat, AT_FDCWD, a, f | O_LARGEFILE, m) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    i: c_int,
    oi: *mut off64_t,
    o: c_int,
    oo: *mut off64_t,
    n: size_t,
    f: c_uint,
) -> ssize_t {
    // at most a part at a time, so that half-copied files occur
    let n = if ACTIVE.load(Ordering::Relaxed) { n.min(8192) } else { n };
    guarded("copy", || fd_path(o), || syscall(SYS_copy_file_range, i, oi, o, oo, n, f) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    let n = if ACTIVE.load(Ordering::Relaxed) { n.min(8192) } else { n };
    guarded("copy", || fd_path(o), || syscall(SYS_sendfile, o, i, off, n) as ssize_t)
}
