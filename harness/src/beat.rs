//! Notes what every worker is doing, so that an abort or a hang of the code under
//! test can be told from an answer.
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STUCK: i32 = 97;
static SLOTS: Mutex<Vec<Option<Instant>>> = Mutex::new(Vec::new());
static FILE: Mutex<Option<File>> = Mutex::new(None);
thread_local!(static SLOT: Cell<usize> = const { Cell::new(usize::MAX) });
const WIDTH: usize = 1024;

/// Notes go to `path`, one fixed-width line per worker; an operation that takes
/// longer than `limit` ends the process.
pub fn start(path: &str, limit: Duration) {
    *FILE.lock().unwrap() = Some(File::create(path).unwrap());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = SLOTS.lock().unwrap();
        for x in s.iter().flatten() {
            if x.elapsed() > limit {
                unsafe { libc::_exit(STUCK) };
            }
        }
    });
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            let mut v = SLOTS.lock().unwrap();
            v.push(None);
            s.set(v.len() - 1);
        }
        s.get()
    })
}

pub fn beat(what: &str) {
    let k = slot();
    SLOTS.lock().unwrap()[k] = Some(Instant::now());
    note(k, what);
}

pub fn rest() {
    let k = slot();
    SLOTS.lock().unwrap()[k] = None;
    note(k, "");
}

fn note(k: usize, what: &str) {
    let mut b = vec![b' '; WIDTH];
    let n = what.len().min(WIDTH - 1);
    b[..n].copy_from_slice(&what.as_bytes()[..n]);
    b[WIDTH - 1] = b'\n';
    if let Some(f) = FILE.lock().unwrap().as_ref() {
        let _ = f.write_all_at(&b, (k * WIDTH) as u64);
    }
}
