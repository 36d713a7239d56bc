mod beat;
mod cases;
mod conc;
mod io;
mod mass;
mod peer;
mod script;
mod stir;
mod util;
mod world;

use serde_json::Value;
use std::io::Write;
use std::path::PathBuf;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("BCT_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let cmd = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg(&args, "--out").unwrap_or_default();
    let scratch = PathBuf::from(arg(&args, "--scratch").unwrap_or("/tmp/bct-scratch".into()));
    if cmd == "tight" {
        let n = |i: usize| args[i].parse::<u64>().unwrap();
        std::process::exit(cases::tight(&args[2], n(3) as usize, n(4), n(5)));
    }
    let limit = arg(&args, "--limit").and_then(|s| s.parse().ok()).unwrap_or(90);
    beat::start(&format!("{out}.beat"), std::time::Duration::from_secs(limit));
    match cmd.as_str() {
        "cases" => run_cases(&args, seed, &out, &scratch),
        "conc" => run_conc(&args, seed, &out, &scratch),
        "replay" => replay(&args, seed, &out, &scratch),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}

/// runs each script (one JSON array per line) on a tree of its own and writes the
/// events of all of them
fn replay(args: &[String], seed: u64, out: &str, scratch: &PathBuf) {
    let text = std::fs::read_to_string(arg(args, "--scripts").unwrap()).unwrap();
    let images = args.iter().any(|a| a == "--images");
    let light = args.iter().any(|a| a == "--light");
    let flusher = args.iter().any(|a| a == "--flusher");
    let accounts: usize = arg(args, "--accounts").and_then(|s| s.parse().ok()).unwrap_or(4);
    let scripts: Vec<Value> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
    // only every parts-th script, starting with part
    let part: usize = arg(args, "--part").and_then(|s| s.parse().ok()).unwrap_or(0);
    let parts: usize = arg(args, "--parts").and_then(|s| s.parse().ok()).unwrap_or(1);
    // number of the first script (scripts get their seeds from their numbers)
    let first: usize = arg(args, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    sled::vh::set_no_flusher(!flusher);
    let stirred = args.iter().any(|a| a == "--stir");
    if stirred {
        stir::install();
    }
    // image watching is global, so those runs are one at a time
    let workers = if images { 1 } else { 8 };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(vec![Vec::new(); scripts.len()]);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= scripts.len() {
                    return;
                }
                if i % parts != part {
                    continue;
                }
                let dir = scratch.join(format!("s{i}"));
                let accounts = scripts[i][0]["accounts"].as_u64().map_or(accounts, |n| n as usize);
                // an answer no tree gives is an end of the process as well
                let mut w = util::guard(|| {
                    let mut w = world::World::new(&dir, seed.wrapping_mul(1_000_003).wrapping_add((first + i) as u64), accounts);
                    w.images = images;
                    w.light = light;
                    if stirred {
                        w.stir = [0, 2, 6, 20][(first + i) % 4];
                    }
                    w.begin(&i.to_string());
                    script::run(&mut w, i, scripts[i].as_array().unwrap());
                    w.finish();
                    w
                })
                .unwrap_or_else(|_| std::process::abort());
                let _ = std::fs::remove_dir_all(&dir);
                done.lock().unwrap()[i] = std::mem::take(&mut w.out);
            });
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (i, evs) in done.into_inner().unwrap().iter().enumerate() {
        for e in evs {
            let mut e = e.clone();
            e["run"] = serde_json::json!(i + 1);
            writeln!(f, "{e}").unwrap();
        }
    }
}

/// answers each case (one JSON object per line) with a line
fn run_cases(args: &[String], seed: u64, out: &str, scratch: &PathBuf) {
    let text = std::fs::read_to_string(arg(args, "--cases").unwrap()).unwrap();
    let first: usize = arg(args, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(vec![String::new(); lines.len()]);
    sled::vh::set_no_flusher(true);
    std::fs::create_dir_all(scratch).unwrap();
    std::thread::scope(|sc| {
        for k in 0..8 {
            let (next, done, lines) = (&next, &done, &lines);
            let dir = scratch.join(format!("c{k}"));
            sc.spawn(move || {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    let c: Value = serde_json::from_str(lines[i]).unwrap();
                    beat::beat(&serde_json::json!({"script": i, "at": 0, "op": {"op": "case"}}).to_string());
                    let mut rng = util::Rng::new(seed.wrapping_mul(7_000_003).wrapping_add((first + i) as u64));
                    // what escapes the guards of a case is an end of the process as well
                    let r = util::guard(|| cases::run(&c, &mut rng, &dir)).unwrap_or_else(|_| std::process::abort());
                    done.lock().unwrap()[i] = r.to_string();
                }
                beat::rest();
            });
        }
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for l in done.into_inner().unwrap().iter() {
        writeln!(f, "{l}").unwrap();
    }
}

/// explores the schedules of each scenario (one JSON object per line)
fn run_conc(args: &[String], seed: u64, out: &str, scratch: &PathBuf) {
    let text = std::fs::read_to_string(arg(args, "--cases").unwrap()).unwrap();
    let first: usize = arg(args, "--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    let n = |k: &str, d: usize| arg(args, k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let caps = [n("--dfs", 100), n("--random", 20), n("--free", 20)];
    let cases: Vec<Value> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
    sled::vh::set_no_flusher(true);
    conc::main(cases, seed, first, caps, out, scratch);
}
