#![allow(deprecated)]
mod runner;
mod jgen;
mod jmodel;
mod tstore;
mod jchecks;
mod jchecks2;
mod jrestore;
mod jenc;
mod jnode;
mod local;
mod pshare;
mod ptrie;
mod pchecks;
mod stores;

use runner::*;
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

fn all() -> Vec<Box<dyn DynCheck>> {
    let mut v: Vec<Box<dyn DynCheck>> = vec![];
    v.extend(jchecks::checks().into_iter().chain(jchecks2::checks()).chain(jrestore::checks()).chain(jenc::checks()).chain(jnode::checks()).chain(local::checks()).chain(pshare::checks()).chain(pchecks::checks()).chain(stores::checks()));
    v
}

fn verif_dir() -> PathBuf {
    std::env::var("VH_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn usage() -> ! {
    eprintln!("usage: vh check ID | vh replay FILE | vh one ID INDEX | vh show ID INDEX | vh list");
    std::process::exit(2)
}

fn main() {
    // anyhow captures a backtrace for every error otherwise
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let checks = all();
    let find = |id: &str| checks.iter().find(|c| c.id() == id).unwrap_or_else(|| usage());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{}", c.id());
            }
        }
        Some("check") => {
            let id = args.get(2).unwrap_or_else(|| usage());
            find(id);
            std::process::exit(parent(id, tier, seed));
        }
        Some("check-child") => {
            install_panic_hook();
            let c = find(args.get(2).unwrap_or_else(|| usage()));
            let num = |i: usize| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(0);
            let out = OutDirs { verif: verif_dir(), progress: args.get(3).map(PathBuf::from), known: (num(4), num(5)) };
            std::process::exit(c.run_all(tier, seed, &out));
        }
        Some("known-child") => {
            install_panic_hook();
            let c = find(args.get(2).unwrap_or_else(|| usage()));
            let i = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage());
            let mut code = 2;
            big_stack(|| code = c.known(&verif_dir(), i));
            std::process::exit(code);
        }
        Some("one") => {
            install_panic_hook();
            let c = find(args.get(2).unwrap_or_else(|| usage()));
            let idx: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage());
            big_stack(|| match c.one(tier, seed, idx) {
                Ok(()) => println!("ok"),
                Err(m) => {
                    println!("failure: {m}");
                    std::process::exit(1)
                }
            });
        }
        Some("show") => {
            let c = find(args.get(2).unwrap_or_else(|| usage()));
            let idx: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage());
            println!("{}", serde_json::to_string_pretty(&c.case_json(tier, seed, idx)).unwrap());
        }
        Some("replay") => {
            install_panic_hook();
            let f = args.get(2).unwrap_or_else(|| usage());
            let doc: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(f).expect("read replay file")).expect("json");
            let c = find(doc["property"].as_str().unwrap_or(""));
            big_stack(|| match c.replay(&doc["case"]) {
                Ok(Ok(())) => println!("passes"),
                Ok(Err(m)) => {
                    println!("failure: {m}");
                    println!("VIOLATION property={} replay={}", c.id(), f);
                    std::process::exit(1)
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(2)
                }
            });
        }
        _ => usage(),
    }
}

fn big_stack(f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap().join().unwrap();
    });
}

/// Runs the check in a child process, so that a crash of the process (stack overflow, abort) is
/// attributed to the case that causes it, and a hang ends as an error of the check.
fn parent(id: &str, tier: Tier, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let dir = verif_dir().join("replays").join(format!("progress-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("progress dir");
    let limit = Duration::from_secs(if tier == Tier::Quick { 780 } else { 3000 });
    let code = (|| {
        let t0 = Instant::now();
        // known findings are replayed first, each on its own
        let listed = known_findings(&verif_dir(), id);
        let mut hit = 0;
        for (i, k) in listed.iter().enumerate() {
            let f = dir.join("found-known");
            let out = std::fs::File::create(&f).expect("output file");
            let mut ch = Command::new(&exe).args(["known-child", id, &i.to_string()]).stdout(out).spawn().expect("spawn child");
            let t1 = Instant::now();
            let st = loop {
                if let Some(s) = ch.try_wait().expect("wait") {
                    break Some(s);
                }
                if t1.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(2));
            };
            let how = match st {
                None => "it does not end".into(),
                Some(s) => match s.code() {
                    Some(1) => std::fs::read_to_string(&f).unwrap_or_default().trim().to_string(),
                    Some(0) => {
                        println!("note: listed finding no longer fails: property={id} {}", k["what"].as_str().unwrap_or("?"));
                        continue;
                    }
                    Some(_) => return 2,
                    None => "the process is ended by a signal".into(),
                },
            };
            hit += 1;
            println!("KNOWN-FINDING: property={id} {} [{how}]", k["what"].as_str().unwrap_or("?"));
        }
        let mut ch = Command::new(&exe).args(["check-child", id]).arg(&dir).args([listed.len().to_string(), hit.to_string()]).spawn().expect("spawn child");
        let report = |msg: &str, doc: serde_json::Value| {
            let i = doc["index"].as_u64().unwrap_or(0);
            let p = verif_dir().join("replays").join(format!("{id}-s{seed}-i{i}.json"));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap());
            println!("failure: {msg}");
            println!("VIOLATION property={id} replay={}", p.display());
            1
        };
        let case_of = |i: u64, msg: &str| {
            let js = Command::new(&exe).args(["show", id, &i.to_string()]).output().expect("show");
            let case: serde_json::Value = serde_json::from_slice(&js.stdout).unwrap_or_default();
            serde_json::json!({"property": id, "seed": seed, "index": i, "message": msg, "case": case})
        };
        let found = || -> Option<serde_json::Value> { serde_json::from_slice(&std::fs::read(dir.join("found.json")).ok()?).ok() };
        let hang = Duration::from_secs(std::env::var("VH_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(100));
        let mut since: std::collections::HashMap<u64, Instant> = Default::default();
        let mut excused: Vec<u64> = vec![];
        let mut looked = Instant::now();
        let st = loop {
            if let Some(s) = ch.try_wait().expect("wait") {
                break s;
            }
            if t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                if let Some(doc) = found() {
                    return report(doc["message"].as_str().unwrap_or("?"), doc.clone());
                }
                eprintln!("{id}: no answer within {limit:?}: error, not a verdict");
                return 3;
            }
            if looked.elapsed() > Duration::from_secs(1) {
                looked = Instant::now();
                // u64::MAX stands for the shrinking of a failure
                let now = if found().is_some() { vec![u64::MAX] } else { in_flight(&dir) };
                since.retain(|i, _| now.contains(i));
                for i in now {
                    let t = *since.entry(i).or_insert(looked);
                    if looked - t < hang || excused.contains(&i) {
                        continue;
                    }
                    if i == u64::MAX {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        let doc = found().unwrap();
                        return report(doc["message"].as_str().unwrap_or("?"), doc.clone());
                    }
                    // the case takes thousands of times as long as any other: does it on its own?
                    let mut one = Command::new(&exe).args(["one", id, &i.to_string()]).stdout(std::process::Stdio::null()).spawn().expect("one");
                    let t1 = Instant::now();
                    let mut ended = false;
                    while t1.elapsed() < hang {
                        ended = one.try_wait().expect("wait").is_some();
                        if ended {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    }
                    if ended {
                        excused.push(i);
                        continue;
                    }
                    let _ = one.kill();
                    let _ = one.wait();
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let m = format!("no end of the case within {hang:?}, twice (usual are milliseconds)");
                    return report(&m, case_of(i, &m));
                }
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(c) = st.code() {
            return c;
        }
        let sig = st.signal().unwrap_or(0);
        eprintln!("{id}: child ended by signal {sig}");
        if ![4, 6, 7, 8, 11].contains(&sig) {
            return 3;
        }
        if let Some(doc) = found() {
            return report(doc["message"].as_str().unwrap_or("?"), doc.clone());
        }
        // Which of the cases in flight does it?
        let mut idx = in_flight(&dir);
        idx.sort();
        for i in idx {
            let o = Command::new(&exe).args(["one", id, &i.to_string()]).output().expect("one");
            if let Some(s) = o.status.signal() {
                if [4, 6, 7, 8, 11].contains(&s) {
                    return report(&format!("the process is ended by signal {s} (stack overflow or abort)"), case_of(i, &format!("process ended by signal {s}")));
                }
            }
        }
        eprintln!("{id}: the crash did not reproduce from a single case");
        3
    })();
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// The cases being run by the child.
fn in_flight(dir: &std::path::Path) -> Vec<u64> {
    let mut idx: Vec<u64> = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("found") {
            continue;
        }
        if let Ok(b) = std::fs::read(e.path()) {
            if b.len() >= 8 {
                let i = u64::from_le_bytes(b[..8].try_into().unwrap());
                if i != u64::MAX {
                    idx.push(i);
                }
            }
        }
    }
    idx
}
