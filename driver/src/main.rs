//! vx-driver: searches for inputs on which the real code breaks a property, and replays them.
mod arrays;
mod bits;
mod core;
mod text;
mod trust;
use crate::core::*;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn prop(id: &str) -> Option<fn(&mut Gen, u64) -> R> {
    Some(match id {
        "C01" => bits::c01, "C02" => bits::c02, "C03" => bits::c03, "C04" => bits::c04, "C05" => bits::c05, "C06" => bits::c06,
        "C07" => bits::c07, "C08" => bits::c08, "C09" => text::c09, "C10" => text::c10, "C11" => text::c11, "C12" => bits::c12,
        "C13" => arrays::c13, "C14" => bits::c14, "C15" => arrays::c15, "C16" => arrays::c16, "C17" => arrays::c17, "C18" => arrays::c18,
        "C19" => arrays::c19, "C20" => text::c20, "C22" => bits::c22, "C23" => arrays::c23,
        _ => return None,
    })
}

thread_local! { static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

/// one case: (result, evaluations, description)
fn run(id: &str, seed: u64, case: u64, trace: bool) -> (R, u64, String) {
    let f = prop(id).unwrap();
    HASH.with(|h| h.set(0));
    let mut g = Gen::new(seed, case);
    if trace { g.log = Some(String::new()); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g, case)));
    let r = match r { Ok(r) => r, Err(_) => Err(format!("panic: {}", MSG.with(|m| m.borrow().clone()))) };
    (r, g.evals, g.log.unwrap_or_default())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let t = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|m| *m.borrow_mut() = format!("{t} at {l}"));
    }));
    if a[1] == "trust" {
        match trust::all(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            Ok(l) => println!("{{{}}}", l.iter().map(|(k, n)| format!("{k:?}: {n}")).collect::<Vec<_>>().join(", ")),
            Err(e) => { eprintln!("{e}"); std::process::exit(1); }
        }
        return;
    }
    let id = a[2].clone();
    if prop(&id).is_none() { eprintln!("unknown property {id}"); std::process::exit(2); }
    match a[1].as_str() {
        "one" => {
            let (seed, case): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            if id == "C15" && case == u64::MAX { println!("{}", arrays::c15_known().unwrap_or("not reproduced".into())); return; }
            let (r, _, log) = run(&id, seed, case, true);
            print!("{log}");
            match r { Ok(()) => println!("ok"), Err(e) if e.starts_with("KNOWN") => println!("{e}"), Err(e) => { println!("FAIL {e}"); std::process::exit(1); } }
        }
        "search" => search(&id, a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => std::process::exit(2),
    }
}

/// search ID SEED SECONDS STATEFILE: writes a JSON summary to stdout
fn search(id: &str, seed: u64, secs: f64, state: &str) {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let file = Arc::new(std::fs::File::create(state).unwrap());
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let evals = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let bad: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let knowns: Arc<Mutex<std::collections::BTreeMap<String, u64>>> = Arc::new(Mutex::new(Default::default()));
    let distinct: Arc<Mutex<std::collections::HashSet<u64>>> = Arc::new(Mutex::new(Default::default()));
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let t0 = Instant::now();
    if id == "C15" { if let Some(k) = arrays::c15_known() { knowns.lock().unwrap().insert(k, u64::MAX); } }
    let mut hs = vec![];
    for t in 0..threads {
        let (distinct, file, stop, next, evals, done, bad, knowns, cur, id) = (distinct.clone(), file.clone(), stop.clone(), next.clone(), evals.clone(), done.clone(), bad.clone(), knowns.clone(), cur.clone(), id.to_string());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut mine: std::collections::HashSet<u64> = Default::default();
            while !stop.load(SeqCst) {
                let base = next.fetch_add(16, SeqCst);
                for c in base..base + 16 {
                    let _ = file.write_at(&c.to_le_bytes(), t as u64 * 8);
                    cur[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                    cur[t].0.store(c, SeqCst);
                    let (r, n, _) = run(&id, seed, c, false);
                    evals.fetch_add(n, SeqCst);
                    done.fetch_add(1, SeqCst);
                    if n > 0 && mine.len() < 1_000_000 { mine.insert(HASH.with(|h| h.get())); }
                    if let Err(e) = r {
                        if e.starts_with("KNOWN") { let k: String = e.split_whitespace().map(|w| if w.chars().next().map_or(false, |c| c.is_ascii_digit()) { "wide" } else { w }).collect::<Vec<_>>().join(" "); knowns.lock().unwrap().entry(k).or_insert(c); } else {
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |x| c < x.0) { *b = Some((c, e)); }
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    if t0.elapsed().as_secs_f64() > secs { stop.store(true, SeqCst); break; }
                }
            }
            cur[t].0.store(u64::MAX, SeqCst);
            distinct.lock().unwrap().extend(mine);
        }).unwrap());
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        let now = t0.elapsed().as_millis() as u64;
        for (c, s) in cur.iter() {
            let k = c.load(SeqCst);
            if k != u64::MAX && now.saturating_sub(s.load(SeqCst)) > 20_000 && bad.lock().unwrap().is_none() {
                *bad.lock().unwrap() = Some((k, "no answer within 20 s".to_string()));
                stop.store(true, SeqCst);
            }
        }
        if stop.load(SeqCst) && now as f64 > secs * 1000.0 + 25_000.0 { break; }
        if bad.lock().unwrap().as_ref().map_or(false, |b| b.1.starts_with("no answer")) { break; }
    }
    let b = bad.lock().unwrap().clone();
    let k = knowns.lock().unwrap().clone();
    let q = |s: &str| format!("{:?}", s.chars().map(|c| if c == '\u{7f}' || (c as u32) < 32 { ' ' } else { c }).collect::<String>()).replace("\\'", "'").replace("\\u{", "u{");
    let mut samples = vec![];
    if b.is_none() { for c in [0, 1000, done.load(SeqCst) / 2] { let (_, _, l) = run(id, seed, c, true); samples.push(q(&l.chars().take(600).collect::<String>().replace('\n', "; "))); } }
    let known: Vec<String> = k.iter().map(|(s, c)| format!("[{}, {}]", q(s.trim_start_matches("KNOWN ")), c)).collect();
    println!("{{\"cases\": {}, \"evaluations\": {}, \"distinct\": {}, \"wall\": {:.2}, \"known\": [{}], \"samples\": [{}], \"fail\": {}}}", done.load(SeqCst), evals.load(SeqCst), distinct.lock().unwrap().len(), t0.elapsed().as_secs_f64(), known.join(", "), samples.join(", "),
        match b { Some((c, e)) => format!("{{\"case\": {c}, \"error\": {}}}", q(&e)), None => "null".to_string() });
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
