//! vharness PROP [--seed N] [--secs N] [--max N] [--case I] [--trace FILE] [--threads N]
mod gen;
mod props_conv;
mod props_load;
mod props_out;
mod props_parse;
mod rng;
mod spec;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Out { Skip, Pass, Fail(String) }
thread_local! {
    static NOTE: RefCell<Option<String>> = RefCell::new(None);
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static WANT: RefCell<bool> = RefCell::new(false);
}
/// remembers the input of the current case, for panics and time outs
pub fn note<F: FnOnce() -> String>(f: F) {
    if WANT.with(|w| *w.borrow()) { let s = f(); println!("INPUT\n{}", s); NOTE.with(|n| *n.borrow_mut() = Some(s)); }
}

fn case(prop: &str, seed: u64, i: u64) -> Out {
    let mut r = rng::Rng::new(seed, prop, i);
    let f = || match prop {
        "C11" | "C12" | "C13" | "C14" => props_conv::run(prop, &mut r),
        "C19" => props_load::run(&mut r),
        // only whether it finishes counts here
        "C20" if i % 20 == 0 => match props_load::run(&mut r) { Out::Fail(_) => Out::Pass, o => o },
        "C20" => props_parse::run_finishes(&mut r),
        "C15" | "C16" | "C17" => props_out::run(prop, &mut r),
        "C18" if i == 7 => props_parse::deep_indent(),
        _ => props_parse::run(prop, &mut r),
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // known: the dependency's `parse_number` overflows on a huge exponent in debug builds
            if l.contains("read_token") && (m.contains("multiply with overflow") || m.contains("add with overflow")) { return Out::Skip; }
            Out::Fail(format!("  panicked at {}: {}\n", l, m))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: String = a[1].clone();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let (seed, secs, max, threads) = (get("--seed", 1), get("--secs", 5), get("--max", u64::MAX), get("--threads", 4));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
    if prop == "child" {
        props_out::child_main(&a[2], a[3].parse().unwrap());
        return;
    }
    if prop == "finding" {
        println!("{}", if props_parse::finding(&a[2]) { "REPRODUCED" } else { "GONE" });
        return;
    }
    let one = a.iter().position(|x| x == "--case").map(|i| a[i + 1].parse::<u64>().unwrap());
    if let Some(i) = one {
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            WANT.with(|w| *w.borrow_mut() = true);
            case(&prop, seed, i)
        }).unwrap();
        let t0 = Instant::now();
        while !t.is_finished() {
            std::thread::sleep(Duration::from_millis(5));
            if t0.elapsed() > Duration::from_secs(15) { println!("FAIL: did not finish"); std::process::exit(1); }
        }
        match t.join().unwrap() {
            Out::Fail(f) => { println!("FAIL\n{}", f); std::process::exit(1); }
            Out::Pass => println!("PASS"),
            Out::Skip => println!("SKIP"),
        }
        return;
    }
    let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
    let threads = if trace.is_some() { 1 } else { threads };
    let next = Arc::new(AtomicU64::new(0));
    let (pass, skip) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let failed: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let t0 = Instant::now();
    let cur: Vec<Arc<(AtomicU64, AtomicU64)>> = (0..threads).map(|_| Arc::new((AtomicU64::new(u64::MAX), AtomicU64::new(0)))).collect();
    let mut hs = vec![];
    for k in 0..threads as usize {
        let (next, pass, skip, failed, prop, cur, trace) = (next.clone(), pass.clone(), skip.clone(), failed.clone(), prop.clone(), cur[k].clone(), trace.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            while t0.elapsed() < Duration::from_secs(secs) && failed.lock().unwrap().is_none() {
                let i = next.fetch_add(1, SeqCst);
                if i >= max { break; }
                cur.1.store(t0.elapsed().as_millis() as u64, SeqCst);
                cur.0.store(i, SeqCst);
                if let Some(t) = &trace { std::fs::write(t, format!("{}", i)).unwrap(); }
                match case(&prop, seed, i) {
                    Out::Pass => { pass.fetch_add(1, SeqCst); }
                    Out::Skip => { skip.fetch_add(1, SeqCst); }
                    Out::Fail(f) => { let mut l = failed.lock().unwrap(); if l.as_ref().map_or(true, |x| x.0 > i) { *l = Some((i, f)); } }
                }
            }
            cur.0.store(u64::MAX, SeqCst);
        }).unwrap());
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(5));
        let now = t0.elapsed().as_millis() as u64;
        for c in &cur {
            let i = c.0.load(SeqCst);
            if i != u64::MAX && now > c.1.load(SeqCst) + 20000 && c.0.load(SeqCst) == i {
                println!("FAIL case={} seed={}\n  did not finish", i, seed);
                std::process::exit(1);
            }
        }
    }
    if let Some((i, f)) = failed.lock().unwrap().take() {
        println!("FAIL case={} seed={}\n{}", i, seed, f);
        std::process::exit(1);
    }
    println!("OK pass={} skip={}", pass.load(SeqCst), skip.load(SeqCst));
}
