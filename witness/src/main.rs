//! Searches for inputs on which the real crate breaks a property, against
//! oracles written from the statement of the property.
//!
//! witness run PROP SEED SECS THREADS OUT   exit 0: nothing found, 1: OUT holds a failing case
//! witness conform SEED N                  tests the assumptions about the standard library
//! witness replay FILE                      runs the case of a replay file again
mod c02;
mod conform;
mod docs;
mod gen;
mod num;
mod rng;
mod texts;
mod values;

use rng::Rng;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One property: makes cases and judges them.
pub trait Prop: Send + Sync {
    /// The n-th case of a fixed enumeration (`None`: past the end).
    fn fixed(&self, _n: u64) -> Option<String> {
        None
    }
    /// A random case, self-contained.
    fn make(&self, r: &mut Rng) -> String;
    /// `Err`: what is broken. `Ok(true)` for a case which says something.
    fn judge(&self, case: &str) -> Result<bool, String>;
    /// How cases are made, and which count.
    fn rule(&self) -> &'static str;
}

fn prop(id: &str) -> Box<dyn Prop> {
    match id {
        "C01" => Box::new(texts::C01),
        "C03" => Box::new(texts::C03),
        "C04" => Box::new(values::Values("C04")),
        "C05" => Box::new(values::Values("C05")),
        "C16" => Box::new(values::Values("C16")),
        "C17" => Box::new(values::Values("C17")),
        "C18" => Box::new(values::Values("C18")),
        "C19" => Box::new(values::Values("C19")),
        "C20" => Box::new(values::Values("C20")),
        "C21" => Box::new(values::Values("C21")),
        "C06" => Box::new(texts::C06),
        "C08" => Box::new(texts::C08),
        "C07" => Box::new(texts::C07),
        "C12" => Box::new(texts::C12),
        "C02" => Box::new(c02::C02),
        "C09" => Box::new(docs::Docs("C09")),
        "C10" => Box::new(docs::Docs("C10")),
        "C11" => Box::new(docs::Docs("C11")),
        "C13" => Box::new(docs::Docs("C13")),
        "C14" => Box::new(docs::Docs("C14")),
        "C15" => Box::new(docs::Docs("C15")),
        _ => {
            eprintln!("no witness search for {id}");
            std::process::exit(3)
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// Judges one case; a panic breaks the property.
fn run(p: &dyn Prop, case: &str) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| p.judge(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

/// Cases listed as known: `property<TAB>case` lines.
fn known(id: &str) -> HashSet<String> {
    let f = std::env::var("WITNESS_KNOWN").unwrap_or_default();
    let Ok(s) = std::fs::read_to_string(f) else { return HashSet::new() };
    s.lines().filter_map(|l| l.split_once('\t')).filter(|(p, _)| *p == id).map(|(_, c)| c.to_string()).collect()
}

struct Slot {
    since: Mutex<(Instant, String)>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "run" => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        "conform" => match conform::conform(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            Ok(n) => println!("{n}"),
            Err(e) => {
                println!("{e}");
                std::process::exit(1);
            }
        },
        "replay" => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let id = field(&s, "property");
            let case = field(&s, "case");
            let p = prop(&id);
            watchdog_once(Duration::from_secs(20));
            match run(&*p, &case) {
                Ok(_) => {
                    println!("property={id}: holds on this case");
                }
                Err(e) => {
                    println!("property={id}: broken on this case: {e}");
                    std::process::exit(1);
                }
            }
        }
        "case" => {
            let p = prop(&a[2]);
            println!("{:?}", run(&*p, &a[3]));
        }
        x => panic!("{x}"),
    }
}

fn watchdog_once(d: Duration) {
    std::thread::spawn(move || {
        std::thread::sleep(d);
        println!("broken on this case: does not terminate");
        std::process::exit(1);
    });
}

/// Reads a string field of a JSON object written by `js`.
fn field(s: &str, k: &str) -> String {
    let i = s.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
    let mut it = s[i..].trim_start().chars();
    assert_eq!(it.next(), Some('"'));
    let mut o = String::new();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next().unwrap() {
                'u' => {
                    let h: String = (0..4).map(|_| it.next().unwrap()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    o
}

fn found(id: &str, out: &str, case: &str, why: &str) {
    let mut f = std::fs::File::create(out).unwrap();
    writeln!(f, "{{\"property\": {}, \"case\": {}, \"why\": {}, \"replay\": \"target/release/witness replay FILE\"}}", js(id), js(case), js(why)).unwrap();
}

fn search(id: &str, seed: u64, secs: f64, threads: usize, out: &str) {
    let p: Arc<Box<dyn Prop>> = Arc::new(prop(id));
    let known = Arc::new(known(id));
    let stop = Arc::new(AtomicBool::new(false));
    let fail: Arc<Mutex<Option<(String, String)>>> = Arc::default();
    let evals = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let fixed_done = Arc::new(AtomicU64::new(0));
    let distinct: Arc<Mutex<BTreeSet<u64>>> = Arc::default();
    let samples: Arc<Mutex<Vec<String>>> = Arc::default();
    let hits: Arc<Mutex<BTreeSet<String>>> = Arc::default();
    let trace = std::env::var("WITNESS_TRACE").ok();
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs_f64(secs);
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { since: Mutex::new((Instant::now(), String::new())) })).collect();
    let mut hs = vec![];
    for t in 0..threads {
        let (p, known, stop, fail, evals, next, fixed_done, distinct, samples, hits, slot, trace) = (
            p.clone(), known.clone(), stop.clone(), fail.clone(), evals.clone(), next.clone(), fixed_done.clone(),
            distinct.clone(), samples.clone(), hits.clone(), slots[t].clone(), trace.clone(),
        );
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t as u64));
            let mut mine: HashSet<u64> = HashSet::new();
            let mut fixed = true;
            while !stop.load(SeqCst) && Instant::now() < end {
                let case = if fixed {
                    let n = next.fetch_add(1, SeqCst);
                    match p.fixed(n) {
                        Some(c) => {
                            fixed_done.fetch_add(1, SeqCst);
                            c
                        }
                        None => {
                            fixed = false;
                            continue;
                        }
                    }
                } else {
                    p.make(&mut r)
                };
                *slot.since.lock().unwrap() = (Instant::now(), case.clone());
                if let Some(f) = &trace {
                    let _ = std::fs::write(format!("{f}.{t}"), &case);
                }
                let res = run(&**p, &case);
                evals.fetch_add(1, SeqCst);
                match res {
                    Ok(true) => {
                        if mine.len() < 200_000 {
                            mine.insert(hash(&case));
                        }
                        if mine.len() % 997 == 1 {
                            let mut s = samples.lock().unwrap();
                            if s.len() < 6 {
                                s.push(case);
                            }
                        }
                    }
                    Ok(false) => {}
                    Err(e) => {
                        if known.contains(&case) {
                            hits.lock().unwrap().insert(case);
                            continue;
                        }
                        let mut f = fail.lock().unwrap();
                        let case = shrink(&**p, case, &e, &known);
                        let e = run(&**p, &case).err().unwrap_or(e);
                        if f.as_ref().map_or(true, |(c, _)| c.len() > case.len()) {
                            *f = Some((case, e));
                        }
                        stop.store(true, SeqCst);
                    }
                }
            }
            *slot.since.lock().unwrap() = (Instant::now() + Duration::from_secs(3600), String::new());
            distinct.lock().unwrap().extend(mine);
        }).unwrap());
    }
    // the watchdog: a case which takes too long does not terminate
    loop {
        std::thread::sleep(Duration::from_millis(100));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for s in &slots {
            let (t, c) = s.since.lock().unwrap().clone();
            if t.elapsed() > Duration::from_secs(15) && !c.is_empty() {
                found(id, out, &c, "does not terminate (15 s)");
                println!("{{\"failed\": true}}");
                std::process::exit(1);
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let sm: Vec<String> = samples.lock().unwrap().iter().map(|s| js(s)).collect();
    let hk: Vec<String> = hits.lock().unwrap().iter().map(|s| js(s)).collect();
    let f = fail.lock().unwrap();
    println!(
        "{{\"evaluations\": {}, \"enumerated\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"known_hit\": [{}], \"wall_s\": {:.1}, \"failed\": {}}}",
        evals.load(SeqCst),
        fixed_done.load(SeqCst),
        distinct.lock().unwrap().len(),
        js(p.rule()),
        sm.join(", "),
        hk.join(", "),
        t0.elapsed().as_secs_f64(),
        f.is_some()
    );
    if let Some((c, e)) = &*f {
        found(id, out, c, e);
        std::process::exit(1);
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Drops parts of a failing case while it keeps failing.
fn shrink(p: &dyn Prop, case: String, _why: &str, known: &HashSet<String>) -> String {
    let t0 = Instant::now();
    let mut best: Vec<char> = case.chars().collect();
    let mut step = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.len() && t0.elapsed() < Duration::from_secs(4) {
            let mut c = best.clone();
            c.drain(i..(i + step).min(c.len()));
            let s: String = c.iter().collect();
            // a malformed case is refused by `judge` with Ok(false)
            if !known.contains(&s) && matches!(run(p, &s), Err(_)) {
                best = c;
                any = true;
            } else {
                i += step;
            }
        }
        if step == 1 && !any || t0.elapsed() > Duration::from_secs(4) {
            return best.into_iter().collect();
        }
        if !any || step > best.len() {
            step = (step / 2).max(1);
        }
    }
}
