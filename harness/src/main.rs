//! Bounded search for failing inputs on the real code, per property.
//!   h <property> <seed> <scale>            run all generators, JSON report on stdout
//!   h <property> <seed> case <gen> <k>     run one case and print it
mod edit;
mod load;
mod model;
mod util;
mod write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use util::*;

#[global_allocator]
static METER: Meter = Meter;

/// generators of a property: name, how many cases at scale 1 (u64::MAX: until it ends)
fn gens(p: &str) -> Vec<(&'static str, u64)> {
    const ALL: u64 = u64::MAX;
    match p {
        "C01" => vec![("lines", 40_000), ("soup", 60_000), ("mutate", 40_000), ("bytes", 20_000), ("good", 6_000), ("fail", 12_000)],
        "C02" => vec![("small", ALL), ("random", 12_000), ("lines", 40_000), ("soup", 40_000), ("mutate", 25_000)],
        "C03" => vec![("small", ALL), ("random", 40_000)],
        "C04" => vec![("small", ALL), ("random", 10_000), ("soup", 30_000), ("mutate", 25_000)],
        "C05" => vec![("small", ALL), ("random", 15_000), ("long", 150), ("counts", 30_000)],
        "C06" => vec![("plain", 30_000), ("random", 50_000)],
        "C07" => vec![("grid", ALL), ("random", 8_000)],
        "C08" | "C09" | "C10" => vec![("grid", ALL), ("random", 12_000)],
        "C11" => vec![("grid", ALL), ("random", 8_000)],
        "C12" => vec![("names", ALL), ("near", ALL), ("random", 40_000)],
        "C13" => vec![("empty", ALL), ("small", ALL), ("random", 10_000)],
        "C14" => vec![("small", ALL), ("random", 12_000)],
        "C15" => vec![("small", ALL), ("random", 15_000)],
        "C16" => vec![("short", 6_000), ("fail", 12_000), ("flush", 2_000)],
        "C18" => vec![("good", 6_000), ("soup", 15_000), ("mutate", 12_000), ("bytes", 6_000)],
        "C19" => vec![("setters", 5_000), ("effects", 6_000)],
        _ => vec![],
    }
}
fn run(p: &str, gen: &str, k: u64, seed: u64) -> Option<Case> {
    let mut r = Rng::new(seed ^ hash(p.as_bytes()) ^ hash(gen.as_bytes()), k);
    let r = &mut r;
    match p {
        "C01" => load::c01(gen, k, r),
        "C02" => load::c02(gen, k, r),
        "C03" => load::well_formed(gen, k, r, model::ATTRS),
        "C04" => load::c04(gen, k, r),
        "C05" => load::c05(gen, k, r),
        "C06" => load::c06(gen, k, r),
        "C07" => edit::c07(gen, k, r),
        "C08" | "C09" | "C10" => edit::cursor(p, gen, k, r),
        "C11" => edit::c11(gen, k, r),
        "C12" => edit::c12(gen, k, r),
        "C13" => edit::c13(gen, k, r),
        "C14" => write::c14(gen, k, r),
        "C15" => write::c15(gen, k, r),
        "C16" => write::c16(gen, k, r),
        "C18" => load::c18(gen, k, r),
        "C19" => write::c19(gen, k, r),
        _ => None,
    }
}
/// What each thread is running, and since when (milliseconds, 0: nothing).
static SLOTS: [(AtomicU64, AtomicU64); 8] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; 8];
static GEN: AtomicU64 = AtomicU64::new(0);
/// A case may take this long; they take milliseconds.
const LIMIT_MS: u64 = 60_000;
fn watchdog(p: String, seed: u64) {
    let t0 = std::time::Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        NOW.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
        for (k, since) in SLOTS.iter() {
            let (k, s) = (k.load(Relaxed), since.load(Relaxed));
            if s != 0 && t0.elapsed().as_millis() as u64 > s + LIMIT_MS {
                let g = gens(&p)[GEN.load(Relaxed) as usize].0;
                let e = format!("an operation of the library did not end within {} s on this case", LIMIT_MS / 1000);
                println!("{{\"property\":{},\"seed\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"generators\":{{{}:1}},\"failures_seen\":1,\"failures\":[{{\"gen\":{},\"k\":{},\"input\":\"(run the case to see it)\",\"error\":{}}}],\"samples\":[]}}", json(&p), seed, json(g), json(g), k, json(&e));
                std::process::exit(0);
            }
        }
    });
}
static NOW: AtomicU64 = AtomicU64::new(1);
/// generators which end by themselves
fn finite(gen: &str) -> bool { matches!(gen, "small" | "grid" | "names" | "near" | "empty" | "lines") }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let (p, seed) = (a[1].clone(), a[2].parse::<u64>().unwrap());
    if a.get(3).map(|x| x == "case") == Some(true) {
        match run(&p, &a[4], a[5].parse().unwrap(), seed) {
            None => println!("no such case"),
            Some(c) => { println!("input: {}\nresult: {}", c.input, match &c.result { Ok(()) => "holds".to_string(), Err(e) => format!("VIOLATED: {}", e) }); std::process::exit(c.result.is_err() as i32) }
        }
        return;
    }
    let scale: f64 = a.get(3).map_or(1.0, |x| x.parse().unwrap());
    let (mut total, mut nontrivial, mut fails, mut samples, mut nfail) = (0u64, 0u64, vec![], vec![], 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut per = vec![];
    watchdog(p.clone(), seed);
    for (gi, (g, n)) in gens(&p).into_iter().enumerate() {
        GEN.store(gi as u64, Relaxed);
        let n = if n == u64::MAX { n } else if finite(g) && scale > 1.0 { u64::MAX } else { (n as f64 * scale).max(1.0) as u64 };
        // the cases of a generator are split over the cores
        let stop = AtomicU64::new(u64::MAX);
        let threads = 8u64;
        let parts: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|t| { let (p, stop) = (&p, &stop); std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let (mut cnt, mut nt, mut keys, mut bad, mut smp) = (0u64, 0u64, vec![], vec![], vec![]);
                let mut k = t;
                while k < n && bad.len() < 3 {
                    if k > stop.load(Relaxed) { break }
                    SLOTS[t as usize].0.store(k, Relaxed);
                    SLOTS[t as usize].1.store(NOW.load(Relaxed), Relaxed);
                    let c = run(p, g, k, seed);
                    SLOTS[t as usize].1.store(0, Relaxed);
                    match c {
                        None => { if finite(g) { stop.fetch_min(k, Relaxed); break } }
                        Some(c) => {
                            cnt += 1;
                            if c.nontrivial { nt += 1; keys.push(c.key) }
                            if let Err(e) = c.result { bad.push((k, c.input, e)) }
                            else if smp.is_empty() && c.nontrivial && k >= threads && c.input.len() < 1500 { smp.push((k, c.input)) }
                        }
                    }
                    k += threads;
                }
                (cnt, nt, keys, bad, smp)
            }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut gtot = 0;
        let mut gb = vec![];
        for (c, _nt, keys, bad, smp) in parts {
            gtot += c;
            for k in keys { if seen.insert(k) { nontrivial += 1 } }
            nfail += bad.len() as u64;
            gb.extend(bad);
            if samples.len() < 4 { for (k, i) in smp { if samples.iter().filter(|x: &&(String, u64, String)| x.0 == g).count() < 1 { samples.push((g.to_string(), k, i)) } } }
        }
        gb.sort_by_key(|x| (x.1.len(), x.0));
        for (k, i, e) in gb.into_iter().take(2) { fails.push((g, k, i, e)) }
        total += gtot;
        per.push((g, gtot));
    }
    fails.sort_by_key(|f| f.2.len());
    let f: Vec<String> = fails.iter().map(|(g, k, i, e)| format!("{{\"gen\":{},\"k\":{},\"input\":{},\"error\":{}}}", json(g), k, json(i), json(e))).collect();
    let s: Vec<String> = samples.iter().map(|(g, k, i)| format!("{{\"gen\":{},\"k\":{},\"input\":{}}}", json(g), k, json(i))).collect();
    let pg: Vec<String> = per.iter().map(|(g, n)| format!("{}:{}", json(g), n)).collect();
    println!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"generators\":{{{}}},\"failures_seen\":{},\"failures\":[{}],\"samples\":[{}]}}", json(&p), seed, total, nontrivial, pg.join(","), nfail, f.join(","), s.join(","));
}
