//! C17: bvh! literals against the same text loaded as a file.  LITS names the generated literals.
//!   lits                 run all, JSON report on stdout
//!   lits case <i>        run one and print it
#![recursion_limit = "512"]
#![allow(dead_code)]
mod model;
mod util;
use bvh_anim::{bvh, Bvh};
use util::*;

#[global_allocator]
static METER: Meter = Meter;

include!(env!("LITS"));

fn one(i: usize) -> Case {
    let (f, t) = CASES[i];
    let result = guard(|| {
        let a = f();
        match Bvh::from_bytes(t) {
            Ok(_) if std::env::var_os("CHANNELS_ONLY").is_some() => model::channels_consecutive(&a),
            Ok(b) => model::same_motion(&a, &b).and_then(|_| model::channels_consecutive(&a)),
            Err(e) => Err(format!("the text does not load: {:?}", e)),
        }
    }).and_then(|x| x);
    Case { input: show(t.as_bytes()), nontrivial: t.matches("JOINT").count() > 0 || t.contains("Frames: 2"), key: hash(t.as_bytes()), result }
}
fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "case") == Some(true) {
        let c = one(a[2].parse().unwrap());
        println!("input: {}\nresult: {}", c.input, match &c.result { Ok(()) => "holds".to_string(), Err(e) => format!("VIOLATED: {}", e) });
        std::process::exit(c.result.is_err() as i32);
    }
    let (mut fails, mut nt) = (vec![], std::collections::HashSet::new());
    let mut sample = String::new();
    for i in 0..CASES.len() {
        let c = one(i);
        if c.nontrivial { nt.insert(c.key); }
        match c.result {
            Err(e) => fails.push((i, c.input, e)),
            Ok(()) => if c.nontrivial && i > 30 && sample.is_empty() { sample = format!("{{\"gen\":\"literal\",\"k\":{},\"input\":{}}}", i, json(&c.input)) },
        }
    }
    let n = fails.len();
    fails.sort_by_key(|x| x.1.len());
    let f: Vec<String> = fails.iter().take(4).map(|(i, t, e)| format!("{{\"gen\":\"literal\",\"k\":{},\"input\":{},\"error\":{}}}", i, json(t), json(e))).collect();
    println!("{{\"property\":\"C17\",\"evaluations\":{},\"distinct_nontrivial\":{},\"generators\":{{\"literal\":{}}},\"failures_seen\":{},\"failures\":[{}],\"samples\":[{}]}}", CASES.len(), nt.len(), CASES.len(), n, f.join(","), sample);
}
