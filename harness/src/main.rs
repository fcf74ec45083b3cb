//! Runs the real code against an independent RFC 9497 oracle on generated cases, and replays one case.
//! `vx-harness --props C01,C02 --seed 1 --scale 1 --lits FILE --out OUT.json [--only suite/check/index]`
mod suites;
mod tape;
mod toy;
use rand_core::RngCore;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use tape::Tape;

#[derive(Default)]
pub struct Lits { pub ints: Vec<u64>, pub bytes: Vec<Vec<u8>> }
pub struct Ctx { pub t: Tape, pub idx: u64, pub lits: &'static Lits, pub fails: Vec<(&'static str, String)>, pub evals: BTreeMap<&'static str, u64>, pub input: Vec<(String, String)>, pub key: Vec<u8>, pub modes: u8, pub ptags: Option<&'static str> }
impl Ctx {
    pub fn rec(&mut self, name: &str, b: &[u8]) {
        let h: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect();
        self.key.extend_from_slice(&b[..b.len().min(64)]);
        self.key.extend_from_slice(&b.len().to_be_bytes());
        self.input.push((name.into(), if b.len() > 64 { format!("{h}... ({} bytes)", b.len()) } else { h }));
    }
    pub fn note(&mut self, s: String) { self.key.extend_from_slice(s.as_bytes()); self.input.push(("case".into(), s)); }
    /// an input, info, seed or message: structured lengths and contents, and the source's own literals
    pub fn g_bytes(&mut self) -> Vec<u8> {
        let ls = self.lits;
        let r = self.t.below(20);
        if r < 4 && !ls.bytes.is_empty() {
            let mut v = ls.bytes[self.t.below(ls.bytes.len())].clone();
            match self.t.below(4) { 0 => {} 1 => { let n = self.t.below(20); v.extend(self.t.bytes(n)); } 2 => { let n = self.t.below(20); let mut w = self.t.bytes(n); w.extend(&v); v = w; } _ => { let n = 1 + self.t.below(40); let b = v.first().copied().unwrap_or(0); v = vec![b; n]; } }
            return v;
        }
        if r < 7 && !ls.ints.is_empty() {
            let x = ls.ints[self.t.below(ls.ints.len())];
            match self.t.below(4) {
                0 if x <= 5000 => { let n = (x as usize + self.t.below(3)).saturating_sub(1); return self.t.bytes(n); }
                1 => { let mut v = vec![x as u8]; let n = self.t.below(20); v.extend(self.t.bytes(n)); return v; }
                2 => { let n = self.t.below(20); let mut v = self.t.bytes(n); v.push(x as u8); return v; }
                _ => { let n = 1 + self.t.below(40); return vec![x as u8; n]; }
            }
        }
        const L: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024];
        let n = if r == 19 { self.t.below(4096) } else { L[self.t.below(L.len())] };
        match self.t.below(8) { 0 => vec![0; n], 1 => vec![0xff; n], 2 => { let mut v = b"IDENT".to_vec(); v.extend(self.t.bytes(n.min(20))); v } _ => self.t.bytes(n) }
    }
}
#[macro_export]
macro_rules! ck { ($c:expr, $tags:expr, $cond:expr, $($a:tt)*) => { { let ok = $cond; *$c.evals.entry($tags).or_insert(0) += 1; if !ok { let m = format!($($a)*); $c.fails.push(($tags, m)); } } } }

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let v: Vec<String> = std::env::args().skip(1).collect();
    for p in v.chunks(2) { a.insert(p[0].clone(), p.get(1).cloned().unwrap_or_default()); }
    let seed: u64 = a.get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let scale: u64 = a.get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1);
    let props: Option<HashSet<String>> = a.get("--props").map(|x| x.split(',').map(|s| s.to_string()).collect());
    let only: Option<Vec<String>> = a.get("--only").map(|x| x.split('/').map(|s| s.to_string()).collect());
    let mut lits = Lits::default();
    if let Some(f) = a.get("--lits") {
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(f).unwrap_or_default()) {
            lits.ints = j["ints"].as_array().map(|x| x.iter().filter_map(|y| y.as_u64()).collect()).unwrap_or_default();
            lits.bytes = j["bytes"].as_array().map(|x| x.iter().filter_map(|y| y.as_array().map(|z| z.iter().filter_map(|b| b.as_u64()).map(|b| b as u8).collect())).collect()).unwrap_or_default();
        }
    }
    let lits: &'static Lits = Box::leak(Box::new(lits));
    type C = (&'static str, &'static str, u64, u64, fn(&mut Ctx));
    let suites: Vec<(&'static str, bool, &'static [C])> = vec![
        (suites::toy::NAME, true, suites::toy::CHECKS), (suites::ristretto::NAME, false, suites::ristretto::CHECKS), (suites::p_256::NAME, false, suites::p_256::CHECKS),
        (suites::p_384::NAME, false, suites::p_384::CHECKS), (suites::p_521::NAME, false, suites::p_521::CHECKS),
    ];
    let mut jobs: Vec<(&'static str, C, u64)> = vec![];
    let mut heavy = vec![];
    for (s, toy, cs) in &suites { for ck in cs.iter() {
        // a check matters if an assertion of it may: which properties it can speak about is known only by running it
        if let Some(o) = &only { if o[0] != *s || o[1] != ck.0 { continue; } }
        let n = if let Some(o) = &only { o[2].parse::<u64>().unwrap_or(0) + 1 } else {
            let base = if *toy { ck.3 } else { ck.2 };
            // the slow curves get fewer cases
            let base = if *s == "P521" || *s == "P384" { (base + 1) / 2 } else { base };
            if ck.0 == "huge" { if scale == 0 { 0 } else { base } } else if ck.0 == "len" { base.min(28 + 3 * lits.ints.len() as u64) } else { base * scale }
        };
        let from = if only.is_some() { n.saturating_sub(1) } else { 0 };
        for i in from..n { if ck.0 == "huge" { heavy.push((*s, *ck, i)) } else { jobs.push((*s, *ck, i)) } }
    } }
    heavy.extend(jobs);
    let jobs = heavy;
    std::panic::set_hook(Box::new(|_| {}));
    let next = AtomicUsize::new(0);
    struct Acc { fails: Vec<serde_json::Value>, evals: BTreeMap<String, u64>, cases: u64, keys: HashSet<Vec<u8>>, samples: Vec<serde_json::Value> }
    let started: Mutex<std::collections::HashMap<usize, std::time::Instant>> = Mutex::new(Default::default());
    let acc = Mutex::new(Acc { fails: vec![], evals: BTreeMap::new(), cases: 0, keys: HashSet::new(), samples: vec![] });
    let finished = std::sync::atomic::AtomicBool::new(false);
    let limit = std::time::Duration::from_secs(120);
    let report = |a: &Acc| {
        let out = serde_json::json!({"cases": a.cases, "distinct": a.keys.len(), "assertions": a.evals, "failures": a.fails, "samples": a.samples});
        if let Some(o) = a_out(&v) { std::fs::write(o, serde_json::to_string_pretty(&out).unwrap()).unwrap(); } else { println!("{}", serde_json::to_string_pretty(&out).unwrap()); }
        std::process::exit(if a.fails.is_empty() { 0 } else { 1 });
    };
    std::thread::scope(|sc| {
        // a call that never returns is reported, with the case that makes it hang
        let (started, finished, jobs, acc, report, next, props) = (&started, &finished, &jobs, &acc, &report, &next, &props);
        sc.spawn(move || while !finished.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let hung: Vec<usize> = started.lock().unwrap().iter().filter(|x| x.1.elapsed() > limit).map(|x| *x.0).collect();
            if hung.is_empty() { continue; }
            let mut a = acc.lock().unwrap();
            for i in hung {
                let (s, ck, idx) = &jobs[i];
                let tags: Vec<&str> = ck.1.split(',').collect();
                if props.as_ref().map_or(true, |p| tags.iter().any(|t| p.contains(*t))) {
                    a.fails.push(serde_json::json!({"properties": tags, "suite": s, "check": ck.0, "index": idx, "seed": seed, "message": format!("does not return within {} s", limit.as_secs()), "input": []}));
                }
            }
            report(&a);
        });
        let mut hs = vec![];
        for _ in 0..std::thread::available_parallelism().map_or(4, |x| x.get()) {
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let Some((s, ck, idx)) = jobs.get(i) else { break };
                started.lock().unwrap().insert(i, std::time::Instant::now());
                let mut c = Ctx { t: Tape::new(&format!("{s}/{}", ck.0), seed, *idx), idx: *idx, lits, fails: vec![], evals: BTreeMap::new(), input: vec![], key: vec![], modes: 0, ptags: None };
                toy::LOG.with(|l| l.borrow_mut().clear());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ck.4)(&mut c)));
                if let Err(e) = r {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    c.fails.push((c.ptags.unwrap_or(ck.1), format!("panic: {m}")));
                } else if *s == suites::toy::NAME {
                    if c.modes == 0 { c.modes = 7; }
                    *c.evals.entry("C07").or_insert(0) += 1;
                    if let Some(m) = toy::bad_tag(c.modes) { c.fails.push(("C07", m)); }
                }
                started.lock().unwrap().remove(&i);
                let mut a = acc.lock().unwrap();
                a.cases += 1;
                for (t, n) in &c.evals { for p in t.split(',') { *a.evals.entry(p.to_string()).or_insert(0) += n; } }
                let mut key = format!("{s}/{}/", ck.0).into_bytes();
                if c.key.is_empty() { key.extend(c.t.next_u64().to_be_bytes()) } else { key.extend(&c.key) }
                let fresh = a.keys.insert(key);
                if fresh && a.samples.len() < 6 && idx % 5 == 3 && !c.input.is_empty() { a.samples.push(serde_json::json!({"case": format!("{s}/{}/{idx}", ck.0), "input": c.input})); }
                for (t, m) in c.fails {
                    let tags: Vec<&str> = t.split(',').collect();
                    if props.as_ref().map_or(true, |p| tags.iter().any(|t| p.contains(*t))) && a.fails.len() < 200 {
                        let m: String = m.chars().take(600).collect();
                        a.fails.push(serde_json::json!({"properties": tags, "suite": s, "check": ck.0, "index": idx, "seed": seed, "message": m, "input": c.input}));
                    }
                }
            }).unwrap());
        }
        for h in hs { let _ = h.join(); }
        finished.store(true, Ordering::Relaxed);
    });
    report(&acc.lock().unwrap());
}
fn a_out(v: &[String]) -> Option<String> { v.iter().position(|x| x == "--out").and_then(|i| v.get(i + 1).cloned()) }
