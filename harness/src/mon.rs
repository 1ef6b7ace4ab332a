//! Monitor runtime: runs workload cases, each on its own thread with its own
//! controlled entropy; collects events, verdicts and evidence.
use crate::rng::{self, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Stop {
    /// property violated: (signature key, message)
    V(String, String),
    /// the generated input is outside the property's precondition
    Skip(&'static str),
}
pub type R = Result<(), Stop>;

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub events: BTreeMap<&'static str, u64>,
    pub shapes: Vec<u64>,
    pub desc: String,
    pub maxerr: BTreeMap<&'static str, f64>,
}

impl Ctx {
    /// count observed events
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    /// record a distinct non-trivial state/shape signature
    pub fn shape(&mut self, parts: &[u64]) {
        self.shapes.push(rng::mix(parts));
    }
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    /// keep the largest normalised error actually seen by an oracle
    pub fn err(&mut self, name: &'static str, e: f64) {
        let m = self.maxerr.entry(name).or_insert(0.0);
        if !(e <= *m) {
            *m = e;
        }
    }
}

#[macro_export]
macro_rules! chk {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::mon::Stop::V($key.to_string(), format!($($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! must {
    ($e:expr, $key:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return Err($crate::mon::Stop::V($key.to_string(), format!("{} unexpectedly failed: {}", $key, e))),
        }
    };
}
#[macro_export]
macro_rules! viol {
    ($key:expr, $($arg:tt)*) => {
        return Err($crate::mon::Stop::V($key.to_string(), format!($($arg)*)))
    };
}

pub type CaseFn = fn(&mut Ctx) -> R;

pub struct Workload {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub loads: Vec<Workload>,
}

pub struct Outcome {
    pub result: Result<R, (String, String)>, // Err((message, location)) = panic
    pub ctx: Ctx,
    pub draws: u64,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        // first frame inside the code under test, for attribution
        let mut site = String::new();
        for l in bt.lines() {
            let l = l.trim();
            if l.starts_with("at ") && l.contains("/repo/src/") {
                site = l.rsplit("/repo/").next().unwrap_or("").to_string();
                break;
            }
        }
        if site.is_empty() && (loc.contains("/repo/src/")) {
            site = loc.clone();
        }
        let in_harness = site.is_empty();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, if in_harness { format!("HARNESS {loc}") } else { format!("{loc} via {site}") }));
            }
        });
    }));
}

fn exec(w: CaseFn, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Outcome {
    rng::set_entropy(rng::mix(&[seed, 0xE17]));
    let mut ctx = Ctx {
        rng: Rng::new(seed),
        seed,
        idx,
        thorough,
        verbose,
        events: BTreeMap::new(),
        shapes: vec![],
        desc: String::new(),
        maxerr: BTreeMap::new(),
    };
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w(&mut ctx)));
    let result = match r {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), "?".into()))),
    };
    ctx.err("slowest case, CPU seconds", own_cpu());
    Outcome { result, ctx, draws: rng::entropy_draws() }
}

extern "C" {
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
fn thread_cpu(t: usize) -> Option<f64> {
    unsafe {
        let mut clk = 0i32;
        if pthread_getcpuclockid(t, &mut clk) != 0 {
            return None;
        }
        let mut ts = [0i64; 2];
        if clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts[0] as f64 + ts[1] as f64 * 1e-9)
    }
}

/// CPU seconds used by the calling thread
pub fn own_cpu() -> f64 {
    unsafe {
        let mut ts = [0i64; 2];
        clock_gettime(3, &mut ts);
        ts[0] as f64 + ts[1] as f64 * 1e-9
    }
}

/// CPU seconds one case may consume before "no answer" is reported. Normal
/// cases take milliseconds to a few seconds; the slowest history seen needs 71 s.
pub const CASE_CPU: f64 = 180.0;

pub fn run_case(w: CaseFn, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Option<Outcome> {
    use std::os::unix::thread::JoinHandleExt;
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let o = exec(w, seed, idx, thorough, verbose);
            let _ = tx.send(o);
        })
        .expect("spawn");
    let t = h.as_pthread_t() as usize;
    loop {
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok(o) => {
                let _ = h.join();
                return Some(o);
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if let Some(c) = thread_cpu(t) {
                    if c > CASE_CPU {
                        std::mem::forget(h);
                        return None;
                    }
                }
            }
            Err(_) => {
                let _ = h.join();
                return None;
            }
        }
    }
}

#[derive(Default)]
struct Agg {
    evals: u64,
    skipped: BTreeMap<String, u64>,
    events: BTreeMap<String, u64>,
    per: BTreeMap<String, (u64, u64)>,
    shapes: HashSet<u64>,
    structures: HashSet<u64>,
    samples: Vec<String>,
    viol: Vec<(String, u64, u64, String, String)>, // workload, idx, seed, key, msg
    harness_err: Vec<String>,
    maxerr: BTreeMap<String, f64>,
    draws: u64,
    sched: u64,
}

pub struct Known {
    pub list: Vec<(String, String, String, String)>, // property, workload, key, what
}
impl Known {
    pub fn load(path: &str) -> Self {
        let mut list = vec![];
        if let Ok(s) = std::fs::read_to_string(path) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for e in v["known"].as_array().unwrap_or(&vec![]) {
                let g = |k: &str| e[k].as_str().unwrap_or("").to_string();
                list.push((g("property"), g("workload"), g("key"), g("what")));
            }
        }
        Known { list }
    }
    fn matches(&self, prop: &str, load: &str, key: &str) -> Option<usize> {
        self.list.iter().position(|(p, w, k, _)| p == prop && w == load && k == key)
    }
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub budget_s: f64,
    pub root: String,
    pub only: Option<String>,
    pub scale: f64,
    pub verbose: bool,
    pub threads: usize,
    pub maxviol: usize,
}

pub fn run_prop(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let known = Known::load(&format!("{}/known_findings.json", o.root));
    // interleave the workloads so that a budget cut keeps all of them represented
    let mut cases: Vec<(usize, u64)> = vec![];
    let counts: Vec<u64> = p
        .loads
        .iter()
        .map(|w| {
            if o.only.as_deref().map_or(false, |n| n != w.name) {
                return 0;
            }
            let n = if o.thorough { w.thorough } else { w.quick };
            if n == 0 { 0 } else if n == 1 { 1 } else { ((n as f64 * o.scale).ceil() as u64).max(1) }
        })
        .collect();
    let maxn = counts.iter().cloned().max().unwrap_or(0);
    for i in 0..maxn {
        for (w, n) in counts.iter().enumerate() {
            let (x, y) = (i * n / maxn, (i + 1) * n / maxn);
            if y > x {
                cases.push((w, x));
            }
        }
    }
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let slots = std::env::var("MON_SLOTS").ok();
    let mut hs = vec![];
    for tid in 0..o.threads {
        let (cases, next, stop, agg) = (cases.clone(), next.clone(), stop.clone(), agg.clone());
        let loads: Vec<(&'static str, CaseFn)> = p.loads.iter().map(|w| (w.name, w.f)).collect();
        let (seed, thorough, verbose, budget) = (o.seed, o.thorough, o.verbose, o.budget_s);
        let pid = p.id;
        let slots = slots.clone();
        let maxviol = o.maxviol;
        hs.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > budget {
                break;
            }
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= cases.len() {
                break;
            }
            let (w, idx) = cases[i];
            let (name, f) = loads[w];
            let cs = rng::mix(&[seed, rng::hash_str(pid), rng::hash_str(name), idx]);
            if let Some(dir) = &slots {
                let _ = std::fs::write(format!("{dir}/{tid}"), format!("{pid} {name} {idx} {cs}\n"));
            }
            let out = run_case(f, cs, idx, thorough, verbose);
            let mut a = agg.lock().unwrap();
            a.evals += 1;
            a.per.entry(name.to_string()).or_default().0 += 1;
            match out {
                None => a.viol.push((name.into(), idx, cs, "no-answer".into(), format!("no answer within {CASE_CPU} CPU seconds"))),
                Some(out) => {
                    for (k, v) in &out.ctx.events {
                        *a.events.entry(k.to_string()).or_insert(0) += v;
                    }
                    for (k, v) in &out.ctx.maxerr {
                        let m = a.maxerr.entry(k.to_string()).or_insert(0.0);
                        if !(*v <= *m) {
                            *m = *v;
                        }
                    }
                    a.draws += out.draws;
                    if out.draws > 0 {
                        a.sched += 1;
                    }
                    let mut skipped = false;
                    match out.result {
                        Ok(Ok(())) => {}
                        Ok(Err(Stop::Skip(why))) => {
                            skipped = true;
                            *a.skipped.entry(format!("{name}: {why}")).or_insert(0) += 1;
                            a.per.entry(name.to_string()).or_default().1 += 1;
                        }
                        Ok(Err(Stop::V(k, m))) => {
                            let d = out.ctx.desc.clone();
                            a.viol.push((name.into(), idx, cs, k, format!("{m} [{d}]")))
                        }
                        Err((m, loc)) => {
                            if loc.starts_with("HARNESS") {
                                a.harness_err.push(format!("{name}#{idx}: {m} at {loc}"));
                            } else {
                                let d = out.ctx.desc.clone();
                                let key = format!("panic at {}", loc.rsplit("/repo/").next().unwrap_or(&loc));
                                a.viol.push((name.into(), idx, cs, key, format!("panic: {m} at {loc} [{d}]")))
                            }
                        }
                    }
                    if !skipped {
                        // one signature per case; the single structures are counted apart
                        if !out.ctx.shapes.is_empty() {
                            a.shapes.insert(rng::mix(&out.ctx.shapes));
                        }
                        for s in out.ctx.shapes {
                            a.structures.insert(s);
                        }
                        if a.samples.len() < 40 && !out.ctx.desc.is_empty() && idx < 3 {
                            let mut d: String = out.ctx.desc.chars().take(300).collect();
                            d.insert_str(0, &format!("{name}#{idx}: "));
                            a.samples.push(d);
                        }
                    }
                    if verbose {
                        println!("{name}#{idx} seed={cs} {} {:?}", out.ctx.desc, out.ctx.events);
                    }
                }
            }
            let unk = a.viol.len();
            // a hanging case costs too much to look for more of them
            let hung = a.viol.iter().any(|v| v.3 == "no-answer");
            if unk >= maxviol || hung {
                stop.store(true, Ordering::Relaxed);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let a = agg.lock().unwrap();
    let mut unknown = vec![];
    let mut seen_known: BTreeMap<usize, u64> = BTreeMap::new();
    for v in &a.viol {
        match known.matches(p.id, &v.0, &v.3) {
            Some(i) => *seen_known.entry(i).or_insert(0) += 1,
            None => unknown.push(v.clone()),
        }
    }
    unknown.sort();
    // one report per (workload, key)
    let mut rep: BTreeMap<(String, String), (u64, (u64, u64, String))> = BTreeMap::new();
    for (w, idx, cs, k, m) in &unknown {
        let e = rep.entry((w.clone(), k.clone())).or_insert((0, (*idx, *cs, m.clone())));
        e.0 += 1;
    }
    for (i, n) in &seen_known {
        let k = &known.list[*i];
        println!("KNOWN-FINDING: property={} {} ({}/{}; seen {} time(s))", k.0, k.3, k.1, k.2, n);
    }
    let mut shown = 0;
    let mut vjson = vec![];
    for ((w, k), (n, (idx, cs, m))) in &rep {
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", p.id, w, cs);
        let body = json!({"property": p.id, "workload": w, "idx": idx, "case_seed": cs, "key": k, "message": m,
            "tier": if o.thorough {"thorough"} else {"quick"}, "seed": o.seed,
            "replay": format!("{}/check.sh {} --replay {}", o.root, p.id, path)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        if shown < 8 {
            println!("VIOLATION property={} replay={}", p.id, path);
            let mm: String = m.chars().take(1500).collect();
            println!("  workload={w} key={k} count={n} idx={idx}: {mm}");
        }
        vjson.push(json!({"workload": w, "key": k, "count": n, "message": m.chars().take(600).collect::<String>(), "replay": path}));
        shown += 1;
    }
    for h in a.harness_err.iter().take(5) {
        println!("HARNESS-ERROR {h}");
    }
    let skipped: u64 = a.skipped.values().sum();
    let per: BTreeMap<String, Value> = a
        .per
        .iter()
        .map(|(k, (n, s))| (k.clone(), json!({"cases": n, "skipped": s})))
        .collect();
    let planned = cases.len() as u64;
    let ev = json!({
        "property": p.id,
        "tier": if o.thorough {"thorough"} else {"quick"},
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals - skipped,
            "distinct_nontrivial": a.shapes.len(),
            "distinct_structures": a.structures.len(),
            "rule": p.rule,
            "samples": a.samples,
            "cases_run": a.evals,
            "cases_planned": planned,
            "cases_skipped_by_precondition": a.skipped,
            "workloads": per,
            "observed_events": a.events,
            "largest_normalised_errors": a.maxerr.iter().map(|(k,v)|(k.clone(), json!(format!("{v:.3e}")))).collect::<BTreeMap<_,_>>(),
            "cases_with_library_randomness": a.sched,
            "entropy_draws_by_library": a.draws,
            "harness_errors": a.harness_err.len(),
            "known_findings_seen": seen_known.values().sum::<u64>(),
            "stopped_early_by_budget": a.evals < planned,
        },
        "assumptions": [
            "f64/f32 arithmetic of the host; oracles use independent reference evaluation in f64",
            "held on the executions listed above; nothing is claimed for inputs never driven"
        ],
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": unknown.len(),
        "violation_details": vjson,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
    let mut f = std::fs::File::create(format!("{}/evidence/{}.json", o.root, p.id)).expect("evidence");
    let _ = f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes());
    println!(
        "{}: {} cases ({} skipped), {} distinct shapes, {} violations, {} harness errors, {:.1}s",
        p.id,
        a.evals,
        skipped,
        a.shapes.len(),
        unknown.len(),
        a.harness_err.len(),
        t0.elapsed().as_secs_f64()
    );
    if !unknown.is_empty() {
        return 1;
    }
    if a.evals == skipped || a.harness_err.len() as u64 * 20 > a.evals {
        println!("INCONCLUSIVE property={}: nothing (or too little) observed", p.id);
        return 2;
    }
    0
}
