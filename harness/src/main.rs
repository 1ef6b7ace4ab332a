#![allow(clippy::all)]
mod c_basic;
mod c_box;
mod c_comp;
mod c_make;
mod c_mesh;
mod c_hist;
mod c_inter;
mod c_near;
mod c_pure;
mod c_single;
mod c_bool;
mod c_misc;
mod c_tess;
mod c_trim;
mod c_region;
mod c_shape;
mod c_surf;
mod gen;
mod mon;
mod refmath;
mod rng;

use mon::*;

#[global_allocator]
static ALLOC: c_pure::Counting = c_pure::Counting;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(c_basic::props());
    v.extend(c_shape::props());
    v.extend(c_make::props());
    v.extend(c_comp::props());
    v.extend(c_surf::props());
    v.extend(c_box::props());
    v.extend(c_near::props());
    v.extend(c_mesh::props());
    v.extend(c_inter::props());
    v.extend(c_region::props());
    v.extend(c_bool::props());
    v.extend(c_trim::props());
    v.extend(c_tess::props());
    v.extend(c_misc::props());
    v.extend(c_hist::props());
    v.extend(c_pure::props());
    v.extend(c_single::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let id = get("--property").unwrap_or_default();
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = get("--root").unwrap_or("/verif".into());
    install_hook();
    let all = props();
    if args.iter().any(|a| a == "--list") {
        for p in &all {
            println!("{} {}", p.id, p.loads.iter().map(|w| format!("{}:{}/{}", w.name, w.quick, w.thorough)).collect::<Vec<_>>().join(" "));
        }
        return;
    }
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    if let Some(load) = get("--case") {
        // --case workload --idx N --cseed S : run exactly one case (replay)
        let idx: u64 = get("--idx").unwrap().parse().unwrap();
        let cs: u64 = get("--cseed").unwrap().parse().unwrap();
        let w = p.loads.iter().find(|w| w.name == load).expect("workload");
        match run_case(w.f, cs, idx, tier == "thorough", true) {
            None => {
                println!("VIOLATION property={} replay=-\n  no answer", p.id);
                std::process::exit(1)
            }
            Some(o) => {
                println!("input: {}", o.ctx.desc);
                println!("events: {:?}", o.ctx.events);
                match o.result {
                    Ok(Ok(())) => println!("held"),
                    Ok(Err(Stop::Skip(w))) => println!("skipped: {w}"),
                    Ok(Err(Stop::V(k, m))) => {
                        println!("VIOLATION property={} replay=-\n  {k}: {m}", p.id);
                        std::process::exit(1)
                    }
                    Err((m, l)) => {
                        println!("VIOLATION property={} replay=-\n  panic {m} at {l}", p.id);
                        std::process::exit(1)
                    }
                }
            }
        }
        return;
    }
    let thorough = tier == "thorough";
    let o = Opts {
        thorough,
        seed,
        budget_s: get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780.0 } else { 150.0 }),
        root,
        only: get("--only"),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        verbose: args.iter().any(|a| a == "-v"),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
        maxviol: get("--maxviol").and_then(|s| s.parse().ok()).unwrap_or(200),
    };
    let rc = run_prop(p, &o);
    std::process::exit(rc);
}
