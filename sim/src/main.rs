//! Deterministic simulation of the document library: see ../../DESIGN.md.
#![feature(thread_local, const_btree_new)]
#![allow(dead_code)]
mod alloc;
mod exec;
mod model;
mod plan;
mod rt;
mod schema;
mod ser;
mod shim;
mod sup;
mod sys;
mod tsan;
mod vfs;
use ser::*;
use std::collections::BTreeMap;
use sup::*;
use sys::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn fix_addresses() {
    // same addresses in every process: nothing should depend on them, but a
    // replay must not differ because something does
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut v: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            v.push(std::ptr::null());
            libc::execv(b"/proc/self/exe\0".as_ptr() as *const _, v.as_ptr());
        }
    }
}
fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().collect();
    let mut o: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 2;
    while i + 1 < a.len() {
        o.insert(a[i].trim_start_matches('-').to_string(), a[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or(d.to_string());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&get),
        Some("replay") => replay(&get("file", ""), get("log", "0") == "1"),
        Some("run") => {
            let p = get("prop", "C01");
            let idx: u64 = get("idx", "0").parse().unwrap();
            let seed = if o.contains_key("planseed") { get("planseed", "").parse().unwrap() } else { run_seed(get("seed", "1").parse().unwrap(), idx) };
            let plan = plan::gen_plan(&p, seed);
            let r = run_plan(&plan, None, true);
            if get("plan", "0") == "1" {
                for l in render(&plan, &None) {
                    println!("{}", l);
                }
            }
            if get("log", "0") == "1" {
                for l in &r.log {
                    println!("{}", l);
                }
            }
            println!("{:?} harness={:?} points={} hash={:x} disk={:x} cnt={:?}", r.viol, r.harness, r.points, r.hash, r.disk, r.cnt);
        }
        _ => {
            eprintln!("usage: dochy_sim check|replay|run --key value ...");
            std::process::exit(2);
        }
    }
}
fn replay(file: &str, log: bool) {
    let f = read_replay(file);
    let o = run_plan(&f.plan, f.traces.as_deref(), true);
    if log {
        for l in &o.log {
            println!("{}", l);
        }
    }
    match o.viol {
        Some((k, d)) => {
            println!("{}: {}", k, d);
            println!("history {:016x} ({})", o.hash, if o.hash == f.hash { "identical to the recorded one" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={}", f.plan.prop, file);
            std::process::exit(1);
        }
        None => {
            println!("no violation: the run completes (recorded: {})", f.kind);
            std::process::exit(if o.harness.is_some() { 2 } else { 0 });
        }
    }
}
fn check(get: &dyn Fn(&str, &str) -> String) {
    let t0 = real_now();
    let prop = get("prop", "C01");
    let tier = get("tier", "quick");
    let seed: u64 = get("seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("secs", "40").parse().unwrap();
    let min_secs: f64 = get("minsecs", "60").parse().unwrap();
    let jobs: usize = get("jobs", "8").parse().unwrap();
    let max_runs: u64 = get("runs", "1000000000").parse().unwrap();
    let all = get("all", "0") == "1";
    let known = read_known(&get("known", ""));
    let ws = search(&prop, seed, secs, jobs, max_runs, !all, &known);
    let (t, ilvs, disks, nontrivial) = total(&ws);
    let search_s = real_now() - t0;
    if let Some(h) = &t.harness {
        eprintln!("harness problem: {}", h);
        std::process::exit(2);
    }
    // one seed, one execution: run some seeds again, from another process history
    let mut again = 0u64;
    let mut differ = 0u64;
    if t.viols.is_empty() {
        for idx in 0..6u64.min(t.runs) {
            let p = plan::gen_plan(&prop, run_seed(seed, idx));
            let a = run_plan(&p, None, false);
            let b = run_plan(&p, Some(&a.traces), false);
            again += 1;
            if !ws.iter().any(|w| w.nontrivial.contains(&a.hash)) && ws.iter().any(|w| w.runs > idx / jobs as u64) && a.traces.iter().any(|t| t.len() > 0) && a.points > 0 && judged(&a) {
                differ += 1;
            }
            if a.hash != b.hash {
                differ += 1;
            }
        }
    }
    for (k, n) in &t.known.m {
        let n_: usize = k.parse().unwrap();
        let f = &known[n_];
        let _ = n;
        println!("KNOWN-FINDING: property={} {}: {}", f.prop, f.kind, f.what);
    }
    if all {
        let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for (i, k, d) in &t.viols {
            let key: String = format!("{}: {}", k, d.chars().filter(|c| !c.is_ascii_digit()).take(70).collect::<String>());
            let e = m.entry(key).or_insert((0, *i, d.clone()));
            e.0 += 1;
        }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, (n, i, d)) in v.iter().take(40) {
            println!("{:6} first idx {:6} {}\n        {}", n, i, k, d);
        }
        println!("{} runs, {} violations, {:.1} runs/s, longest {} ms, {} points/run, differ {}", t.runs, t.viols.len(), t.runs as f64 / search_s, t.longest, t.points / t.runs.max(1), differ);
        println!("{:?}", t.cnt.m);
        return;
    }
    let mut code = 0;
    if let Some((idx, kind, detail)) = t.viols.first().cloned() {
        code = 1;
        eprintln!("run {} (seed {}): {}: {}", idx, run_seed(seed, idx), kind, detail);
        let p = plan::gen_plan(&prop, run_seed(seed, idx));
        let mut m = Min { plan: p.clone(), traces: None, kind: kind.clone(), prop: prop.clone(), known: known.clone(), deadline: real_now() + min_secs, tried: 0 };
        pin(0);
        m.run();
        let o = run_plan(&m.plan, m.traces.as_deref(), true);
        let dir = get("replays", "/verif/evidence/replay");
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{}/{}-{}.json", dir, prop, seed);
        let (k, d) = o.viol.clone().unwrap_or((kind.clone(), detail.clone()));
        let f = ReplayFile { plan: m.plan.clone(), traces: m.traces.clone(), kind: k.clone(), detail: d.clone(), hash: o.hash };
        write_replay(&path, &f, &o.log);
        let f = read_replay(&path);
        let o2 = run_plan(&f.plan, f.traces.as_deref(), false);
        let ops: usize = m.plan.incs.iter().map(|i| i.ops.len()).sum();
        let dec: usize = m.traces.as_ref().map_or(0, |t| t.iter().map(|t| t.len()).sum());
        eprintln!("minimised in {} runs to {} incarnations, {} operations, {} scheduling decisions; replay {}", m.tried, m.plan.incs.len(), ops, dec, if o2.viol.is_some() && o2.hash == o.hash { "reproduces it exactly" } else { "DIFFERS" });
        println!("{}: {}", k, d);
        println!("VIOLATION property={} replay={}", prop, path);
    }
    let wall = real_now() - t0;
    let ev = get("evidence", "");
    if !ev.is_empty() {
        let mut faults = BTreeMap::new();
        let mut other = BTreeMap::new();
        for (k, v) in &t.cnt.m {
            if let Some(f) = k.strip_prefix("fault.") {
                faults.insert(f.to_string(), *v);
            } else {
                other.insert(k.clone(), *v);
            }
        }
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
        let mut s = String::from("{\n");
        s += &format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"wall_s\": {:.1}, \"violations\": {},\n", jstr(&prop), jstr(&tier), seed, wall, t.viols.len());
        s += " \"coverage\": {\n";
        s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.runs, nontrivial);
        s += "  \"rule\": \"One evaluation is one simulated run: source schema, options, operations, faults and scheduling policy are drawn from the run's seed; every incarnation is a fresh process. Non-trivial: at least one save, load, listing or source read was judged and there was at least one context switch or injected fault. Distinct: different hash over all events (calls, scheduling decisions, results) and the final disk.\",\n";
        s += &format!("  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.1},\n  \"scheduling_points\": {},\n  \"scheduling_decisions\": {},\n  \"incarnations\": {},\n  \"incarnations_ended_by_crash\": {},\n  \"operations_planned\": {},\n", t.runs as f64 / search_s * 3600.0, t.simtime as f64 * 1e-9, t.points, t.switches, t.incs, t.crashes, t.ops);
        s += &format!("  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence of (thread switched from, thread switched to, point) over a run\",\n  \"distinct_disk_histories\": {},\n", ilvs, disks);
        s += &format!("  \"faults_injected\": {},\n  \"work_judged\": {},\n", map(&faults), map(&other));
        s += &format!("  \"seeds_run_twice\": {},\n  \"seeds_run_twice_differing\": {},\n", again, differ);
        s += "  \"real_code\": [\"dochy_fs\", \"dochy_core\", \"dochy_diff\", \"dochy_archiver2\", \"dochy_compaction\", \"dochy_json5\", \"rayon\", \"crossbeam\", \"std\"],\n  \"stubs\": [\"file system below /sim (in memory)\", \"clocks\", \"thread scheduler (one thread at a time)\", \"getrandom\"],\n";
        s += &format!("  \"samples\": [{}]\n }},\n", t.samples.iter().take(3).map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
        s += " \"assumptions\": [\"a crash loses no completed write (process kill, not power loss)\", \"atomics are explored under sequential consistency\", \"preemption happens at system calls, lock and atomic operations\"]\n}\n";
        if let Some(d) = std::path::Path::new(&ev).parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&ev, s).unwrap();
    }
    eprintln!("{}: {} runs, {:.0} runs/s, {} distinct, {} violation(s), {:.1} s", prop, t.runs, t.runs as f64 / search_s, nontrivial, t.viols.len(), wall);
    let _ = 0u8.to_bytes();
    std::process::exit(code);
}
fn judged(o: &RunOut) -> bool {
    ["history_saves", "history_loads", "file_saves", "file_loads", "listings", "source_reads"].iter().any(|k| o.cnt.m.contains_key(*k))
}
