//! vsim: deterministic simulation of visqol-rs under a seeded plan of disturbances.
//!
//!   vsim check <property> [--tier quick|thorough] [--runs N] [--workers N]
//!   vsim replay <file>
//!   vsim one <property> <index>          one run, in detail
//!   vsim determinism [--runs N]          every kind of run twice, at two worker counts

mod audio;
mod checks_cli;
mod checks_lib;
mod child;
mod cli;
mod gen;
mod plan;
mod rng;
mod sim;
mod world;

use child::Scratch;
use plan::*;
use rng::{hash, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;

struct Prop {
    id: &'static str,
    /// Runs in the quick / thorough tier, and the wall clock limit in seconds.
    quick: (u64, u64),
    thorough: (u64, u64),
    /// Per cent of the runs that invoke the command line tool (the rest call the library).
    cli: usize,
    level: &'static str,
    rule: &'static str,
}
const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: (800, 300), thorough: (20000, 780), cli: 0, level: "exploration", rule: "a run is a seeded history of constructions, comparisons (from files and from memory), failed comparisons, file replacements and signal edits on 1-3 evaluators; non-trivial when at least two calls answered and one gave a score; distinct = distinct sequences of (operation, evaluator, answer)" },
    Prop { id: "C02", quick: (420, 300), thorough: (10000, 780), cli: 0, level: "exploration", rule: "a run is 2-4 caller threads with their own evaluators under one seeded schedule, switching at basic blocks of the library, accesses to statics, heap allocations, file operations, futexes and thread starts; non-trivial when threads were interleaved more than twice each; distinct = distinct interleavings (fingerprint of all switch points)" },
    Prop { id: "C03", quick: (420, 300), thorough: (10500, 780), cli: 0, level: "fault_enumeration", rule: "a run injects 3-4 failures into every (or up to 24) open/read/seek operation of one comparison and truncates each recording at several lengths; non-trivial when a fault that must be reported fired; distinct = (operation, position, errno) and (file, length) actually hit" },
    Prop { id: "C04", quick: (1100, 300), thorough: (27500, 780), cli: 45, level: "exploration", rule: "a run repeats comparisons or an invocation under one seeded pattern of transfer sizes, interruptions, clock, random numbers, heap contents, environment and file metadata; non-trivial when at least one transfer was split or interrupted and an answer was compared; distinct = distinct sequences of (operation, bytes transferred)" },
    Prop { id: "C05", quick: (12000, 300), thorough: (300000, 780), cli: 0, level: "exploration", rule: "a run compares a generated pair of recordings after seeded storage damage in both modes; non-trivial when a comparison answered; distinct = distinct answers (score bits or error text)" },
    Prop { id: "C06", quick: (5500, 300), thorough: (137500, 780), cli: 0, level: "exploration", rule: "as C05 with milder damage so that most comparisons give a result; non-trivial when a result was examined; distinct = distinct answers (score bits or error text)" },
    Prop { id: "C07", quick: (1000, 300), thorough: (25000, 780), cli: 30, level: "exploration", rule: "a run replaces recordings atomically between the operations of running comparisons; non-trivial when a replacement landed inside a comparison; distinct = distinct placements (sequence of file operations and replacements)" },
    Prop { id: "C08", quick: (2600, 300), thorough: (65000, 780), cli: 50, level: "exploration", rule: "a run watches every operation of a disturbed history or invocation and compares the file tree before and after; non-trivial when a comparison succeeded or a fault fired; distinct = distinct sequences of (operation, file, disturbance)" },
    Prop { id: "C09", quick: (260, 300), thorough: (6500, 780), cli: 0, level: "exploration", rule: "a run repeats one round of successful and failing comparisons 16 times and watches descriptors, threads and the bytes the library keeps; non-trivial when at least 5 comparisons succeeded; distinct = distinct (operation counts, memory) histories" },
    Prop { id: "C10", quick: (1500, 300), thorough: (37500, 780), cli: 100, level: "fault_enumeration", rule: "a run invokes the tool once or twice with failures at chosen operations on inputs, list, model, results file, debug file and standard output; non-trivial when a fault fired or a complete report was verified; distinct = (operation, file, position, result) of fired faults and (pairs, outputs, status) of invocations" },
    Prop { id: "C11", quick: (1000, 300), thorough: (25000, 780), cli: 100, level: "exploration", rule: "a run is one batch of up to 19 rows compared with its rows alone and with the library; non-trivial from two rows on; distinct = distinct sequences of rows" },
    Prop { id: "C12", quick: (2600, 300), thorough: (65000, 780), cli: 100, level: "fault_enumeration", rule: "a run is an invocation that cannot succeed (bad row, list or model, failing operation, kill before the comparisons are done); non-trivial when that is what happened; distinct = (cause, rows, operations performed)" },
    Prop { id: "C13", quick: (1200, 300), thorough: (30000, 780), cli: 100, level: "fault_enumeration", rule: "a run is 2-5 invocations appending to one debug file under write errors, full disk, torn writes and kills; non-trivial when a fault fired before the last invocation; distinct = (operation, position, result) of fired faults and histories of (status, size)" },
    Prop { id: "C14", quick: (640, 300), thorough: (16000, 780), cli: 100, level: "fault_enumeration", rule: "a run is 1-4 invocations writing one results file with previous content under write errors, full disk, torn writes and kills; non-trivial when there was previous content or a fault fired; distinct = (operation, position, result) of fired faults and histories of (status, content)" },
    Prop { id: "C15", quick: (1800, 300), thorough: (45000, 780), cli: 100, level: "exploration", rule: "a run is 2-4 concurrent invocations whose every file operation is scheduled by the seed; non-trivial when they were interleaved; distinct = distinct schedules" },
    Prop { id: "C16", quick: (3600, 300), thorough: (90000, 780), cli: 50, level: "fault_enumeration", rule: "a run loads the quality model with failures at chosen operations or with lost headers, vectors or tail; non-trivial when the model was incomplete; distinct = (operation, errno, position) and distinct damages" },
];
fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("vsim: no property {id}");
        std::process::exit(2)
    })
}

fn make(p: &Prop, i: u64, w: &Wk) -> Plan {
    use checks_cli as c;
    use checks_lib as l;
    let mut r = Rng::from(&[w.seed, hash(p.id.as_bytes()), i]);
    let tool = r.chance(p.cli);
    let r = &mut r;
    match (p.id, tool) {
        ("C01", _) => l::c01_gen(r, w),
        ("C02", _) => l::c02_gen(r, w),
        ("C03", _) => l::c03_gen(r, w),
        ("C04", false) => l::c04_gen(r, w),
        ("C04", true) => c::c04_gen(r, w),
        ("C05", _) => l::damage_gen(r, w, false),
        ("C06", _) => {
            let mild = r.chance(75);
            l::damage_gen(r, w, mild)
        }
        ("C07", false) => l::c07_gen(r, w),
        ("C07", true) => c::c07_gen(r, w),
        ("C08", false) => l::c08_gen(r, w),
        ("C08", true) => c::c08_gen(r, w),
        ("C09", _) => l::c09_gen(r, w),
        ("C10", _) => c::c10_gen(r, w),
        ("C11", _) => c::c11_gen(r, w),
        ("C12", _) => c::c12_gen(r, w),
        ("C13", _) => c::c13_gen(r, w),
        ("C14", _) => c::c14_gen(r, w),
        ("C15", _) => c::c15_gen(r, w),
        ("C16", false) => l::c16_gen(r, w),
        ("C16", true) => c::c16_gen(r, w),
        _ => unreachable!(),
    }
}
/// The verdict, and the plan with its schedule written out.
fn judge(id: &str, plan: &Plan, w: &Wk) -> (RunOut, Plan) {
    use checks_cli as c;
    use checks_lib as l;
    let mut full = plan.clone();
    let o = match plan {
        Plan::Lib(p) => match id {
            "C01" => l::c01_judge(p, w),
            "C03" => l::c03_judge(p, w),
            "C04" => l::c04_judge(p, w),
            "C05" => l::c05_judge(p, w),
            "C06" => l::c06_judge(p, w),
            "C07" => l::c07_judge(p, w),
            "C08" => l::c08_judge(p, w),
            "C09" => l::c09_judge(p, w),
            "C16" => l::c16_judge(p, w),
            _ => unreachable!(),
        },
        Plan::Thr(p) => {
            let (o, sw) = l::c02_judge(p, w);
            if let Plan::Thr(f) = &mut full {
                f.switches.get_or_insert(sw);
            }
            o
        }
        Plan::Cli(p) => match id {
            "C04" => c::c04_judge(p, w),
            "C07" => c::c07_judge(p, w),
            "C08" => c::c08_judge(p, w),
            "C10" => c::c10_judge(p, w),
            "C11" => c::c11_judge(p, w),
            "C12" => c::c12_judge(p, w),
            "C13" => c::c13_judge(p, w),
            "C14" => c::c14_judge(p, w),
            "C15" => {
                let (o, ch) = c::c15_judge(p, w);
                if let Plan::Cli(f) = &mut full {
                    f.choices.get_or_insert(ch);
                }
                o
            }
            "C16" => c::c16_judge(p, w),
            _ => unreachable!(),
        },
    };
    (o, full)
}

#[derive(Serialize, Deserialize, Default)]
struct Part {
    runs: u64,
    nontrivial: u64,
    stats: BTreeMap<String, u64>,
    reached: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    samples: Vec<serde_json::Value>,
    viol: Option<(u64, Plan, Viol)>,
    repeated: u64,
    differed: Vec<u64>,
    known: BTreeMap<String, u64>,
    prints: Vec<(u64, u64)>,
}
#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    seed: u64,
    index: u64,
    thorough: bool,
    violation: Viol,
    minimised: bool,
    plan: Plan,
}

fn scratch_root() -> String {
    let room = |d: &str| unsafe {
        let c = std::ffi::CString::new(d).unwrap();
        let mut s: libc::statvfs = std::mem::zeroed();
        if libc::statvfs(c.as_ptr(), &mut s) == 0 && libc::access(c.as_ptr(), libc::W_OK) == 0 {
            s.f_bavail as u64 * s.f_frsize as u64
        } else {
            0
        }
    };
    let base = if room("/dev/shm") > 1 << 30 { "/dev/shm" } else { "/tmp" };
    // what killed runs left behind
    if let Ok(rd) = std::fs::read_dir(base) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("vsim.").and_then(|x| x.parse::<u32>().ok()) {
                if !std::path::Path::new(&format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(format!("{base}/{n}"));
                }
            }
        }
    }
    format!("{base}/vsim.{:07}", std::process::id() % 10_000_000)
}
fn worker(root: &str, k: usize, seed: u64, thorough: bool) -> Wk {
    let cache = format!("{root}/cache");
    std::fs::create_dir_all(&cache).expect("scratch");
    Wk { scratch: Scratch::new(&format!("{root}/w{k:02}")), cache, oracle_runs: std::cell::Cell::new(0), seed, thorough }
}

/// Known defects that are recorded instead of repaired: (property, text to match, description).
fn known() -> Vec<(String, String, String)> {
    let dir = verif_dir();
    std::fs::read_to_string(format!("{dir}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("match=\"")?;
            let (m, d) = rest.split_once("\" ")?;
            Some((id.into(), m.into(), d.into()))
        })
        .collect()
}
fn verif_dir() -> String { std::env::var("VSIM_DIR").unwrap_or_else(|_| "/verif".into()) }

fn run_part(p: &Prop, k: usize, n: usize, w: &Wk, runs: u64, until: Instant, stop: &std::sync::atomic::AtomicU64, prints: bool) -> Part {
    use std::sync::atomic::Ordering::Relaxed;
    let mut part = Part::default();
    let known: Vec<_> = known().into_iter().filter(|x| x.0 == p.id).collect();
    let mut i = k as u64;
    while i < runs && Instant::now() < until && i <= stop.load(Relaxed) {
        let plan = make(p, i, w);
        let (o, full) = judge(p.id, &plan, w);
        part.runs += 1;
        part.nontrivial += o.nontrivial as u64;
        for (s, v) in &o.stats {
            *part.stats.entry(s.clone()).or_default() += v;
        }
        if o.nontrivial {
            part.reached.extend(&o.reached);
            part.distinct.insert(o.print);
            if part.samples.len() < 1 {
                let mut t = serde_json::to_value(&plan).unwrap();
                shorten(&mut t, 0);
                part.samples.push(serde_json::json!({"index": i, "plan": t, "outcome": o.viol.as_ref().map_or("held".to_string(), |v| v.class.clone()), "observed": o.stats}));
            }
        }
        if prints {
            if let (Ok(d), Ok(dd)) = (std::env::var("VSIM_DUMP"), std::env::var("VSIM_DUMPS")) {
                let _ = std::fs::rename(&d, format!("{dd}/{n}-{i}"));
            }
            part.prints.push((i, o.print));
        }
        // the same plan again must give the same run
        if part.repeated < 2 && i >= n as u64 && o.viol.is_none() {
            let (o2, _) = judge(p.id, &plan, w);
            part.repeated += 1;
            if o2.print != o.print {
                part.differed.push(i);
            }
        }
        if let Some(v) = o.viol {
            match known.iter().find(|x| v.class.contains(&x.1) || v.detail.contains(&x.1)) {
                Some(x) => *part.known.entry(x.2.clone()).or_default() += 1,
                None => {
                    stop.fetch_min(i, Relaxed);
                    part.viol = Some((i, full, v));
                    break;
                }
            }
        }
        i += n as u64;
    }
    part.stats.insert("sim.oracle_runs".into(), w.oracle_runs.get());
    part
}
/// Keeps evidence files readable.
fn shorten(v: &mut serde_json::Value, depth: usize) {
    match v {
        serde_json::Value::Array(a) => {
            if a.len() > 12 {
                let n = a.len() - 12;
                a.truncate(12);
                a.push(serde_json::json!(format!("... {n} more")));
            }
            a.iter_mut().for_each(|x| shorten(x, depth + 1));
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(|x| shorten(x, depth + 1)),
        serde_json::Value::String(s) if s.len() > 160 => {
            *s = format!("{}... ({} characters)", s.chars().take(120).collect::<String>(), s.len());
        }
        _ => {}
    }
}

/// Forks the workers and collects what they did.
fn fan_out(p: &Prop, root: &str, n: usize, seed: u64, thorough: bool, runs: u64, secs: u64, prints: bool) -> Result<Vec<Part>, String> {
    let stop = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        let a = &*(m as *const std::sync::atomic::AtomicU64);
        a.store(u64::MAX, std::sync::atomic::Ordering::Relaxed);
        a
    };
    let until = Instant::now() + Duration::from_secs(secs);
    let mut pids = vec![];
    for k in 0..n {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let w = worker(root, k, seed, thorough);
                if std::env::var("VSIM_DUMPS").is_ok() {
                    std::env::set_var("VSIM_DUMP", format!("{root}/dump{k}"));
                }
                let part = run_part(p, k, n, &w, runs, until, stop, prints);
                std::fs::write(format!("{root}/part{k}"), serde_json::to_vec(&part).unwrap()).unwrap();
            }));
            if r.is_err() {
                world::last_panic();
            }
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} };
        bad |= st != 0;
    }
    if bad {
        return Err("a worker of the simulator failed".into());
    }
    (0..n).map(|k| std::fs::read(format!("{root}/part{k}")).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))).collect()
}

fn check(id: &str, thorough: bool, runs: Option<u64>, n: usize, seed: u64) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let root = scratch_root();
    let (mut max, secs) = if thorough { p.thorough } else { p.quick };
    if let Some(r) = runs {
        max = r;
    }
    println!("vsim {id}: seed {seed}, {max} runs, {n} workers");
    let parts = match fan_out(p, &root, n, seed, thorough, max, secs, false) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("vsim: {e}");
            let _ = std::fs::remove_dir_all(&root);
            return 2;
        }
    };
    let searched = t0.elapsed().as_secs_f64();
    let mut all = Part::default();
    for x in parts {
        all.runs += x.runs;
        all.nontrivial += x.nontrivial;
        for (k, v) in x.stats {
            *all.stats.entry(k).or_default() += v;
        }
        all.reached.extend(x.reached);
        all.distinct.extend(x.distinct);
        all.samples.extend(x.samples);
        all.repeated += x.repeated;
        all.differed.extend(x.differed);
        for (k, v) in x.known {
            *all.known.entry(k).or_default() += v;
        }
        if let Some(v) = x.viol {
            if all.viol.as_ref().is_none_or(|a| v.0 < a.0) {
                all.viol = Some(v);
            }
        }
    }
    all.samples.truncate(4);
    let dir = verif_dir();
    let mut code = 0;
    let mut replay = String::new();
    if let Some((i, plan, v)) = &all.viol {
        println!("vsim {id}: run {i} violates: {}: {}", v.class, v.detail);
        let w = worker(&root, 90, seed, thorough);
        let small = minimise(plan.clone(), 90, &mut |q| judge(id, q, &w).0.viol.is_some_and(|x| x.class == v.class));
        let (o, full) = judge(id, &small, &w);
        // the schedule written out must do the same as the seed that chose it
        let (plan, viol, ok) = match o.viol {
            Some(x) if judge(id, &full, &w).0.viol.is_some_and(|y| y.class == x.class) => (full, x, true),
            _ => (plan.clone(), v.clone(), false),
        };
        println!("vsim {id}: minimised: {}: {}", viol.class, viol.detail);
        let f = ReplayFile { property: id.into(), seed, index: *i, thorough, violation: viol, minimised: ok, plan };
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        replay = format!("{dir}/replays/{id}-{seed}-{i}.json");
        std::fs::write(&replay, serde_json::to_vec_pretty(&f).unwrap()).expect("replay file");
        code = 1;
    }
    let _ = std::fs::remove_dir_all(&root);
    let pick = |pre: &str| -> serde_json::Value { all.stats.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|k| (k.to_string(), serde_json::json!(v)))).collect::<serde_json::Map<_, _>>().into() };
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": all.distinct.len(),
            "rule": format!("{}; two runs count as one when operations, outcomes, answers and scheduling choices are all the same", p.rule.split("; distinct = ").next().unwrap_or(p.rule)),
            "states_reached": {"measure": p.rule.split("; distinct = ").nth(1).unwrap_or("distinct runs"), "count": all.reached.len()},
            "simulated_time": "the code under test has no timers and waits for nothing: simulated time is the number of operations decided by the seed (simulated.operations) and, where the clock is simulated, the readings served (simulated.clock_reads)",
            "samples": all.samples,
            "nontrivial_runs": all.nontrivial,
            "runs_planned": max,
            "runs_and_seeds_per_hour": (all.runs as f64 / searched * 3600.0) as u64,
            "workers": n,
            "simulated": pick("sim."),
            "faults_fired": pick("fault."),
            "plans_run_twice_to_compare": all.repeated,
            "plans_that_differed": all.differed,
            "known_findings_met": all.known,
            "components": {
                "real": ["visqol-rs library (all of it, built from /repo/visqol-rs)", "its dependencies (hound, csv, ffsvm, ndarray, rustfft, ...)", if p.cli > 0 { "visqol command line tool (/repo/visqol/src, linked against /repo/visqol-rs)" } else { "no part of the command line tool" }, "kernel page cache and file system (tmpfs) below the seam"],
                "simulated": ["outcome of every open/read/write/seek/stat/close on the run's files and standard streams", "clock, random numbers, thread scheduling, heap contents", "processes, sockets and modifications outside the run's directory: refused and recorded"],
            },
        },
        "assumptions": ["the code under test reaches the operating system through libc or std, not through inline system calls", "faults at close() and loss of power are not injected"],
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": code,
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    for (k, v) in &all.known {
        println!("KNOWN-FINDING: property={id} {k} ({v} runs)");
    }
    println!("vsim {id}: {} runs ({} distinct non-trivial, {} states) in {:.1} s; faults {}", all.runs, all.distinct.len(), all.reached.len(), searched, serde_json::to_string(&pick("fault.")).unwrap());
    if !all.differed.is_empty() {
        println!("vsim {id}: warning: runs {:?} were not repeated exactly", all.differed);
    }
    if code == 1 {
        println!("VIOLATION property={id} replay={replay}");
    }
    code
}

fn replay(file: &str) -> i32 {
    let f: ReplayFile = match std::fs::read(file).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vsim: {file}: {e}");
            return 2;
        }
    };
    let root = scratch_root();
    let w = worker(&root, 0, f.seed, f.thorough);
    let (o, _) = judge(&f.property, &f.plan, &w);
    let _ = std::fs::remove_dir_all(&root);
    match o.viol {
        Some(v) => {
            println!("{}: {} (recorded: {})", v.class, v.detail, f.violation.class);
            println!("VIOLATION property={} replay={file}", f.property);
            1
        }
        None => {
            println!("{} holds in this run (recorded: {}: {})", f.property, f.violation.class, f.violation.detail);
            0
        }
    }
}

fn determinism(runs: u64, seed: u64) -> i32 {
    let mut bad = 0;
    for p in PROPS {
        if std::env::var("VSIM_ONLY").is_ok_and(|x| x != p.id) {
            continue;
        }
        let mut seen: Vec<BTreeMap<u64, u64>> = vec![];
        for n in [8usize, 3] {
            let root = scratch_root();
            match fan_out(p, &root, n, seed, false, runs, 600, true) {
                Ok(ps) => seen.push(ps.into_iter().flat_map(|x| x.prints).collect()),
                Err(e) => {
                    eprintln!("vsim: {}: {e}", p.id);
                    return 2;
                }
            }
            let _ = std::fs::remove_dir_all(&root);
        }
        let d: Vec<u64> = seen[0].iter().filter(|(k, v)| seen[1].get(k).is_some_and(|x| x != *v)).map(|(k, _)| *k).collect();
        println!("{}: {} runs repeated in other processes at another worker count, {} differed {:?}", p.id, seen[0].len(), d.len(), d);
        bad += d.len();
    }
    (bad > 0) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    sim::init();
    world::quiet_panics();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get());
    let n = opt("--workers").and_then(|x| x.parse().ok()).unwrap_or(cores.clamp(1, 16));
    let runs = opt("--runs").and_then(|x| x.parse().ok());
    let arg = |k: usize| a.get(k).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => check(&arg(2), thorough, runs, n, seed),
        "replay" => replay(&arg(2)),
        "determinism" => determinism(runs.unwrap_or(64), seed),
        "one" => {
            let p = prop(&arg(2));
            let root = scratch_root();
            let w = worker(&root, 0, seed, thorough);
            let i: u64 = arg(3).parse().unwrap_or(0);
            let t = Instant::now();
            let plan = make(p, i, &w);
            println!("{}", serde_json::to_string_pretty(&plan).unwrap());
            let (o, _) = judge(p.id, &plan, &w);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            println!("{:?}", t.elapsed());
            let _ = std::fs::remove_dir_all(&root);
            o.viol.is_some() as i32
        }
        _ => {
            eprintln!("usage: vsim check <property> | replay <file> | one <property> <index> | determinism");
            2
        }
    };
    std::process::exit(code)
}
