//! Histories of library calls, executed against the real library in a forked process.

use crate::audio::Content;
use crate::child::{in_child, End};
use crate::rng::hash;
use crate::sim::{self, Fault, Noise, Op};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vq::{load, Mgr, Raw, Sig, SimilarityResult};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// "wb", "wbu" (unscaled mapping), "fb"
    pub mode: String,
    pub window: usize,
    /// Model file for "fb".
    pub model: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    New { m: usize, cfg: Cfg, faults: Vec<Fault> },
    Drop { m: usize },
    Run { m: usize, r: String, d: String, faults: Vec<Fault> },
    /// Load a recording into memory with the library's own loader.
    Load { s: usize, file: String },
    Compute { m: usize, r: usize, d: usize },
    /// Edit a signal in place (same buffer, same length): sample `at` becomes `v`/32768.
    Poke { s: usize, at: usize, v: i16 },
    /// Write a file: `how` 0 in place, 1 by renaming a new file over it. `keep` restores the
    /// time stamps the previous version had.
    Put { file: String, c: usize, how: u8, keep: bool },
    Remove { file: String },
    /// Remember the resource situation.
    Measure,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LibPlan {
    pub contents: Vec<Content>,
    pub files: Vec<(String, usize)>,
    pub steps: Vec<Step>,
    pub noise: Noise,
    /// Upper bound on heap allocations (the unit of work) for the whole history.
    pub alloc_limit: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Res {
    pub moslqo: u64,
    pub vnsim: u64,
    pub fvnsim: Vec<u64>,
    pub fstdnsim: Vec<u64>,
    pub fvdegenergy: Vec<u64>,
    pub bands: Vec<u64>,
    /// similarity, ref start, ref end, deg start, deg end
    pub patches: Vec<[u64; 5]>,
    pub means: Vec<Vec<u64>>,
    pub stds: Vec<Vec<u64>>,
    pub energies: Vec<Vec<u64>>,
}
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
impl Res {
    pub fn of(r: &SimilarityResult) -> Res {
        Res {
            moslqo: r.moslqo.to_bits(),
            vnsim: r.vnsim.to_bits(),
            fvnsim: bits(&r.fvnsim),
            fstdnsim: bits(&r.fstdnsim),
            fvdegenergy: bits(&r.fvdegenergy),
            bands: bits(&r.center_freq_bands),
            patches: r
                .patch_sims
                .iter()
                .map(|p| {
                    [
                        p.similarity.to_bits(),
                        p.ref_patch_start_time.to_bits(),
                        p.ref_patch_end_time.to_bits(),
                        p.deg_patch_start_time.to_bits(),
                        p.deg_patch_end_time.to_bits(),
                    ]
                })
                .collect(),
            means: r.patch_sims.iter().map(|p| bits(&p.freq_band_means)).collect(),
            stds: r.patch_sims.iter().map(|p| bits(&p.freq_band_stddevs)).collect(),
            energies: r.patch_sims.iter().map(|p| bits(&p.freq_band_deg_energy)).collect(),
        }
    }
    pub fn score(&self) -> f64 { f64::from_bits(self.moslqo) }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Ok(Res),
    Err(String),
    Panic(String),
    /// The step produced nothing to compare (no manager, file put, ...).
    Nothing,
    /// The evaluator was constructed / the signal loaded.
    Ready,
}
impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(r) => format!("Ok(score {}, {} patches, fingerprint {:x})", r.score(), r.patches.len(), hash(serde_json::to_string(r).unwrap().as_bytes())),
            Out::Err(e) => format!("Err({e})"),
            Out::Panic(p) => format!("PANIC({p})"),
            Out::Nothing => "-".into(),
            Out::Ready => "ready".into(),
        }
    }
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_panic(&self) -> bool { matches!(self, Out::Panic(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StepRec {
    pub out: Out,
    pub op0: u64,
    pub op1: u64,
    pub fds: i32,
    pub live: i64,
    pub threads: i32,
    pub fired: i32,
    pub allocs: u64,
    pub flags: u64,
    /// In-memory signals still hold the samples they held before the step.
    pub sigs_ok: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub steps: Vec<StepRec>,
    pub ops: Vec<Op>,
    pub clock_reads: u64,
    pub rand_reads: u64,
    pub sim_ns: u64,
    /// scheduler: steps, switches, futex waits, fingerprint
    pub sched: [u64; 4],
    /// basic blocks of the library executed / in total
    pub blocks: [u64; 3],
    pub switches: Vec<(u64, u64)>,
    /// name -> (size, content hash, mtime) before and after
    pub tree0: BTreeMap<String, (u64, u64, i64)>,
    pub tree1: BTreeMap<String, (u64, u64, i64)>,
}

/// What a fork ended with: a history, or the way the process died.
pub enum Run {
    Hist(Hist),
    Died(End),
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| {
            let f = l.file();
            let f = f.rsplit("/src/").next().unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.chars().take(200).collect::<String>(), l.unwrap_or_default()));
    }));
}
pub fn last_panic() { LAST_PANIC.with(|p| eprintln!("vsim: {}", p.borrow())) }
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn new_mgr(c: &Cfg) -> Mgr {
    match c.mode.as_str() {
        "fb" => vq::fullband(c.model.clone(), c.window),
        m => vq::wideband(m == "wbu", c.window),
    }
}

fn ftime(p: &str) -> Option<[libc::timespec; 2]> {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(p).ok()?;
    Some([
        libc::timespec { tv_sec: m.atime(), tv_nsec: m.atime_nsec() },
        libc::timespec { tv_sec: m.mtime(), tv_nsec: m.mtime_nsec() },
    ])
}
fn set_ftime(p: &str, t: &[libc::timespec; 2]) {
    let c = std::ffi::CString::new(p).unwrap();
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), 0) };
}

pub fn put_file(file: &str, b: &[u8], how: u8, keep: bool) {
    let t = ftime(file);
    if how == 0 {
        std::fs::write(file, b).expect("put");
    } else {
        let tmp = format!("{file}.new");
        std::fs::write(&tmp, b).expect("put");
        std::fs::rename(&tmp, file).expect("put");
    }
    match t {
        Some(t) if keep => set_ftime(file, &t),
        _ => {}
    }
}

pub fn tree(dir: &str) -> BTreeMap<String, (u64, u64, i64)> {
    use std::os::unix::fs::MetadataExt;
    let mut m = BTreeMap::new();
    let mut todo = vec![String::new()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(format!("{dir}/{d}")) else { continue };
        for e in rd.flatten() {
            let n = if d.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{d}/{}", e.file_name().to_string_lossy()) };
            let Ok(md) = std::fs::symlink_metadata(format!("{dir}/{n}")) else { continue };
            if md.is_dir() {
                m.insert(format!("{n}/"), (0, 0, 0));
                todo.push(n);
            } else {
                let b = std::fs::read(format!("{dir}/{n}")).unwrap_or_default();
                m.insert(n, (b.len() as u64, hash(&b), md.mtime() * 1_000_000_000 + md.mtime_nsec()));
            }
        }
    }
    m
}

pub struct Prepared {
    pub dir: String,
    pub trace: String,
}
/// Lays out the initial files of a run.
pub fn lay_out(dir: &str, contents: &[Content], files: &[(String, usize)], noise: &Noise) -> Prepared {
    let w = format!("{dir}/w");
    std::fs::create_dir_all(&w).unwrap();
    for (f, c) in files {
        if let Some(p) = f.rfind('/') {
            std::fs::create_dir_all(format!("{w}/{}", &f[..p])).unwrap();
        }
        let p = format!("{w}/{f}");
        std::fs::write(&p, contents[*c].bytes()).unwrap();
        // the time stamps come from the plan, not from the clock
        let s = if noise.meta { (crate::rng::mix(noise.seed ^ hash(f.as_bytes())) % 4_000_000_000) as i64 } else { 1_600_000_000 };
        let t = libc::timespec { tv_sec: s, tv_nsec: (s % 1000) * 1_000_000 };
        set_ftime(&p, &[t, t]);
    }
    if noise.meta {
        for k in 0..(noise.seed % 4) {
            let _ = std::fs::write(format!("{w}/.other{k}.wav"), vec![k as u8; 100 * k as usize]);
        }
    }
    Prepared { dir: w, trace: format!("{dir}/trace") }
}

pub fn env_noise(seed: u64) -> Vec<(String, String)> {
    let mut r = crate::rng::Rng::new(seed ^ 0xe17);
    let names = ["RUST_BACKTRACE", "TZ", "LANG", "LC_ALL", "TMPDIR", "HOME", "RUST_LOG", "RAYON_NUM_THREADS", "OMP_NUM_THREADS", "VISQOL_CACHE", "USER", "COLUMNS", "NO_COLOR", "TERM"];
    let vals = ["0", "1", "full", "", "/nonexistent", "de_DE.UTF-8", "C", "UTC+7", "trace", "99"];
    (0..r.range(1, 5)).map(|_| (r.pick(&names).to_string(), r.pick(&vals).to_string())).collect()
}

struct Ctx {
    /// Bytes the library holds on to, by summing what each call left behind.
    lib_live: i64,
    mgrs: Vec<Option<Mgr>>,
    sigs: Vec<Option<Sig>>,
}
fn snapshot(s: &Sig) -> u64 {
    let mut h = 0;
    s.see(&mut |x| h = crate::rng::mix(h ^ x));
    h
}

fn live() -> i64 { sim::LIVE.load(std::sync::atomic::Ordering::Relaxed) }

/// Runs a library call, converts what it returned and accounts for the memory it kept.
fn call(kept: &mut i64, on: &dyn Fn(bool), f: impl FnOnce() -> Raw) -> Out {
    let l0 = live();
    on(true);
    let x = catch_unwind(AssertUnwindSafe(f));
    on(false);
    match x {
        Err(_) => Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
        Ok(x) => {
            let c0 = live();
            let out = match &x {
                Ok(r) => Out::Ok(Res::of(r)),
                Err(e) => Out::Err(e.to_string()),
            };
            let conv = live() - c0;
            drop(x);
            *kept += live() - conv - l0;
            out
        }
    }
}

fn exec_step(cx: &mut Ctx, st: &Step, contents: &[Content], threaded: bool) -> StepRec {
    let s = sim::sim();
    let (op0, al0) = unsafe { ((s.sim_ops)(), sim::ALLOCS.load(std::sync::atomic::Ordering::Relaxed)) };
    let snap: Vec<u64> = cx.sigs.iter().map(|x| x.as_ref().map_or(0, snapshot)).collect();
    let mut poked = false;
    if let Step::Run { faults, .. } | Step::New { faults, .. } = st {
        if !faults.is_empty() {
            sim::faults_rel(&sim::fault_text(faults));
        }
    }
    let on = |b: bool| {
        if !threaded {
            sim::active(b)
        }
    };
    let out = match st {
        Step::New { m, cfg, .. } => {
            while cx.mgrs.len() <= *m {
                cx.mgrs.push(None);
            }
            let l0 = live();
            on(true);
            cx.mgrs[*m] = None;
            let r = guarded(|| new_mgr(cfg));
            on(false);
            if r.is_ok() {
                cx.lib_live += live() - l0;
            }
            match r {
                Ok(g) => {
                    cx.mgrs[*m] = Some(g);
                    Out::Ready
                }
                Err(p) => Out::Panic(p),
            }
        }
        Step::Drop { m } => {
            let l0 = live();
            on(true);
            if *m < cx.mgrs.len() {
                cx.mgrs[*m] = None;
            }
            on(false);
            cx.lib_live += live() - l0;
            Out::Nothing
        }
        Step::Run { m, r, d, .. } => match cx.mgrs.get_mut(*m).and_then(|x| x.as_mut()) {
            None => Out::Nothing,
            Some(g) => call(&mut cx.lib_live, &on, || vq::run(g, r, d)),
        },
        Step::Load { s: k, file } => {
            while cx.sigs.len() <= *k {
                cx.sigs.push(None);
            }
            on(true);
            let x = guarded(|| load(file));
            on(false);
            poked = true;
            match x {
                Ok(Ok(v)) => {
                    cx.sigs[*k] = Some(v);
                    Out::Ready
                }
                Ok(Err(e)) => {
                    cx.sigs[*k] = None;
                    Out::Err(e)
                }
                Err(p) => {
                    cx.sigs[*k] = None;
                    Out::Panic(p)
                }
            }
        }
        Step::Compute { m, r, d } => {
            let have = |k: &usize| cx.sigs.get(*k).is_some_and(|x| x.is_some());
            if r == d || !have(r) || !have(d) || cx.mgrs.get(*m).is_none_or(|x| x.is_none()) {
                Out::Nothing
            } else {
                let mut a = cx.sigs[*r].take().unwrap();
                let mut b = cx.sigs[*d].take().unwrap();
                let g = cx.mgrs[*m].as_mut().unwrap();
                let o = call(&mut cx.lib_live, &on, || a.compute(&mut *b, g));
                cx.sigs[*r] = Some(a);
                cx.sigs[*d] = Some(b);
                o
            }
        }
        Step::Poke { s: k, at, v } => {
            poked = true;
            if let Some(Some(x)) = cx.sigs.get_mut(*k) {
                x.poke(*at, *v as f64 / 32768.0)
            }
            Out::Nothing
        }
        Step::Put { file, c, how, keep } => {
            put_file(file, &contents[*c].bytes(), *how, *keep);
            Out::Nothing
        }
        Step::Remove { file } => {
            let _ = std::fs::remove_file(file);
            Out::Nothing
        }
        Step::Measure => Out::Nothing,
    };
    let fired = unsafe { (s.sim_fired)() };
    if let Step::Run { faults, .. } | Step::New { faults, .. } = st {
        if !faults.is_empty() {
            unsafe { (s.sim_clear_faults)() }
        }
    }
    let now: Vec<u64> = cx.sigs.iter().map(|x| x.as_ref().map_or(0, snapshot)).collect();
    unsafe {
        StepRec {
            out,
            op0,
            op1: (s.sim_ops)(),
            fds: (s.sim_open_fds)(),
            live: cx.lib_live,
            threads: (s.sim_live_threads)(),
            fired,
            allocs: sim::ALLOCS.load(std::sync::atomic::Ordering::Relaxed) - al0,
            flags: (s.sim_outside)(),
            sigs_ok: poked || now == snap,
        }
    }
}

fn begin(p: &Prepared, noise: &Noise, limit: u64, extra: &str) {
    std::env::set_current_dir(&p.dir).expect("chdir");
    unsafe { (sim::sim().sim_reset)() };
    sim::plan(&format!("root {}\ntrace {}\nlib 1\ndeny 1\n{}{}", sim::enc(&p.dir), sim::enc(&p.trace), noise.text(), extra));
    unsafe { (sim::sim().sim_track_std)() };
    if noise.env {
        for (k, v) in env_noise(noise.seed) {
            std::env::set_var(k, v)
        }
    }
    use std::sync::atomic::Ordering::Relaxed;
    sim::HEAP_NOISE.store(noise.heap as u64, Relaxed);
    sim::ALLOCS.store(0, Relaxed);
    sim::ALLOC_LIMIT.store(if limit == 0 { u64::MAX } else { limit }, Relaxed);
}
fn finish() {
    use std::sync::atomic::Ordering::Relaxed;
    sim::ALLOC_LIMIT.store(u64::MAX, Relaxed);
    sim::HEAP_NOISE.store(0, Relaxed);
    sim::active(false);
}
fn counters(h: &mut Hist) {
    unsafe {
        let s = sim::sim();
        h.clock_reads = (s.sim_clock_reads)();
        h.rand_reads = (s.sim_rand_reads)();
        h.sim_ns = (s.sim_clock_ns)();
    }
}
fn collect(end: End, p: &Prepared, tree0: BTreeMap<String, (u64, u64, i64)>) -> Run {
    match end {
        End::Done(b) => match serde_json::from_slice::<Hist>(&b) {
            Ok(mut h) => {
                h.ops = sim::parse_trace(&std::fs::read(&p.trace).unwrap_or_default());
                h.tree0 = tree0;
                h.tree1 = tree(&p.dir);
                Run::Hist(h)
            }
            Err(_) => Run::Died(End::Exit(97)),
        },
        e => Run::Died(e),
    }
}
fn empty_hist() -> Hist {
    Hist { steps: vec![], ops: vec![], clock_reads: 0, rand_reads: 0, sim_ns: 0, sched: [0; 4], blocks: [0; 3], switches: vec![], tree0: BTreeMap::new(), tree1: BTreeMap::new() }
}

pub fn exec_lib(plan: &LibPlan, dir: &str) -> Run {
    let p = lay_out(dir, &plan.contents, &plan.files, &plan.noise);
    let t0 = tree(&p.dir);
    let end = in_child(120, || {
        begin(&p, &plan.noise, plan.alloc_limit, "");
        let mut cx = Ctx { lib_live: 0, mgrs: vec![], sigs: vec![] };
        let mut h = empty_hist();
        h.steps.reserve(plan.steps.len());
        for st in &plan.steps {
            let r = exec_step(&mut cx, st, &plan.contents, false);
            h.steps.push(r);
        }
        finish();
        counters(&mut h);
        serde_json::to_vec(&h).unwrap()
    });
    collect(end, &p, t0)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ThrPlan {
    pub contents: Vec<Content>,
    pub files: Vec<(String, usize)>,
    pub threads: Vec<Vec<Step>>,
    pub noise: Noise,
    pub sched_seed: u64,
    pub gap: u32,
    /// Explicit schedule (step, thread): set when replaying.
    pub switches: Option<Vec<(u64, u64)>>,
    pub step_limit: u64,
}

/// The histories of all threads, concatenated in thread order.
pub fn exec_thr(plan: &ThrPlan, dir: &str) -> Run {
    let p = lay_out(dir, &plan.contents, &plan.files, &plan.noise);
    let t0 = tree(&p.dir);
    let end = in_child(240, || {
        unsafe {
            // one processor: handing over the baton is then a plain context switch
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
            let n = libc::CPU_COUNT(&set) as u64;
            if n > 1 {
                let k = (crate::rng::mix(std::process::id() as u64) % n) as usize;
                let mut seen = 0;
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                for c in 0..1024 {
                    if libc::CPU_ISSET(c, &set) {
                        if seen == k {
                            libc::CPU_SET(c, &mut one);
                        }
                        seen += 1;
                    }
                }
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
        let mut extra = format!("sched {} {} {}\n", plan.sched_seed & 0xffff_ffff_ffff, plan.gap, plan.step_limit);
        if let Some(sw) = &plan.switches {
            extra.push_str("replay\n");
            for (s, t) in sw {
                extra.push_str(&format!("switch {s} {t}\n"));
            }
        }
        begin(&p, &plan.noise, 0, &extra);
        let s = sim::sim();
        let contents = &plan.contents;
        let mut h = empty_hist();
        sim::guards().fill(0);
        sim::active(true);
        unsafe { (s.sim_sched_start)() };
        sim::yield_on(true);
        let hs: Vec<std::thread::JoinHandle<Vec<StepRec>>> = plan
            .threads
            .iter()
            .map(|steps| {
                let steps = steps.clone();
                std::thread::spawn(move || {
                    let mut cx = Ctx { lib_live: 0, mgrs: vec![], sigs: vec![] };
                    steps.iter().map(|st| exec_step(&mut cx, st, &[], true)).collect()
                })
            })
            .collect();
        let all: Vec<Vec<StepRec>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        sim::yield_on(false);
        unsafe { (s.sim_sched_stop)() };
        sim::active(false);
        let _ = contents;
        h.blocks = [sim::guards().iter().filter(|x| **x > 0).count() as u64, sim::guards().len() as u64, sim::TOUCHES.load(std::sync::atomic::Ordering::Relaxed)];
        for a in all {
            h.steps.extend(a);
        }
        unsafe {
            h.sched = [(s.sim_sched_steps)(), (s.sim_sched_switches)(), (s.sim_sched_futex)(), (s.sim_sched_hash)()];
            let mut buf = vec![0u64; 2 * 400_000];
            let n = (s.sim_sched_list)(buf.as_mut_ptr(), 400_000) as usize;
            h.switches = (0..n).map(|i| (buf[2 * i], buf[2 * i + 1])).collect();
        }
        finish();
        counters(&mut h);
        serde_json::to_vec(&h).unwrap()
    });
    collect(end, &p, t0)
}
