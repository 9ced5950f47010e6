//! Checks on library histories: C01-C09, C16.

use crate::audio::*;
use crate::child::End;
use crate::cli::DEFAULT_MODEL;
use crate::gen::*;
use crate::plan::*;
use crate::rng::{hash, mix, Rng};
use crate::sim::{Fault, Noise, F};
use crate::world::*;
use std::collections::BTreeMap;

const PUB: &str = "pub";

fn reg(contents: &mut Vec<Content>, c: Content) -> usize {
    if let Some(k) = contents.iter().position(|x| *x == c) {
        return k;
    }
    contents.push(c);
    contents.len() - 1
}
fn model_of(p: &[Content], files: &[(String, usize)]) -> Content { files.iter().find(|(f, _)| f == DEFAULT_MODEL).map(|(_, c)| p[*c].clone()).unwrap_or(Content::Model(vec![])) }

const OTHER_MODEL: &str = "other-model.txt";
/// A model that works and gives other scores.
fn other_model() -> Content {
    let b = model_bytes();
    let at = b.windows(5).position(|x| x == b"\nrho ").map_or(0, |k| k + 5);
    let at = (at..b.len()).find(|k| b[*k] == b'.').unwrap_or(at) + 1;
    Content::Model(vec![Dmg::Set(at, if b[at] == b'2' { b'4' } else { b'2' })])
}

fn died(e: &End) -> String { e.describe() }

pub fn count_notes(o: &mut RunOut, ops: &[crate::sim::Op]) {
    for op in ops {
        if op.kind == "PUB" {
            o.add("fault.file_replaced", 1);
        } else if op.kind == "NOMEM" {
            o.add("fault.allocation_refused", 1);
        } else if op.kind != "FLAG" && op.kind != "MARK" {
            o.add("sim.operations", 1);
            let k = match op.note.as_str() {
                "errno" => "fault.error_return",
                "errnos" | "dead" => "fault.dead_file",
                "short" => "fault.short_transfer",
                "chunk" => "fault.short_transfer_noise",
                "eof" => "fault.early_eof",
                "eintr" => "fault.interrupted_noise",
                "full" => "fault.disk_full",
                "torn" => "fault.torn_write_and_kill",
                "crash" => "fault.kill_before_operation",
                "crasha" => "fault.kill_after_operation",
                _ => continue,
            };
            o.add(k, 1);
        }
    }
}
fn basics(o: &mut RunOut, h: &Hist) {
    count_notes(o, &h.ops);
    o.add("sim.comparisons", h.steps.iter().filter(|s| s.out.is_ok()).count() as u64);
    o.add("sim.error_answers", h.steps.iter().filter(|s| s.out.is_err()).count() as u64);
    o.add("sim.heap_allocations", h.steps.iter().map(|s| s.allocs).sum());
    let txt = serde_json::to_string(&(h.steps.iter().map(|s| (&s.out, s.op0, s.op1, s.fds)).collect::<Vec<_>>(), &h.ops, &h.sched)).unwrap();
    o.print = hash(txt.as_bytes());
}
/// The positions of files while a plan is walked through.
struct Walk<'a> {
    p: &'a [Content],
    files: BTreeMap<String, usize>,
    mgrs: BTreeMap<usize, Cfg>,
    /// What the model file of each evaluator held when it was constructed.
    models: BTreeMap<usize, Content>,
    sigs: BTreeMap<usize, Mem>,
}
impl<'a> Walk<'a> {
    fn new(p: &'a [Content], files: &[(String, usize)]) -> Self { Walk { p, files: files.iter().cloned().collect(), mgrs: BTreeMap::new(), models: BTreeMap::new(), sigs: BTreeMap::new() } }
    fn get(&self, f: &str) -> Option<&'a Content> { self.files.get(f).map(|c| &self.p[*c]) }
    fn step(&mut self, st: &Step, out: &Out) {
        match st {
            Step::New { m, cfg, .. } => {
                if *out == Out::Ready {
                    self.mgrs.insert(*m, cfg.clone());
                    let c = self.get(&cfg.model).cloned().unwrap_or(Content::Model(vec![]));
                    self.models.insert(*m, c);
                } else {
                    self.mgrs.remove(m);
                }
            }
            Step::Drop { m } => {
                self.mgrs.remove(m);
            }
            Step::Load { s, file } => {
                if *out == Out::Ready {
                    if let Some(c) = self.get(file) {
                        self.sigs.insert(*s, Mem { c: c.clone(), pokes: vec![] });
                    }
                } else {
                    self.sigs.remove(s);
                }
            }
            Step::Poke { s, at, v } => {
                if let Some(m) = self.sigs.get_mut(s) {
                    m.pokes.push((*at, *v));
                }
            }
            Step::Put { file, c, .. } => {
                self.files.insert(file.clone(), *c);
            }
            Step::Remove { file } => {
                self.files.remove(file);
            }
            _ => {}
        }
    }
}

/// Compares every undisturbed call of a history with the oracle.
fn against_oracle(w: &Wk, o: &mut RunOut, contents: &[Content], files: &[(String, usize)], steps: &[Step], recs: &[StepRec], who: &str) -> Option<Viol> {
    let mut wk = Walk::new(contents, files);
    for (k, st) in steps.iter().enumerate() {
        let Some(rec) = recs.get(k) else { return viol("lost", format!("{who}step {k} produced no record")) };
        let expect = match st {
            Step::Run { m, r, d, .. } if rec.fired == 0 && rec.out != Out::Nothing => wk.mgrs.get(m).map(|c| w.oracle(c, (r, wk.get(r)), (d, wk.get(d)), &wk.models[m])),
            Step::Compute { m, r, d } if rec.out != Out::Nothing => match (wk.mgrs.get(m), wk.sigs.get(r), wk.sigs.get(d)) {
                (Some(c), Some(a), Some(b)) => Some(w.oracle_mem(c, a, b, &wk.models[m])),
                _ => None,
            },
            _ => None,
        };
        if let Some(e) = expect {
            o.add("sim.oracle_comparisons", 1);
            if e != rec.out {
                return viol("differs", format!("{who}step {k} {} answered {} but a fresh evaluator answers {}", describe(st), rec.out.brief(), e.brief()));
            }
        }
        if let (Step::New { cfg, .. }, 0) = (st, rec.fired) {
            // construction depends on nothing but the model file
            let there = wk.get(&cfg.model).is_some();
            let sound = cfg.mode != "fb" || there;
            if sound != (rec.out == Out::Ready) {
                return viol("construction", format!("{who}step {k} {}: the model {}, and the answer is {}", describe(st), if there { "is intact" } else { "does not exist" }, rec.out.brief()));
            }
        }
        if !rec.sigs_ok {
            return viol("signal-changed", format!("{who}step {k} {} changed the caller's samples", describe(st)));
        }
        wk.step(st, &rec.out);
    }
    None
}
fn describe(st: &Step) -> String {
    let s = serde_json::to_string(st).unwrap();
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

// ---------------------------------------------------------------------------------------------
// C01

/// A random history of calls on several evaluators, recordings and in-memory signals.
fn history(r: &mut Rng, w: &Wk, long: bool, nmgr: usize, faults: bool) -> LibPlan {
    let mut contents = vec![Content::Model(vec![])];
    contents.push(other_model());
    let scenes = if w.thorough { 120 } else { 40 };
    let ns = if long { 2 } else { r.range(1, 3) };
    let mut pool: Vec<Vec<usize>> = Vec::new();
    for _ in 0..ns {
        let k = r.below(scenes) as u64;
        let sc = scene(w.seed, if long { k % 6 } else { k }, long);
        let mut fam: Vec<usize> = sc.iter().map(|g| if r.chance(5) { let c = exotic(r, g); reg(&mut contents, c) } else { reg(&mut contents, wav(g)) }).collect();
        if r.chance(25) {
            for k in [0, 2] {
                let x = near(r, &sc[k]);
                fam.push(reg(&mut contents, x));
            }
        }
        pool.push(fam);
    }
    let mut files: Vec<(String, usize)> = vec![(DEFAULT_MODEL.into(), 0)];
    // sometimes a second model, one that is missing, and model files that are replaced
    let models = r.chance(35);
    if models {
        let c = reg(&mut contents, other_model());
        files.push((OTHER_MODEL.into(), c));
    }
    let nfix = files.len();
    let with_model = |r: &mut Rng, mut c: Cfg| {
        if models {
            c.model = (*r.pick(&[DEFAULT_MODEL, DEFAULT_MODEL, DEFAULT_MODEL, OTHER_MODEL, OTHER_MODEL, OTHER_MODEL, "absent.txt"])).into();
        }
        c
    };
    let nf = r.range(3, 6);
    for k in 0..nf {
        let p = r.pick(&pool).clone();
        let c = if k % 2 == 0 { p[r.below(2)] } else { p[2 + r.below(p.len() - 2)] };
        files.push((format!("f{k}.wav"), c));
    }
    let names: Vec<String> = files[nfix..].iter().map(|f| f.0.clone()).collect();
    let mut steps = Vec::new();
    let mut cfgs = Vec::new();
    for m in 0..nmgr {
        let c = cfg(r, if models { 75 } else { 40 });
        let mut c = with_model(r, c);
        if long {
            c.window = *r.pick(&[0, 2]);
        }
        steps.push(Step::New { m, cfg: c.clone(), faults: vec![] });
        cfgs.push(c);
    }
    let nsig = if r.chance(50) { r.range(2, 4) } else { 0 };
    for s in 0..nsig {
        steps.push(Step::Load { s, file: r.pick(&names).clone() });
    }
    let n = if long { r.range(25, 70) } else { r.range(3, 12) };
    let mut last: Option<Step> = None;
    for _ in 0..n {
        let x = r.below(100);
        let st = if x < 12 && last.is_some() {
            last.clone().unwrap()
        } else if x < 55 || (x < 64 && nsig < 2) {
            let (a, b) = if r.chance(80) {
                // usually a pair that belongs together
                let a = r.below(names.len());
                let b = (0..names.len()).map(|_| r.below(names.len())).find(|b| *b != a).unwrap_or(a);
                (names[a].clone(), names[b].clone())
            } else {
                (r.pick(&names).clone(), r.pick(&names).clone())
            };
            Step::Run { m: r.below(nmgr), r: a, d: b, faults: vec![] }
        } else if x < 64 {
            Step::Compute { m: r.below(nmgr), r: r.below(nsig), d: r.below(nsig) }
        } else if x < 78 {
            let p = r.pick(&pool).clone();
            Step::Put { file: r.pick(&names).clone(), c: *r.pick(&p), how: r.below(2) as u8, keep: r.chance(60) }
        } else if x < 82 && nsig > 0 {
            Step::Poke { s: r.below(nsig), at: r.below(2000), v: (r.unit() * 32000.0) as i16 }
        } else if x < 85 && nsig > 0 {
            Step::Load { s: r.below(nsig), file: r.pick(&names).clone() }
        } else if x < 88 {
            let m = r.below(nmgr);
            if models && r.chance(50) {
                let f = (*r.pick(&[DEFAULT_MODEL, OTHER_MODEL])).to_string();
                steps.push(if r.chance(30) { Step::Remove { file: f } } else { Step::Put { file: f, c: if r.chance(50) { 0 } else { 1 }, how: r.below(2) as u8, keep: r.chance(60) } });
            }
            let c = if r.chance(50) { cfgs[m].clone() } else { let c = cfg(r, if models { 75 } else { 40 }); with_model(r, c) };
            Step::New { m, cfg: c, faults: vec![] }
        } else if x < 90 {
            Step::Remove { file: r.pick(&names).clone() }
        } else if faults {
            let n = r.below(8) as u64;
            let f = match r.below(4) {
                0 => F::Eof,
                1 => F::Dead(*r.pick(READ_ERRNOS)),
                _ => F::Errno(*r.pick(READ_ERRNOS)),
            };
            Step::Run { m: r.below(nmgr), r: r.pick(&names).clone(), d: r.pick(&names).clone(), faults: vec![Fault { op: n, what: f }] }
        } else {
            Step::Run { m: r.below(nmgr), r: r.pick(&names).clone(), d: r.pick(&names).clone(), faults: vec![] }
        };
        if matches!(st, Step::Run { .. } | Step::Compute { .. }) {
            last = Some(match st.clone() {
                Step::Run { m, r, d, .. } => Step::Run { m, r, d, faults: vec![] },
                s => s,
            });
        }
        steps.push(st);
    }
    LibPlan { contents, files, steps, noise: Noise { seed: r.next() >> 1, heap: if r.chance(60) { r.below(256) as u8 } else { 0 }, chunk: if r.chance(30) { 4 } else { 0 }, ..Noise::default() }, alloc_limit: 0 }
}

pub fn c01_gen(r: &mut Rng, w: &Wk) -> Plan {
    let long = r.chance(12);
    let n = if r.chance(50) { 1 } else { r.range(2, 3) };
    Plan::Lib(history(r, w, long, n, true))
}
pub fn c01_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    match w.lib(p) {
        Run::Died(e) => o.viol = viol("died", format!("the history ended the process: {}", died(&e))),
        Run::Hist(h) => {
            basics(&mut o, &h);
            o.viol = against_oracle(w, &mut o, &p.contents, &p.files, &p.steps, &h.steps, "");
            // distinct: the sequence of (operation, evaluator, outcome kind)
            let mut sh = 0u64;
            let mut calls = 0;
            for (s, rec) in p.steps.iter().zip(&h.steps) {
                let tag = match s {
                    Step::New { m, cfg, .. } => mix(1 + *m as u64) ^ hash(serde_json::to_string(cfg).unwrap().as_bytes()),
                    Step::Run { m, r, d, .. } => mix(2 + *m as u64) ^ hash(format!("{r}{d}").as_bytes()),
                    Step::Compute { m, r, d } => mix(3 + *m as u64) ^ mix((*r * 8 + *d) as u64),
                    Step::Put { file, c, .. } => mix(4 + *c as u64) ^ hash(file.as_bytes()),
                    _ => mix(5),
                };
                let out = match &rec.out {
                    Out::Ok(r) => r.moslqo,
                    Out::Err(e) => hash(e.as_bytes()),
                    Out::Panic(_) => 3,
                    _ => 4,
                };
                calls += matches!(rec.out, Out::Ok(_) | Out::Err(_)) as u64;
                sh = mix(sh ^ tag ^ mix(out));
            }
            o.nontrivial = calls >= 2 && h.steps.iter().any(|s| s.out.is_ok());
            o.reached.push(sh);
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C02

pub fn c02_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let mut files: Vec<(String, usize)> = vec![(DEFAULT_MODEL.into(), 0)];
    let scenes = if w.thorough { 60 } else { 16 };
    let nt = r.range(2, if w.thorough { 4 } else { 3 });
    let mut names: Vec<(String, String)> = Vec::new();
    // half of the time: short recordings that differ in everything a cache could be keyed by, and callers that alternate
    let rivals = r.chance(50);
    let kinds = if rivals { 2 } else { r.range(1, 3) };
    let first = r.below(scenes) as u64;
    for k in 0..kinds {
        let cheap = rivals || r.chance(70);
        let mut sc = scene(w.seed, 500 + if rivals { first } else { r.below(scenes) as u64 }, cheap);
        let (a, b) = (r.below(2), 2 + r.below(4));
        if rivals {
            for g in &mut sc {
                *g = Gen { ch: 1, ..g.clone() };
                if k > 0 {
                    *g = Gen { rate: if g.rate == 1000 { 1100 } else { 1000 }, ..g.clone() };
                }
            }
        }
        let (rn, dn) = (format!("r{k}.wav"), format!("d{k}.wav"));
        let (ca, cb) = (reg(&mut contents, wav(&sc[a])), reg(&mut contents, wav(&sc[b])));
        files.push((rn.clone(), ca));
        files.push((dn.clone(), cb));
        names.push((rn, dn));
    }
    // neighbours that fail in the middle of something
    let mut odd: Vec<(String, String)> = vec![];
    if r.chance(35) {
        for (k, (n, _)) in names.clone().iter().enumerate() {
            let g = scene(w.seed, 500 + first, true)[0].clone();
            let c = if r.chance(50) { exotic(r, &g) } else { Content::Wav(Wav { dmg: vec![Dmg::Trunc(44 + r.below(g.frames))], gen: g }) };
            let f = format!("odd{k}.wav");
            let c = reg(&mut contents, c);
            files.push((f.clone(), c));
            odd.push(if r.chance(50) { (n.clone(), f) } else { (f, n.clone()) });
        }
    }
    let models = r.chance(25);
    if models {
        let c = reg(&mut contents, other_model());
        files.push((OTHER_MODEL.into(), c));
    }
    let same = (rivals || r.chance(50)).then(|| cfg(r, 40));
    let mut threads = Vec::new();
    for t in 0..nt {
        let mut steps = Vec::new();
        let mut c = same.clone().unwrap_or_else(|| cfg(r, 40));
        if c.window > 8 {
            c.window = 5;
        }
        if models {
            c.mode = if r.chance(85) { "fb".into() } else { c.mode };
            c.model = (*r.pick(&[DEFAULT_MODEL, OTHER_MODEL, OTHER_MODEL])).into();
        }
        if r.chance(8) {
            steps.push(Step::New { m: 1, cfg: Cfg { mode: "fb".into(), window: 1, model: "absent.txt".into() }, faults: vec![] });
        }
        steps.push(Step::New { m: 0, cfg: c, faults: vec![] });
        let n = r.range(1, 2);
        let mem = r.chance(20);
        for k in 0..n {
            let (a, b) = if !odd.is_empty() && r.chance(40) { r.pick(&odd).clone() } else if rivals && r.chance(80) { names[(t + k) % 2].clone() } else { r.pick(&names).clone() };
            if mem {
                steps.push(Step::Load { s: 0, file: a });
                steps.push(Step::Load { s: 1, file: b });
                steps.push(Step::Compute { m: 0, r: 0, d: 1 });
            } else if r.chance(90) {
                steps.push(Step::Run { m: 0, r: a, d: b, faults: vec![] });
            } else {
                steps.push(Step::Run { m: 0, r: b, d: format!("missing{}.wav", r.below(2)), faults: vec![] });
            }
        }
        threads.push(steps);
    }
    let gaps = [10u32, 50, 300, 1000, 3000, 20000];
    Plan::Thr(ThrPlan {
        contents,
        files,
        threads,
        noise: Noise { seed: r.next() >> 1, heap: if r.chance(50) { r.below(256) as u8 } else { 0 }, chunk: if r.chance(40) { 4 } else { 0 }, ..Noise::default() },
        sched_seed: r.next() >> 20,
        gap: *r.pick(&gaps),
        switches: None,
        step_limit: 30_000_000,
    })
}
pub fn c02_judge(p: &ThrPlan, w: &Wk) -> (RunOut, Vec<(u64, u64)>) {
    let mut o = RunOut::default();
    let mut sw = vec![];
    match w.thr(p) {
        Run::Died(e) => o.viol = viol(&format!("died:{}", died(&e)), format!("concurrent evaluators ended the process: {}", died(&e))),
        Run::Hist(h) => {
            basics(&mut o, &h);
            o.add("sim.scheduling_points", h.sched[0]);
            o.add("sim.context_switches", h.sched[1]);
            o.add("sim.futex_waits", h.sched[2]);
            o.add("sim.basic_blocks_executed_sum_over_runs", h.blocks[0]);
            o.add("sim.accesses_to_statics", h.blocks[2]);
            o.reached.push(h.sched[3]);
            o.nontrivial = h.sched[1] > p.threads.len() as u64 * 2;
            let mut at = 0;
            for (t, steps) in p.threads.iter().enumerate() {
                let recs: Vec<StepRec> = h.steps.iter().skip(at).take(steps.len()).map(|s| StepRec { fired: 0, ..s.clone() }).collect();
                at += steps.len();
                if recs.len() < steps.len() {
                    o.viol = viol("thread-died", format!("thread {t} did not finish"));
                    break;
                }
                for (s, rec) in steps.iter().zip(&recs) {
                    if matches!(s, Step::New { .. }) {
                        continue;
                    }
                    if let Out::Panic(m) = &rec.out {
                        o.viol = o.viol.or_else(|| viol("panic", format!("thread {t}: {} panicked: {m}", describe(s))));
                    }
                }
                if o.viol.is_none() {
                    o.viol = against_oracle(w, &mut o, &p.contents, &p.files, steps, &recs, &format!("thread {t} "));
                }
                if o.viol.is_some() {
                    break;
                }
            }
            sw = h.switches;
        }
    }
    (o, sw)
}

// ---------------------------------------------------------------------------------------------
// C03

/// One comparison, fault-free, for the list of operations it performs.
fn baseline(w: &Wk, p: &LibPlan) -> Vec<crate::sim::Op> {
    let mut q = p.clone();
    for s in q.steps.iter_mut() {
        if let Step::Run { faults, .. } | Step::New { faults, .. } = s {
            faults.clear()
        }
    }
    let key = serde_json::to_string(&("baseline", &q)).unwrap();
    w.cached(&key, || match w.lib(&q) {
        Run::Hist(h) => h.ops,
        Run::Died(_) => vec![],
    })
}

pub fn c03_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let sc = scene(w.seed, 900 + r.below(if w.thorough { 200 } else { 40 }) as u64, r.chance(40));
    let (ra, da) = (r.below(2), 2 + r.below(4));
    let (cr, cd) = (reg(&mut contents, wav(&sc[ra])), reg(&mut contents, wav(&sc[da])));
    let files = vec![(DEFAULT_MODEL.to_string(), 0), ("r.wav".to_string(), cr), ("d.wav".to_string(), cd)];
    let c = cfg(r, 30);
    let noise = Noise { seed: r.next() >> 1, chunk: *r.pick(&[0u8, 0, 4, 2, 3]), ..Noise::default() };
    let run = |f: Vec<Fault>| Step::Run { m: 0, r: "r.wav".into(), d: "d.wav".into(), faults: f };
    let mut p = LibPlan { contents, files, steps: vec![Step::New { m: 0, cfg: c, faults: vec![] }, run(vec![])], noise, alloc_limit: 0 };
    let base = baseline(w, &p);
    let first = base.iter().find(|o| o.file == "r.wav").map_or(0, |o| o.n);
    let ops: Vec<_> = base.iter().filter(|o| o.n >= first && o.kind != "close").map(|o| (o.n - first, o.kind.clone(), o.file.clone())).collect();
    p.steps.truncate(1);
    let mut cand: Vec<Step> = Vec::new();
    // which operations: all of them when there are few, else a sample with both ends
    let mut idx: Vec<usize> = (0..ops.len()).collect();
    while idx.len() > 24 {
        let k = 1 + r.below(idx.len() - 2);
        idx.remove(k);
    }
    for k in idx {
        let (n, kind, _) = &ops[k];
        let mut errs: Vec<F> = match kind.as_str() {
            "open" => OPEN_ERRNOS.iter().map(|e| F::Errno(*e)).collect(),
            "read" => READ_ERRNOS.iter().map(|e| F::Errno(*e)).chain([F::Eof, F::Eof, F::Dead(libc::EIO), F::Errno(libc::EINTR)]).collect(),
            _ => vec![F::Errno(libc::EIO), F::Errno(libc::EINVAL)],
        };
        let keep = 3 + r.below(2);
        while errs.len() > keep {
            let j = r.below(errs.len());
            errs.remove(j);
        }
        for e in errs {
            cand.push(run(vec![Fault { op: *n, what: e }]));
        }
    }
    // files that end early on disk
    for which in 0..2 {
        let (file, g) = if which == 0 { ("r.wav", &sc[ra]) } else { ("d.wav", &sc[da]) };
        let len = render(g).len();
        for _ in 0..r.range(1, 4) {
            let cut = match r.below(5) {
                0 => r.below(44.min(len)),
                1 => len - 1,
                2 => len - 1 - r.below((g.ch as usize * 2).min(len - 1)),
                3 => 44.min(len - 1),
                _ => r.below(len),
            };
            let k = reg(&mut p.contents, Content::Wav(Wav { gen: g.clone(), dmg: vec![Dmg::Trunc(cut)] }));
            cand.push(Step::Put { file: file.into(), c: k, how: 1, keep: true });
            cand.push(run(vec![]));
            cand.push(Step::Put { file: file.into(), c: if which == 0 { cr } else { cd }, how: 1, keep: true });
        }
    }
    p.steps.extend(cand);
    Plan::Lib(p)
}
/// The recording is shorter than its (intact) header declares.
fn declared_more(c: Option<&Content>) -> bool {
    match c {
        Some(Content::Wav(w)) if w.dmg.iter().all(|d| matches!(d, Dmg::Trunc(_))) => {
            let full = render(&w.gen).len();
            damage(render(&w.gen), &w.dmg).len() < full
        }
        _ => false,
    }
}
pub fn c03_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = match w.lib(p) {
        Run::Died(e) => {
            o.viol = viol("died", format!("a failing read ended the process: {}", died(&e)));
            return o;
        }
        Run::Hist(h) => h,
    };
    basics(&mut o, &h);
    let model = model_of(&p.contents, &p.files);
    let mut wk = Walk::new(&p.contents, &p.files);
    for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
        if let Step::Run { m, r, d, .. } = st {
            let mut got: BTreeMap<String, u64> = BTreeMap::new();
            let mut must: Option<String> = None;
            let mut may = false;
            for op in h.ops.iter().filter(|op| op.n >= rec.op0 && op.n < rec.op1) {
                if op.file != *r && op.file != *d {
                    continue;
                }
                if op.kind == "read" && op.ret > 0 {
                    *got.entry(op.file.clone()).or_default() += op.ret as u64;
                }
                if op.kind == "open" {
                    got.insert(op.file.clone(), 0);
                }
                let e = -op.ret as i32;
                match op.note.as_str() {
                    "errno" | "errnos" | "dead" => {
                        o.reached.push(mix(hash(op.kind.as_bytes()) ^ mix(e as u64) ^ hash(op.file.as_bytes()) ^ mix((op.n - rec.op0).min(40))));
                        // (a failing position query, as std makes to size its buffer, loses no data)
                        if e == libc::EINTR || op.kind == "stat" || op.kind == "seek" {
                            may = true;
                        } else if op.kind == "open" || op.kind == "read" {
                            must = Some(format!("{} of {} failed with errno {e}", op.kind, op.file));
                        } else {
                            may = true;
                        }
                    }
                    "eof" => {
                        let size = wk.get(&op.file).map_or(0, |c| c.bytes().len() as u64);
                        o.reached.push(mix(hash(op.file.as_bytes()) ^ mix((op.n - rec.op0).min(40)) ^ 0xe0f));
                        // bytes missing at the end of the audio, not merely after it
                        if got.get(&op.file).copied().unwrap_or(0) < size {
                            must = Some(format!("{} ended after {} of {size} bytes", op.file, got.get(&op.file).copied().unwrap_or(0)));
                        }
                    }
                    _ => {}
                }
            }
            for f in [r, d] {
                if declared_more(wk.get(f)) {
                    o.reached.push(mix(hash(f.as_bytes()) ^ mix(wk.get(f).unwrap().bytes().len() as u64)));
                    must = must.or_else(|| Some(format!("{f} ends before the audio it declares")));
                }
            }
            if rec.out != Out::Nothing {
                if let (Some(why), false) = (&must, rec.out.is_err()) {
                    o.viol = viol(if rec.out.is_panic() { "panic" } else { "score" }, format!("step {k}: {why}, yet the comparison returned {}", rec.out.brief()));
                } else if may && !rec.out.is_err() {
                    if let Some(c) = wk.mgrs.get(m) {
                        let e = w.oracle(c, (r, wk.get(r)), (d, wk.get(d)), &model);
                        if e != rec.out {
                            o.viol = viol("score", format!("step {k}: after a tolerated fault the comparison returned {} instead of {}", rec.out.brief(), e.brief()));
                        }
                    }
                }
                o.add("sim.disturbed_comparisons", (must.is_some() || may) as u64);
                o.nontrivial |= must.is_some();
            }
        }
        if o.viol.is_some() {
            break;
        }
        wk.step(st, &rec.out);
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C04 (library part)

pub fn c04_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = history(r, w, false, 1, false);
    // few, undisturbed comparisons; the noise is what varies
    let mut n = 0;
    p.steps.retain(|s| match s {
        Step::Run { .. } | Step::Compute { .. } => {
            n += 1;
            n <= 3
        }
        Step::New { .. } | Step::Load { .. } => true,
        _ => false,
    });
    p.noise = Noise {
        seed: r.next() >> 1,
        chunk: 1 + r.below(5) as u8,
        chunk_writes: false,
        eintr: if r.chance(40) { *r.pick(&[5, 30, 200]) } else { 0 },
        eintr_mask: *r.pick(&[4u8, 4, 5, 1]),
        clock: r.chance(80),
        rand: r.chance(80),
        heap: if r.chance(70) { r.below(256) as u8 } else { 0 },
        env: r.chance(60),
        meta: r.chance(60),
    };
    Plan::Lib(p)
}
pub fn c04_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = match w.lib(p) {
        Run::Died(e) => {
            o.viol = viol("died", format!("the run ended the process: {}", died(&e)));
            return o;
        }
        Run::Hist(h) => h,
    };
    basics(&mut o, &h);
    o.add("sim.clock_reads", h.clock_reads);
    o.add("sim.random_reads", h.rand_reads);
    // an interrupted read may be reported as an error, never as another answer
    let recs: Vec<StepRec> = h
        .steps
        .iter()
        .map(|s| {
            let hit = h.ops.iter().any(|op| op.n >= s.op0 && op.n < s.op1 && op.note == "eintr" && op.kind == "read");
            StepRec { fired: (hit && !s.out.is_ok()) as i32, ..s.clone() }
        })
        .collect();
    // a disturbed construction or load: nothing to compare afterwards (the evaluator is gone)
    o.viol = against_oracle(w, &mut o, &p.contents, &p.files, &p.steps, &recs, "");
    let pat: u64 = h.ops.iter().fold(p.noise.seed & 0, |a, op| mix(a ^ hash(op.kind.as_bytes()) ^ mix(op.ret as u64)));
    o.reached.push(pat);
    o.nontrivial = h.ops.iter().any(|o| o.note == "chunk" || o.note == "eintr") && h.steps.iter().any(|s| s.out.is_ok());
    o
}

// ---------------------------------------------------------------------------------------------
// C05 / C06

pub fn damage_gen(r: &mut Rng, _w: &Wk, mild: bool) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let mut files: Vec<(String, usize)> = vec![(DEFAULT_MODEL.into(), 0)];
    let kinds = [0u8, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    let rates = [1000u32, 1000, 1000, 2000, 1500, 500, 300, 200, 150, 130, 110, 104, 101, 100, 60, 8000];
    let mut rate = *r.pick(&rates);
    if mild && rate < 500 {
        rate = 1000;
    }
    let secs = if mild || r.chance(50) { 0.96 + 0.5 * (r.unit() * 0.5 + 0.5) } else { 0.01 + 1.1 * (r.unit() * 0.5 + 0.5) };
    let frames = ((rate as f64 * secs) as usize).max(1);
    let ch = if r.chance(75) { 1 } else { 1 + r.below(4) as u16 };
    let g = Gen { kind: *r.pick(&kinds), rate, frames, ch, seed: r.next() & 0xffff, deg: None };
    let mut dg = g.clone();
    dg.deg = Some(Deg {
        how: r.below(5) as u8,
        amount: *r.pick(&[1, 30, 300, 900]),
        seed: r.next() & 0xffff,
        shift: if r.chance(60) { 0 } else { (r.unit() * frames as f64) as i64 },
        frames: match r.below(6) {
            0 => (frames as f64 * (r.unit() * 0.5 + 0.5)) as usize,
            1 => (frames as f64 * (1.0 + 0.7 * (r.unit() * 0.5 + 0.5))) as usize,
            2 => frames.saturating_sub(r.below(40)),
            _ => frames,
        },
    });
    let mk = |r: &mut Rng, g: &Gen, hurt: bool| -> Content {
        let clean = render(g);
        let mut dmg = if hurt { damages(r, clean.len(), mild) } else { vec![] };
        // keep the work of a run small: slow rates make many frames out of few samples
        let b = damage(clean, &dmg);
        let (rt, c, n) = peek(&b);
        let frames = n / (2 * (c as usize).clamp(1, 8));
        if rt > 0 && rt < 500 && frames as f64 / rt as f64 > 2.5 {
            let keep = (rt as usize * 2 * 2 * (c as usize).clamp(1, 8)).min(n.saturating_sub(44));
            dmg.push(Dmg::Trunc(44 + keep));
            if r.chance(70) {
                dmg.push(Dmg::Put32(40, keep as u32));
            }
        }
        Content::Wav(Wav { gen: g.clone(), dmg })
    };
    let who = r.below(3);
    let a = mk(r, &g, who != 1);
    let b = mk(r, &dg, who != 0);
    let ca = reg(&mut contents, a);
    let cb = reg(&mut contents, b);
    files.push(("r.wav".into(), ca));
    files.push(("d.wav".into(), cb));
    let mut steps = Vec::new();
    let windows = [0usize, 0, 0, 1, 1, 2, 3, 5, 10, 10, 60, 60, 60, 200, 1000, 71_582_789, (1 << 31) + 3, (1 << 32) + 2, usize::MAX];
    for m in 0..2 {
        let mode = if m == 0 { "wb" } else { "fb" };
        steps.push(Step::New { m, cfg: Cfg { mode: if m == 0 && r.chance(30) { "wbu".into() } else { mode.into() }, window: *r.pick(&windows), model: DEFAULT_MODEL.into() }, faults: vec![] });
        steps.push(Step::Run { m, r: "r.wav".into(), d: "d.wav".into(), faults: vec![] });
        if r.chance(30) {
            steps.push(Step::Run { m, r: "d.wav".into(), d: "r.wav".into(), faults: vec![] });
        }
    }
    Plan::Lib(LibPlan { contents, files, steps, noise: Noise::default(), alloc_limit: 40_000_000 })
}
fn damage_reach(o: &mut RunOut, p: &LibPlan, h: &Hist) {
    for s in &h.steps {
        match &s.out {
            Out::Ok(r) => o.reached.push(mix(r.moslqo ^ mix(r.vnsim))),
            Out::Err(e) => o.reached.push(hash(e.as_bytes())),
            _ => {}
        }
    }
    for c in &p.contents {
        if let Content::Wav(w) = c {
            for d in &w.dmg {
                let k = match d {
                    Dmg::Trunc(_) => "fault.lost_tail",
                    Dmg::Zero(..) => "fault.zeroed_block",
                    Dmg::Dup(..) => "fault.duplicated_block",
                    Dmg::Swap(..) => "fault.swapped_blocks",
                    Dmg::Flip(..) => "fault.bit_flip",
                    Dmg::Set(..) => "fault.byte_stuck",
                    Dmg::Put16(..) | Dmg::Put32(..) => "fault.header_field",
                    Dmg::Junk(..) => "fault.garbage_block",
                    Dmg::Append(..) => "fault.appended_garbage",
                    Dmg::Cut(..) => "fault.lost_block",
                    Dmg::Form(_) => "fault.other_container",
                };
                o.add(k, 1);
            }
        }
    }
}
pub fn c05_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    match w.lib(p) {
        Run::Died(e) => o.viol = viol(&format!("died:{}", died(&e)), format!("a comparison of damaged recordings did not return: {}", died(&e))),
        Run::Hist(h) => {
            basics(&mut o, &h);
            damage_reach(&mut o, p, &h);
            for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
                if let (Step::Run { .. }, Out::Panic(m)) = (st, &rec.out) {
                    let at = m.rsplit(" at ").next().unwrap_or("").to_string();
                    o.viol = viol(&format!("panic:{at}"), format!("step {k} {} panicked: {m}", describe(st)));
                    break;
                }
                o.nontrivial |= matches!(rec.out, Out::Ok(_) | Out::Err(_));
            }
        }
    }
    o
}
pub fn well_formed(r: &Res, bands: usize) -> Result<(), String> {
    let f = |b: &u64| f64::from_bits(*b);
    let all_finite = |name: &str, v: &[u64]| match v.iter().position(|x| !f(x).is_finite()) {
        Some(k) => Err(format!("{name}[{k}] is {}", f(&v[k]))),
        None => Ok(()),
    };
    let score = r.score();
    if !(1.0..=5.0).contains(&score) {
        return Err(format!("the score is {score}"));
    }
    for (n, v) in [("fvnsim", &r.fvnsim), ("fstdnsim", &r.fstdnsim), ("fvdegenergy", &r.fvdegenergy), ("center_freq_bands", &r.bands)] {
        if v.len() != bands {
            return Err(format!("{n} has {} entries for {bands} bands", v.len()));
        }
        all_finite(n, v)?;
    }
    let mean = r.fvnsim.iter().map(f).sum::<f64>() / bands as f64;
    let v = f(&r.vnsim);
    if !v.is_finite() || (mean - v).abs() > 1e-9 {
        return Err(format!("vnsim is {v}, the mean of the bands is {mean}"));
    }
    if v < 0.15 && score != 1.0 {
        return Err(format!("vnsim is {v} but the score is {score}"));
    }
    for (k, x) in r.fvnsim.iter().enumerate() {
        if f(x) > 1.0 + 1e-9 {
            return Err(format!("fvnsim[{k}] is {}", f(x)));
        }
    }
    for (k, x) in r.fstdnsim.iter().enumerate() {
        if f(x) < 0.0 {
            return Err(format!("fstdnsim[{k}] is {}", f(x)));
        }
    }
    for k in 1..r.bands.len() {
        if f(&r.bands[k]) <= f(&r.bands[k - 1]) {
            return Err(format!("center_freq_bands[{k}] is {} after {}", f(&r.bands[k]), f(&r.bands[k - 1])));
        }
    }
    if r.patches.is_empty() {
        return Err("there is no patch".into());
    }
    for (k, p) in r.patches.iter().enumerate() {
        let [s, rs, re, ds, de] = [f(&p[0]), f(&p[1]), f(&p[2]), f(&p[3]), f(&p[4])];
        if ![s, rs, re, ds, de].iter().all(|x| x.is_finite()) {
            return Err(format!("patch {k} is {s} {rs}..{re} {ds}..{de}"));
        }
        if rs > re || ds > de {
            return Err(format!("patch {k} ends before it starts: {rs}..{re} {ds}..{de}"));
        }
        for (n, v) in [("freq_band_means", &r.means[k]), ("freq_band_stddevs", &r.stds[k]), ("freq_band_deg_energy", &r.energies[k])] {
            if v.len() != bands {
                return Err(format!("{n} of patch {k} has {} entries for {bands} bands", v.len()));
            }
            all_finite(&format!("{n} of patch {k}"), v)?;
        }
        if r.means[k].iter().any(|x| f(x) > 1.0 + 1e-9) {
            return Err(format!("patch {k} has a band similarity above 1"));
        }
        if r.stds[k].iter().any(|x| f(x) < 0.0) {
            return Err(format!("patch {k} has a negative deviation"));
        }
    }
    Ok(())
}
pub fn c06_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    match w.lib(p) {
        // whether it returns at all is C05
        Run::Died(_) => o.add("sim.not_returned", 1),
        Run::Hist(h) => {
            basics(&mut o, &h);
            damage_reach(&mut o, p, &h);
            let mut modes: BTreeMap<usize, String> = BTreeMap::new();
            for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
                if let Step::New { m, cfg, .. } = st {
                    modes.insert(*m, cfg.mode.clone());
                }
                if let (Step::Run { m, .. }, Out::Ok(res)) = (st, &rec.out) {
                    o.nontrivial = true;
                    o.add("sim.results_examined", 1);
                    let bands = if modes[m] == "fb" { 32 } else { 21 };
                    if let Err(e) = well_formed(res, bands) {
                        let class = e.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(24).collect::<String>();
                        o.viol = viol(&format!("malformed:{class}"), format!("step {k} {}: {e}", describe(st)));
                        break;
                    }
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C07 (library part)

pub fn c07_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let mut files: Vec<(String, usize)> = vec![(DEFAULT_MODEL.into(), 0)];
    let sc = scene(w.seed, 1300 + r.below(if w.thorough { 60 } else { 14 }) as u64, r.chance(60));
    let mut refs: Vec<usize> = (0..2).map(|k| reg(&mut contents, wav(&sc[k]))).collect();
    let mut degs: Vec<usize> = (2..6).map(|k| reg(&mut contents, wav(&sc[k]))).collect();
    // versions that differ in rate, channels or container, too
    if r.chance(40) {
        let rate = *r.pick(&[sc[0].rate, sc[0].rate + 500, sc[0].rate * 2]);
        let ch = 1 + r.below(2) as u16;
        let form = r.chance(30).then(|| r.below(8) as u8);
        for (k, g) in sc.iter().enumerate().take(4) {
            let x = Content::Wav(Wav { gen: Gen { rate, ch, ..g.clone() }, dmg: form.map(Dmg::Form).into_iter().collect() });
            let c = reg(&mut contents, x);
            if k < 2 { &mut refs } else { &mut degs }.push(c);
        }
    }
    // versions that a summary of the file would not tell apart
    if r.chance(40) {
        for k in [0, 0, 2, 2] {
            let x = near(r, &sc[k]);
            let c = reg(&mut contents, x);
            if k < 2 { &mut refs } else { &mut degs }.push(c);
        }
    }
    files.push(("r.wav".into(), refs[0]));
    files.push(("d.wav".into(), degs[0]));
    let mut steps = vec![Step::New { m: 0, cfg: cfg(r, 30), faults: vec![] }];
    let two = r.chance(20);
    if two {
        steps.push(Step::New { m: 1, cfg: cfg(r, 30), faults: vec![] });
    }
    // sometimes a third recording, and recordings in changing roles
    let third = r.chance(30);
    if third {
        files.push(("e.wav".into(), degs[1]));
    }
    let roles = r.chance(50);
    let choose = |r: &mut Rng| -> (String, usize) {
        match r.below(if third { 6 } else { 4 }) {
            0 | 1 => ("r.wav".into(), if roles && r.chance(30) { *r.pick(&degs) } else { *r.pick(&refs) }),
            2 | 3 => ("d.wav".into(), *r.pick(&degs)),
            _ => ("e.wav".into(), *r.pick(&degs)),
        }
    };
    let mut np = 0;
    let n = r.range(2, 6);
    let noise = Noise { seed: r.next() >> 1, chunk: *r.pick(&[0u8, 2, 3, 4, 4]), ..Noise::default() };
    for _ in 0..n {
        if r.chance(45) {
            let (f, c) = choose(r);
            steps.push(Step::Put { file: f, c, how: 1, keep: r.chance(80) });
        }
        let mut faults = Vec::new();
        if r.chance(65) {
            for _ in 0..r.range(1, 3) {
                let (f, c) = choose(r);
                let name = format!("{PUB}/{np}.wav");
                np += 1;
                files.push((name.clone(), c));
                // bias: around opens (0 and a few operations later) and inside reads
                let op = if r.chance(60) { r.below(8) } else { r.below(40) } as u64;
                faults.push(Fault { op, what: F::Publish(name, f) });
            }
        }
        let pair: (&str, &str) = if roles {
            let mut names = vec!["r.wav", "d.wav"];
            if third {
                names.push("e.wav");
            }
            (*r.pick(&names), *r.pick(&names))
        } else {
            ("r.wav", if third && r.chance(50) { "e.wav" } else { "d.wav" })
        };
        steps.push(Step::Run { m: if two { r.below(2) } else { 0 }, r: pair.0.into(), d: pair.1.into(), faults });
    }
    // after the last replacement
    steps.push(Step::Run { m: 0, r: "r.wav".into(), d: "d.wav".into(), faults: vec![] });
    Plan::Lib(LibPlan { contents, files, steps, noise, alloc_limit: 0 })
}
pub fn c07_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = match w.lib(p) {
        Run::Died(e) => {
            o.viol = viol("died", format!("the history ended the process: {}", died(&e)));
            return o;
        }
        Run::Hist(h) => h,
    };
    basics(&mut o, &h);
    let model = model_of(&p.contents, &p.files);
    let mut wk = Walk::new(&p.contents, &p.files);
    for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
        if let (Step::Run { m, r, d, .. }, Some(c)) = (st, st_cfg(&wk, st)) {
            let _ = m;
            let mut rv: Vec<Option<&Content>> = vec![wk.get(r)];
            let mut dv: Vec<Option<&Content>> = vec![wk.get(d)];
            let mut now: Vec<(String, usize)> = vec![];
            let mut sig = 0u64;
            for op in h.ops.iter().filter(|op| op.n >= rec.op0 && op.n < rec.op1) {
                sig = mix(sig ^ hash(op.kind.as_bytes()) ^ hash(op.file.as_bytes()));
                if op.kind == "PUB" && op.ret == 0 {
                    if let Some((_, c)) = p.files.iter().find(|(f, _)| *f == op.note) {
                        if op.file == *r {
                            rv.push(Some(&p.contents[*c]));
                        }
                        if op.file == *d {
                            dv.push(Some(&p.contents[*c]));
                        }
                        now.push((op.file.clone(), *c));
                        o.nontrivial = true;
                    }
                }
            }
            o.reached.push(sig);
            let mut okay = false;
            let mut tried = vec![];
            'all: for a in &rv {
                for b in &dv {
                    let e = w.oracle(&c, (r, *a), (d, *b), &model);
                    if e == rec.out {
                        okay = true;
                        break 'all;
                    }
                    tried.push(e.brief());
                }
            }
            if !okay {
                o.viol = viol("stale-or-mixed", format!("step {k} {} answered {} but the versions in place during the call give {}", describe(st), rec.out.brief(), tried.join(" or ")));
                break;
            }
            for (f, c) in now {
                wk.files.insert(f, c);
            }
        }
        wk.step(st, &rec.out);
    }
    o
}
fn st_cfg(wk: &Walk, st: &Step) -> Option<Cfg> {
    match st {
        Step::Run { m, .. } => wk.mgrs.get(m).cloned(),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// C08 (library part)

pub fn c08_gen(r: &mut Rng, w: &Wk) -> Plan {
    let nm = r.range(1, 2);
    let mut p = history(r, w, false, nm, true);
    p.steps.retain(|s| !matches!(s, Step::Put { .. } | Step::Remove { .. }));
    for s in p.steps.iter_mut() {
        if let Step::Run { faults, .. } = s {
            if faults.is_empty() && r.chance(50) {
                let n = r.below(12) as u64;
                *faults = vec![Fault { op: n, what: if r.chance(40) { F::Eof } else { F::Errno(*r.pick(READ_ERRNOS)) } }];
            }
        }
    }
    if r.chance(25) {
        // recordings in all kinds of containers
        for (_, c) in p.files.iter_mut().skip(1) {
            if let (true, Content::Wav(w)) = (r.chance(50), p.contents[*c].clone()) {
                let x = exotic(r, &w.gen);
                *c = reg(&mut p.contents, x);
            }
        }
    }
    if r.chance(20) {
        let k = reg(&mut p.contents, Content::Model(vec![Dmg::Trunc(r.below(100_000))]));
        p.files[0].1 = k;
    }
    p.noise.clock = r.chance(50);
    p.noise.env = r.chance(50);
    Plan::Lib(p)
}
pub fn c08_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    match w.lib(p) {
        Run::Died(e) => o.viol = viol("died", format!("the history ended the process: {}", died(&e))),
        Run::Hist(h) => {
            basics(&mut o, &h);
            o.nontrivial = h.steps.iter().any(|s| s.out.is_ok()) || h.steps.iter().any(|s| s.fired > 0);
            o.reached.push(h.ops.iter().fold(0, |a, op| mix(a ^ hash(op.kind.as_bytes()) ^ hash(op.file.as_bytes()) ^ hash(op.note.as_bytes()))));
            if let Some(op) = h.ops.iter().find(|op| op.kind == "FLAG") {
                o.viol = viol(&format!("side-effect:{}", op.note), format!("the library attempted {} on {} ({})", op.note, op.file, op.arg));
            } else if let Some(op) = h.ops.iter().find(|op| op.kind == "mod" || op.kind == "write" || (op.kind == "open" && op.arg & 3 != 0)) {
                o.viol = viol("side-effect", format!("the library performed {} {} {}", op.kind, op.file, op.note));
            } else if h.tree0 != h.tree1 {
                o.viol = viol("tree-changed", format!("files changed: {:?}", diff(&h.tree0, &h.tree1)));
            }
        }
    }
    o
}
pub fn diff<V: PartialEq>(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> Vec<String> {
    let mut v: Vec<String> = a.iter().filter(|(k, x)| b.get(*k) != Some(x)).map(|(k, _)| if b.contains_key(k) { format!("{k} modified") } else { format!("{k} removed") }).collect();
    v.extend(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k} created")));
    v
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn c09_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let mut files: Vec<(String, usize)> = vec![(DEFAULT_MODEL.into(), 0)];
    let cheap = r.chance(80);
    let sc = scene(w.seed, 1700 + r.below(40) as u64, cheap);
    let mut names = Vec::new();
    for (k, g) in sc.iter().enumerate().take(r.range(3, 6)) {
        let c = reg(&mut contents, wav(g));
        files.push((format!("f{k}.wav"), c));
        names.push(format!("f{k}.wav"));
    }
    // one recording whose tail is lost and one of another rate: errors in the middle of loading
    let c = reg(&mut contents, Content::Wav(Wav { gen: sc[0].clone(), dmg: vec![Dmg::Trunc(44 + r.below(sc[0].frames))] }));
    files.push(("cut.wav".into(), c));
    let mut g = sc[0].clone();
    g.rate += 500;
    let c = reg(&mut contents, wav(&g));
    files.push(("rate.wav".into(), c));
    let mut round = Vec::new();
    let mut cf = cfg(r, 40);
    if !r.chance(20) {
        cf.window = *r.pick(&[0, 1, 3]);
    }
    let cycle = r.chance(35);
    if cycle {
        round.push(Step::New { m: 0, cfg: cf.clone(), faults: vec![] });
    }
    let nok = r.range(1, 2);
    for _ in 0..nok {
        round.push(Step::Run { m: 0, r: r.pick(&names[..2]).clone(), d: r.pick(&names[2..]).clone(), faults: vec![] });
    }
    for _ in 0..r.range(1, 4) {
        let (a, b) = if r.chance(50) { (r.pick(&names).clone(), r.pick(&["cut.wav".to_string(), "rate.wav".into(), "missing.wav".into()]).clone()) } else { (r.pick(&["cut.wav".to_string(), "rate.wav".into(), "missing.wav".into()]).clone(), r.pick(&names).clone()) };
        round.push(Step::Run { m: 0, r: a, d: b, faults: vec![] });
    }
    for _ in 0..r.range(1, 3) {
        let f = if r.chance(30) { F::Eof } else { F::Errno(*r.pick(READ_ERRNOS)) };
        round.push(Step::Run { m: 0, r: r.pick(&names).clone(), d: r.pick(&names).clone(), faults: vec![Fault { op: r.below(5) as u64, what: f }] });
    }
    if r.chance(30) {
        let x = exotic(r, &sc[0]);
        let c = reg(&mut contents, x);
        files.push(("form.wav".into(), c));
        round.push(Step::Run { m: 0, r: "form.wav".into(), d: r.pick(&names).clone(), faults: vec![] });
    }
    if cycle {
        round.push(Step::Drop { m: 0 });
    }
    round.push(Step::Measure);
    let mut steps = Vec::new();
    if !cycle {
        steps.push(Step::New { m: 0, cfg: cf, faults: vec![] });
    }
    for _ in 0..16 {
        steps.extend(round.iter().cloned());
    }
    Plan::Lib(LibPlan { contents, files, steps, noise: Noise { seed: r.next() >> 1, chunk: *r.pick(&[0u8, 4]), ..Noise::default() }, alloc_limit: 0 })
}
pub fn c09_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    match w.lib(p) {
        Run::Died(e) => o.viol = viol("died", format!("the history ended the process: {}", died(&e))),
        Run::Hist(h) => {
            basics(&mut o, &h);
            let mut at = Vec::new();
            let mut panicked = false;
            for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
                panicked |= rec.out.is_panic();
                if rec.fds != 0 {
                    o.viol = viol("descriptor", format!("after step {k} {} {} descriptors are still open", describe(st), rec.fds));
                    break;
                }
                if rec.threads != 0 {
                    o.viol = viol("thread", format!("after step {k} {} {} threads are still running", describe(st), rec.threads));
                    break;
                }
                if let Step::Measure = st {
                    at.push(rec.live);
                }
            }
            o.nontrivial = h.steps.iter().filter(|s| s.out.is_ok()).count() > 4;
            o.reached.push(h.steps.iter().fold(0, |a, s| mix(a ^ s.op1 ^ mix(s.out.is_ok() as u64) ^ s.live as u64)));
            let n = at.len();
            // a panicking call unwinds through the library; what it leaves is not counted
            if o.viol.is_none() && n >= 16 && !panicked && at[n - 1] > at[n / 2 - 1] && at[n / 2 - 1] > at[n / 4 - 1] {
                o.viol = viol("memory", format!("memory held after rounds {}, {}, {n} of the same comparisons: {}, {}, {} bytes", n / 4, n / 2, at[n / 4 - 1], at[n / 2 - 1], at[n - 1]));
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C16 (library part)

pub fn model_damage(r: &mut Rng) -> Content {
    let b = model_bytes();
    let lines: Vec<usize> = b.split_inclusive(|c| *c == b'\n').map(|l| l.len()).collect();
    let total: usize = lines.iter().sum();
    let last = *lines.last().unwrap();
    match r.below(8) {
        0 => Content::Model(vec![Dmg::Trunc(r.below(total - last))]),
        6 => Content::Model(vec![Dmg::Trunc(total - r.below(last) - 1)]),
        7 => {
            let n = *r.pick(&[8, 64, 512, 4096]);
            Content::Model(vec![Dmg::Zero(r.below(total - n), n)])
        }
        1 => {
            // cut at a line boundary
            let k = r.below(lines.len() - 1);
            Content::Model(vec![Dmg::Trunc(lines[..k].iter().sum())])
        }
        2 => {
            let head = b.split_inclusive(|c| *c == b'\n').position(|l| l.starts_with(b"SV")).unwrap_or(6);
            Content::ModelLines(vec![(r.below(head), 1)])
        }
        3 => {
            let head = b.split_inclusive(|c| *c == b'\n').position(|l| l.starts_with(b"SV")).unwrap_or(6) + 1;
            let n = 1 + r.below(5);
            Content::ModelLines(vec![(head + r.below(lines.len() - head - n + 1), n)])
        }
        4 => Content::Model(vec![Dmg::Trunc(0)]),
        _ => Content::ModelLines(vec![(lines.len() - 1 - r.below(3), 4)]),
    }
}
pub fn c16_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut contents = vec![Content::Model(vec![])];
    let sc = scene(w.seed, 2100 + r.below(8) as u64, true);
    let (a, b) = (reg(&mut contents, wav(&sc[0])), reg(&mut contents, wav(&sc[2])));
    let files = vec![(DEFAULT_MODEL.to_string(), 0), ("r.wav".into(), a), ("d.wav".into(), b)];
    let new = |f: Vec<Fault>| Step::New { m: 0, cfg: Cfg { mode: "fb".into(), window: 1, model: DEFAULT_MODEL.into() }, faults: f };
    let run = || Step::Run { m: 0, r: "r.wav".into(), d: "d.wav".into(), faults: vec![] };
    let mut steps = Vec::new();
    let noise = Noise { seed: r.next() >> 1, chunk: *r.pick(&[0u8, 0, 3, 4, 4]), ..Noise::default() };
    let p = LibPlan { contents: contents.clone(), files: files.clone(), steps: vec![new(vec![])], noise: noise.clone(), alloc_limit: 0 };
    let base = baseline(w, &p);
    // sometimes a good model was in use before
    if r.chance(50) {
        steps.push(new(vec![]));
        steps.push(run());
    }
    for _ in 0..r.range(2, 6) {
        match r.below(10) {
            0..=4 if !base.is_empty() => {
                let ops: Vec<_> = base.iter().filter(|o| o.kind == "open" || o.kind == "read").collect();
                let op = *r.pick(&ops);
                let what = if op.kind == "open" {
                    F::Errno(*r.pick(OPEN_ERRNOS))
                } else {
                    match r.below(4) {
                        0 => F::Eof,
                        1 => F::Dead(libc::EIO),
                        _ => F::Errno(*r.pick(READ_ERRNOS)),
                    }
                };
                steps.push(new(vec![Fault { op: op.n, what }]));
            }
            5 => {
                steps.push(Step::Remove { file: DEFAULT_MODEL.into() });
                steps.push(new(vec![]));
            }
            _ => {
                let k = reg(&mut contents, model_damage(r));
                steps.push(Step::Put { file: DEFAULT_MODEL.into(), c: k, how: 1, keep: r.chance(50) });
                steps.push(new(vec![]));
            }
        }
        steps.push(run());
        steps.push(Step::Put { file: DEFAULT_MODEL.into(), c: 0, how: 1, keep: true });
    }
    // and a good one afterwards works
    steps.push(new(vec![]));
    steps.push(run());
    Plan::Lib(LibPlan { contents, files, steps, noise, alloc_limit: 0 })
}
/// Headers and (coefficients, features) of every support vector that can still be made out.
fn model_parts(b: &[u8]) -> (usize, usize, usize) {
    let t = String::from_utf8_lossy(b);
    let (mut heads, mut coefs, mut feats) = (0, 0, 0);
    for l in t.lines() {
        let tok: Vec<&str> = l.split_whitespace().collect();
        match tok.first() {
            None => {}
            Some(&("svm_type" | "kernel_type" | "gamma" | "nr_class" | "total_sv" | "rho")) => heads += (tok.len() > 1) as usize,
            Some(_) => {
                coefs += tok.iter().filter(|x| x.parse::<f32>().is_ok()).count();
                feats += tok.iter().filter(|x| x.split_once(':').is_some_and(|(k, v)| k.parse::<u32>().is_ok() && v.parse::<f32>().is_ok())).count();
            }
        }
    }
    (heads, coefs, feats)
}
/// Has the model lost headers or (parts of) support vectors?
pub fn model_bad(c: Option<&Content>) -> Option<String> {
    match c {
        None => Some("the model does not exist".into()),
        Some(c) => {
            let b = c.bytes();
            let full = model_bytes();
            if b == full {
                return None;
            }
            let (h, k, f) = model_parts(&b);
            let (h0, k0, f0) = model_parts(&full);
            (h < h0 || k < k0 || f < f0).then(|| format!("the model has {h} of {h0} headers, {k} of {k0} coefficients and {f} of {f0} features"))
        }
    }
}
pub fn c16_judge(p: &LibPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = match w.lib(p) {
        Run::Died(e) => {
            o.viol = viol("died", format!("the history ended the process: {}", died(&e)));
            return o;
        }
        Run::Hist(h) => h,
    };
    basics(&mut o, &h);
    let good = Content::Model(vec![]);
    let last_line = model_bytes().split_inclusive(|c| *c == b'\n').last().map_or(0, |l| l.len()) as u64;
    let mut wk = Walk::new(&p.contents, &p.files);
    let mut bad_model: Option<String> = None;
    for (k, (st, rec)) in p.steps.iter().zip(&h.steps).enumerate() {
        if let Step::New { .. } = st {
            let mut why = model_bad(wk.get(DEFAULT_MODEL));
            let mut may = wk.get(DEFAULT_MODEL) != Some(&good);
            let mut got = 0u64;
            for op in h.ops.iter().filter(|op| op.n >= rec.op0 && op.n < rec.op1 && op.file == DEFAULT_MODEL) {
                if op.kind == "read" && op.ret > 0 {
                    got += op.ret as u64;
                }
                match op.note.as_str() {
                    "errno" | "errnos" | "dead" => {
                        let e = -op.ret as i32;
                        o.reached.push(mix(hash(op.kind.as_bytes()) ^ mix(e as u64) ^ mix(op.n - rec.op0)));
                        if e == libc::EINTR || op.kind == "stat" || op.kind == "seek" {
                            may = true
                        } else {
                            why = Some(format!("{} of the model failed with errno {e}", op.kind));
                        }
                    }
                    "eof" => {
                        let size = wk.get(DEFAULT_MODEL).map_or(0, |c| c.bytes().len() as u64);
                        o.reached.push(mix(got ^ 0xe0f));
                        if got + last_line <= size {
                            why = Some(format!("the model ended after {got} of {size} bytes"));
                        } else {
                            may = true;
                        }
                    }
                    _ => {}
                }
            }
            if let Some(c) = wk.get(DEFAULT_MODEL) {
                o.reached.push(hash(serde_json::to_string(c).unwrap().as_bytes()));
            }
            match (&why, &rec.out) {
                (Some(w), Out::Ready) => {
                    o.viol = viol("accepted", format!("step {k}: {w}, yet an evaluator was constructed"));
                }
                (None, Out::Panic(m)) if !may => {
                    o.viol = viol("rejected", format!("step {k}: an intact model was rejected: {m}"));
                }
                _ => {}
            }
            o.nontrivial |= why.is_some();
            bad_model = why;
        }
        if let (Step::Run { m, r, d, .. }, None) = (st, &o.viol) {
            if rec.out.is_ok() && bad_model.is_some() {
                o.viol = viol("score", format!("step {k}: {}, yet a score was produced: {}", bad_model.clone().unwrap(), rec.out.brief()));
            } else if rec.out.is_ok() {
                if let (Some(c), Some(Content::Model(v))) = (wk.mgrs.get(m), wk.get(DEFAULT_MODEL)) {
                    if v.is_empty() {
                        let e = w.oracle(c, (r, wk.get(r)), (d, wk.get(d)), &good);
                        if e != rec.out {
                            o.viol = viol("differs", format!("step {k}: {} instead of {}", rec.out.brief(), e.brief()));
                        }
                    }
                }
            }
        }
        if o.viol.is_some() {
            break;
        }
        wk.step(st, &rec.out);
    }
    o
}
