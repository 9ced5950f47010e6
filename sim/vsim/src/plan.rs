//! Plans (everything that decides a run), oracles and minimisation.

use crate::audio::Content;
use crate::child::Scratch;
use crate::cli::CliPlan;
use crate::rng::hash;
use crate::sim::Noise;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Plan {
    Lib(LibPlan),
    Thr(ThrPlan),
    Cli(CliPlan),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// What kind of violation: minimisation keeps this.
    pub class: String,
    pub detail: String,
}
pub fn viol(class: &str, detail: String) -> Option<Viol> { Some(Viol { class: class.into(), detail }) }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub viol: Option<Viol>,
    pub stats: BTreeMap<String, u64>,
    /// Fingerprints of distinct things reached (see the rule of each check).
    pub reached: Vec<u64>,
    /// Fingerprint of everything observed, for the determinism self-check.
    pub print: u64,
    pub nontrivial: bool,
    pub sample: Option<serde_json::Value>,
}
impl RunOut {
    pub fn add(&mut self, k: &str, n: u64) { *self.stats.entry(k.into()).or_default() += n }
}

pub struct Wk {
    pub scratch: Scratch,
    pub cache: String,
    pub oracle_runs: std::cell::Cell<u64>,
    pub seed: u64,
    pub thorough: bool,
}

/// A recording in memory: file content and later edits of samples.
#[derive(Clone, Debug, Serialize, PartialEq)]
pub struct Mem {
    pub c: Content,
    pub pokes: Vec<(usize, i16)>,
}

impl Wk {
    pub fn cached<T: Serialize + serde::de::DeserializeOwned>(&self, key: &str, f: impl FnOnce() -> T) -> T {
        let h = hash(key.as_bytes()) ^ hash(&key.as_bytes()[key.len() / 2..]).rotate_left(17);
        let p = format!("{}/{:016x}{:016x}", self.cache, h, hash(&key.bytes().rev().collect::<Vec<_>>()));
        if let Ok(b) = std::fs::read(&p) {
            if let Ok(v) = serde_json::from_slice(&b) {
                return v;
            }
        }
        let v = f();
        let t = format!("{p}.{}", std::process::id());
        if std::fs::write(&t, serde_json::to_vec(&v).unwrap()).is_ok() {
            let _ = std::fs::rename(&t, &p);
        }
        v
    }
    pub fn lib(&self, p: &LibPlan) -> Run {
        let d = self.scratch.dir();
        let r = exec_lib(p, &d);
        self.scratch.done(&d);
        r
    }
    pub fn thr(&self, p: &ThrPlan) -> Run {
        let d = self.scratch.dir();
        let r = exec_thr(p, &d);
        self.scratch.done(&d);
        r
    }
    /// What a fresh evaluator in a fresh process says, undisturbed.
    pub fn oracle(&self, cfg: &Cfg, r: (&str, Option<&Content>), d: (&str, Option<&Content>), model: &Content) -> Out {
        let key = serde_json::to_string(&("run", cfg, r, d, model)).unwrap();
        self.cached(&key, || {
            self.oracle_runs.set(self.oracle_runs.get() + 1);
            // the same path in two versions
            let alias = format!("second-{}", d.0);
            let d = if r.0 == d.0 && serde_json::to_string(&r.1).unwrap() != serde_json::to_string(&d.1).unwrap() { (alias.as_str(), d.1) } else { d };
            let mut contents = vec![model.clone()];
            let mut files = vec![(if cfg.model.is_empty() { "model.txt".to_string() } else { cfg.model.clone() }, 0)];
            for (n, c) in [r, d] {
                if let Some(c) = c {
                    contents.push(c.clone());
                    if files.iter().all(|(f, _)| f != n) {
                        files.push((n.to_string(), contents.len() - 1));
                    }
                }
            }
            let p = LibPlan {
                contents,
                files,
                steps: vec![
                    Step::New { m: 0, cfg: cfg.clone(), faults: vec![] },
                    Step::Run { m: 0, r: r.0.into(), d: d.0.into(), faults: vec![] },
                ],
                noise: Noise::default(),
                alloc_limit: 0,
            };
            match self.lib(&p) {
                Run::Hist(h) => match &h.steps[0].out {
                    Out::Ready => h.steps[1].out.clone(),
                    o => o.clone(),
                },
                Run::Died(e) => Out::Panic(format!("died: {}", e.describe())),
            }
        })
    }
    pub fn oracle_mem(&self, cfg: &Cfg, r: &Mem, d: &Mem, model: &Content) -> Out {
        let key = serde_json::to_string(&("mem", cfg, r, d, model)).unwrap();
        self.cached(&key, || {
            self.oracle_runs.set(self.oracle_runs.get() + 1);
            let mut steps = vec![Step::New { m: 0, cfg: cfg.clone(), faults: vec![] }, Step::Load { s: 0, file: "r.wav".into() }, Step::Load { s: 1, file: "d.wav".into() }];
            for (k, m) in [(0, r), (1, d)] {
                for (at, v) in &m.pokes {
                    steps.push(Step::Poke { s: k, at: *at, v: *v });
                }
            }
            steps.push(Step::Compute { m: 0, r: 0, d: 1 });
            let p = LibPlan {
                contents: vec![model.clone(), r.c.clone(), d.c.clone()],
                files: vec![(if cfg.model.is_empty() { "model.txt".to_string() } else { cfg.model.clone() }, 0), ("r.wav".into(), 1), ("d.wav".into(), 2)],
                steps,
                noise: Noise::default(),
                alloc_limit: 0,
            };
            match self.lib(&p) {
                Run::Hist(h) => h.steps.last().unwrap().out.clone(),
                Run::Died(e) => Out::Panic(format!("died: {}", e.describe())),
            }
        })
    }
}

// ---------------------------------------------------------------------------------------------
// minimisation

fn without<T: Clone>(v: &[T], a: usize, n: usize) -> Vec<T> {
    let mut o = v[..a].to_vec();
    o.extend_from_slice(&v[(a + n).min(v.len())..]);
    o
}
/// Removes ever smaller pieces of a list for as long as `bad` holds.
pub fn ddmin<T: Clone>(v: Vec<T>, budget: &mut i64, bad: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut v = v;
    let mut n = v.len();
    while n >= 1 && *budget > 0 {
        let mut a = 0;
        let mut any = false;
        while a < v.len() && *budget > 0 {
            let c = without(&v, a, n);
            *budget -= 1;
            if bad(&c) {
                v = c;
                any = true;
            } else {
                a += n;
            }
        }
        if n == 1 && !any {
            break;
        }
        if !any || n > v.len() {
            n = if n == 1 { if any { 1 } else { 0 } } else { n.div_ceil(2).min(v.len().max(1)) };
        }
    }
    v
}

pub fn minimise(plan: Plan, secs: u64, bad: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let start = std::time::Instant::now();
    let mut budget = 400i64;
    let mut test = |p: &Plan| start.elapsed().as_secs() < secs && bad(p);
    let mut cur = plan;
    match cur.clone() {
        Plan::Lib(mut p) => {
            let q = p.clone();
            p.steps = ddmin(q.steps.clone(), &mut budget, &mut |s| test(&Plan::Lib(LibPlan { steps: s.to_vec(), ..q.clone() })));
            for k in 0..p.steps.len() {
                let fs = match &p.steps[k] {
                    Step::Run { faults, .. } | Step::New { faults, .. } => faults.clone(),
                    _ => continue,
                };
                let base = p.clone();
                let set = |f: &[crate::sim::Fault]| {
                    let mut x = base.clone();
                    match &mut x.steps[k] {
                        Step::Run { faults, .. } | Step::New { faults, .. } => *faults = f.to_vec(),
                        _ => {}
                    }
                    x
                };
                let f = ddmin(fs, &mut budget, &mut |f| test(&Plan::Lib(set(f))));
                p = set(&f);
            }
            let q = LibPlan { noise: Noise::default(), ..p.clone() };
            if test(&Plan::Lib(q.clone())) {
                p = q;
            }
            for k in 0..p.contents.len() {
                if let Content::Wav(w) = p.contents[k].clone() {
                    let base = p.clone();
                    let set = |d: &[crate::audio::Dmg]| {
                        let mut x = base.clone();
                        if let Content::Wav(w) = &mut x.contents[k] {
                            w.dmg = d.to_vec();
                        }
                        x
                    };
                    let d = ddmin(w.dmg, &mut budget, &mut |d| test(&Plan::Lib(set(d))));
                    p = set(&d);
                }
            }
            // contents and files nobody mentions any more
            let text = serde_json::to_string(&p.steps).unwrap();
            let q = LibPlan { files: p.files.iter().filter(|(f, _)| text.contains(f.as_str())).cloned().collect(), ..p.clone() };
            if test(&Plan::Lib(q.clone())) {
                p = q;
            }
            cur = Plan::Lib(p);
        }
        Plan::Thr(p0) => {
            let mut p = p0;
            let q = p.clone();
            p.threads = ddmin(q.threads.clone(), &mut budget, &mut |t| test(&Plan::Thr(ThrPlan { threads: t.to_vec(), ..q.clone() })));
            for k in 0..p.threads.len() {
                let base = p.clone();
                let set = |s: &[Step]| {
                    let mut x = base.clone();
                    x.threads[k] = s.to_vec();
                    x
                };
                let s = ddmin(base.threads[k].clone(), &mut budget, &mut |s| test(&Plan::Thr(set(s))));
                p = set(&s);
            }
            if let Some(sw) = p.switches.clone() {
                let base = p.clone();
                let mut b2 = 300i64;
                let s = ddmin(sw, &mut b2, &mut |s| test(&Plan::Thr(ThrPlan { switches: Some(s.to_vec()), ..base.clone() })));
                p.switches = Some(s);
            }
            cur = Plan::Thr(p);
        }
        Plan::Cli(p0) => {
            let mut p = p0;
            let q = p.clone();
            p.invs = ddmin(q.invs.clone(), &mut budget, &mut |i| !i.is_empty() && test(&Plan::Cli(CliPlan { invs: i.to_vec(), ..q.clone() })));
            for k in 0..p.invs.len() {
                let base = p.clone();
                let setf = |f: &[crate::sim::Fault]| {
                    let mut x = base.clone();
                    x.invs[k].faults = f.to_vec();
                    x
                };
                let f = ddmin(base.invs[k].faults.clone(), &mut budget, &mut |f| test(&Plan::Cli(setf(f))));
                p = setf(&f);
                if p.invs[k].batch {
                    let base = p.clone();
                    let setp = |f: &[(String, String)]| {
                        let mut x = base.clone();
                        x.invs[k].pairs = f.to_vec();
                        x
                    };
                    let f = ddmin(base.invs[k].pairs.clone(), &mut budget, &mut |f| test(&Plan::Cli(setp(f))));
                    p = setp(&f);
                }
                let mut q = p.clone();
                q.invs[k].noise = Noise::default();
                if test(&Plan::Cli(q.clone())) {
                    p = q;
                }
            }
            let mut q = p.clone();
            q.links.clear();
            if test(&Plan::Cli(q.clone())) {
                p = q;
            }
            if let Some(c) = p.choices.clone() {
                let base = p.clone();
                let s = ddmin(c, &mut budget, &mut |s| test(&Plan::Cli(CliPlan { choices: Some(s.to_vec()), ..base.clone() })));
                p.choices = Some(s);
            }
            cur = Plan::Cli(p);
        }
    }
    cur
}
