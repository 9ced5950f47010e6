//! Invocations of the command line tool: real processes under the preloaded seam.

use crate::audio::Content;
use crate::plan::Wk;
use crate::rng::Rng;
use crate::sim::{self, Fault, Noise, Op};
use crate::world::{env_noise, lay_out, tree, Cfg, Prepared};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub const DEFAULT_MODEL: &str = "model/libsvm_nu_svr_model.txt";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Inv {
    pub cfg: Cfg,
    pub pairs: Vec<(String, String)>,
    pub batch: bool,
    pub list: String,
    /// Replaces the generated batch list.
    pub list_text: Option<String>,
    pub csv: Option<String>,
    pub json: Option<String>,
    pub verbose: bool,
    pub faults: Vec<Fault>,
    pub noise: Noise,
    pub absolute: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CliPlan {
    pub contents: Vec<Content>,
    pub files: Vec<(String, usize)>,
    pub invs: Vec<Inv>,
    /// All invocations run at the same time, one operation at a time.
    pub concurrent: bool,
    pub sched_seed: u64,
    /// Explicit schedule: which of the waiting invocations acts next.
    pub choices: Option<Vec<u8>>,
    /// Further names of output files: name, file it leads to, hard link instead of symbolic.
    #[serde(default)]
    pub links: Vec<(String, String, bool)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct InvRec {
    pub code: i32,
    pub signal: i32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub ops: Vec<Op>,
    /// Content of every output file any invocation names, after this one.
    pub outs: BTreeMap<String, Option<Vec<u8>>>,
}
pub struct CliHist {
    pub outs0: BTreeMap<String, Option<Vec<u8>>>,
    pub invs: Vec<InvRec>,
    pub tree0: BTreeMap<String, (u64, u64, i64)>,
    pub tree1: BTreeMap<String, (u64, u64, i64)>,
    pub choices: Vec<u8>,
    pub stuck: bool,
}

pub fn csv_quote(s: &str) -> String {
    if s.contains([',', '"', '\n', '\r']) || s.starts_with(' ') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
pub fn list_of(pairs: &[(String, String)]) -> String {
    let mut o = String::from("reference,degraded\n");
    for (r, d) in pairs {
        o.push_str(&format!("{},{}\n", csv_quote(r), csv_quote(d)));
    }
    o
}
/// RFC 4180, as far as needed to read a table back.
pub fn parse_csv(b: &[u8]) -> Vec<Vec<String>> {
    let s = String::from_utf8_lossy(b);
    let mut rows = Vec::new();
    let mut row = Vec::new();
    let mut cell = String::new();
    let mut q = false;
    let mut any = false;
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        any = true;
        if q {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    cell.push('"');
                    it.next();
                } else {
                    q = false;
                }
            } else {
                cell.push(c);
            }
        } else {
            match c {
                '"' => q = true,
                ',' => row.push(std::mem::take(&mut cell)),
                '\r' => {}
                '\n' => {
                    row.push(std::mem::take(&mut cell));
                    rows.push(std::mem::take(&mut row));
                    any = false;
                }
                c => cell.push(c),
            }
        }
    }
    if any {
        row.push(cell);
        rows.push(row);
    }
    rows
}

/// Lines of the report. Everything else on standard output is a log message (they may span several lines) and no
/// part of the report.
pub fn report(stdout: &[u8]) -> Vec<String> {
    let rule = |l: &str| l.starts_with('-') && l.chars().all(|c| "-+|".contains(c));
    String::from_utf8_lossy(stdout)
        .split('\n')
        .map(strip_ansi)
        .filter(|l| REPORT.iter().any(|t| l.starts_with(t)) || rule(l))
        .collect()
}
const REPORT: [&str; 5] = ["ViSQOL conformance version", "Reference Filepath:", "Degraded Filepath:", "MOS-LQO:", "|"];
fn strip_ansi(l: &str) -> String {
    let mut o = String::new();
    let mut it = l.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn scores(stdout: &[u8]) -> Vec<f64> {
    report(stdout).iter().filter_map(|l| l.strip_prefix("MOS-LQO:").and_then(|x| x.trim().parse().ok())).collect()
}
/// Report without the version banner.
pub fn body(stdout: &[u8]) -> Vec<String> { report(stdout).into_iter().filter(|l| !l.starts_with("ViSQOL conformance version")).collect() }

pub fn json_stream(b: &[u8]) -> Result<Vec<serde_json::Value>, String> {
    serde_json::Deserializer::from_slice(b).into_iter::<serde_json::Value>().collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())
}

/// The records that are whole, in a file that may hold pieces of others as well.
pub fn json_pieces(b: &[u8]) -> Vec<serde_json::Value> {
    let mut v = Vec::new();
    let mut k = 0;
    while k < b.len() {
        if b[k] == b'{' {
            let mut s = serde_json::Deserializer::from_slice(&b[k..]).into_iter::<serde_json::Value>();
            if let Some(Ok(x)) = s.next() {
                if x.get("moslqo").is_some() {
                    k += s.byte_offset();
                    v.push(x);
                    continue;
                }
            }
        }
        k += 1;
    }
    v
}

pub fn args(i: &Inv, root: &str) -> Vec<String> {
    let p = |s: &str| if i.absolute { format!("{root}/{s}") } else { s.to_string() };
    let mut a = Vec::new();
    if i.batch {
        a.push("--batch_input_csv".into());
        a.push(p(&i.list));
    } else if let Some((r, d)) = i.pairs.first() {
        a.push("--reference_file".into());
        a.push(r.clone());
        a.push("--degraded_file".into());
        a.push(d.clone());
    }
    if let Some(c) = &i.csv {
        a.push("--results_csv".into());
        a.push(p(c));
    }
    if let Some(c) = &i.json {
        a.push("--output_debug".into());
        a.push(p(c));
    }
    if i.verbose {
        a.push("--verbose".into());
    }
    a.push("--search_window_radius".into());
    a.push(i.cfg.window.to_string());
    if i.cfg.mode == "fb" {
        a.push("fullband".into());
        if i.cfg.model != DEFAULT_MODEL {
            a.push("--similarity_to_quality_model".into());
            a.push(p(&i.cfg.model));
        }
    } else {
        a.push("wideband".into());
        if i.cfg.mode == "wbu" {
            a.push("--use_unscaled_speech_mos_mapping".into());
        }
    }
    a
}

fn target() -> String { std::env::var("VSIM_TARGET").unwrap_or_else(|_| "/verif/target".into()) }

struct Started {
    child: std::process::Child,
    base: String,
    req: i32,
    grant: i32,
}
fn start(k: usize, i: &Inv, p: &Prepared, dir: &str, baton: bool) -> Started {
    let base = format!("{dir}/inv{k}");
    let mut text = format!("root {}\ntrace {}.trace\ndeny 1\n{}{}", sim::enc(&p.dir), sim::enc(&base), i.noise.text(), sim::fault_text(&i.faults));
    let (mut req, mut grant) = ([-1i32; 2], [-1i32; 2]);
    if baton {
        unsafe {
            assert!(libc::pipe2(req.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            assert!(libc::pipe2(grant.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        }
        text.push_str("baton 700 701\n");
    }
    std::fs::write(format!("{base}.plan"), text).unwrap();
    let f = |s: &str| std::fs::OpenOptions::new().create(true).append(true).open(format!("{base}.{s}")).unwrap();
    let mut c = Command::new(format!("{}/release/visqol", target()));
    c.args(args(i, &p.dir)).current_dir(&p.dir).env_clear().env("PATH", "/usr/bin:/bin").env("LD_PRELOAD", format!("{}/libsimio.so", target())).env("SIM_PLAN", format!("{base}.plan"));
    if i.noise.env {
        for (k, v) in env_noise(i.noise.seed) {
            c.env(k, v);
        }
    }
    if i.noise.heap != 0 {
        c.env("GLIBC_TUNABLES", format!("glibc.malloc.perturb={}", i.noise.heap));
    }
    c.stdin(Stdio::null()).stdout(f("out")).stderr(f("err"));
    let (rw, gr) = (req[1], grant[0]);
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 120, rlim_max: 125 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            if !baton {
                libc::alarm(600);
            } else {
                libc::dup2(rw, 700);
                libc::dup2(gr, 701);
            }
            Ok(())
        });
    }
    let child = c.spawn().expect("the command line tool does not start");
    if baton {
        unsafe {
            libc::close(req[1]);
            libc::close(grant[0]);
        }
    }
    Started { child, base, req: req[0], grant: grant[1] }
}
fn ended(s: &mut Started) -> InvRec {
    let st = s.child.wait().unwrap();
    InvRec {
        code: st.code().unwrap_or(-1),
        signal: st.signal().unwrap_or(0),
        stdout: std::fs::read(format!("{}.out", s.base)).unwrap_or_default(),
        stderr: std::fs::read(format!("{}.err", s.base)).unwrap_or_default(),
        ops: sim::parse_trace(&std::fs::read(format!("{}.trace", s.base)).unwrap_or_default()),
        outs: BTreeMap::new(),
    }
}
/// The file a name leads to.
pub fn target_of<'a>(p: &'a CliPlan, f: &'a str) -> &'a str { p.links.iter().find(|(l, _, _)| l == f).map_or(f, |(_, t, _)| t) }
fn outputs(p: &CliPlan, dir: &str) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    for i in &p.invs {
        for f in [&i.csv, &i.json].into_iter().flatten() {
            m.insert(f.clone(), std::fs::read(format!("{dir}/{f}")).ok());
            let t = target_of(p, f);
            m.entry(t.to_string()).or_insert_with(|| std::fs::read(format!("{dir}/{t}")).ok());
        }
    }
    m
}

pub fn exec_cli(plan: &CliPlan, dir: &str) -> CliHist {
    let noise = plan.invs.first().map(|i| i.noise.clone()).unwrap_or_default();
    let p = lay_out(dir, &plan.contents, &plan.files, &noise);
    for i in &plan.invs {
        if i.batch && !i.list.contains("missing") {
            let t = i.list_text.clone().unwrap_or_else(|| list_of(&i.pairs));
            std::fs::write(format!("{}/{}", p.dir, i.list), t).unwrap();
        }
        for f in [&i.csv, &i.json].into_iter().flatten() {
            if let Some(k) = f.rfind('/') {
                if !f.contains("missing") {
                    std::fs::create_dir_all(format!("{}/{}", p.dir, &f[..k])).unwrap();
                }
            }
        }
    }
    for (l, t, hard) in &plan.links {
        for f in [l, t] {
            if let Some(k) = f.rfind('/') {
                std::fs::create_dir_all(format!("{}/{}", p.dir, &f[..k])).unwrap();
            }
        }
        let (l, t) = (format!("{}/{l}", p.dir), format!("{}/{t}", p.dir));
        let _ = if *hard { std::fs::hard_link(&t, &l) } else { std::os::unix::fs::symlink(&t, &l) };
    }
    let outs0 = outputs(plan, &p.dir);
    let tree0 = tree(&p.dir);
    let mut invs = Vec::new();
    let mut choices = Vec::new();
    let mut stuck = false;
    if !plan.concurrent {
        for (k, i) in plan.invs.iter().enumerate() {
            let mut s = start(k, i, &p, dir, false);
            let mut r = ended(&mut s);
            r.outs = outputs(plan, &p.dir);
            invs.push(r);
        }
    } else {
        let mut ps: Vec<Started> = Vec::new();
        let mut waiting: Vec<bool> = Vec::new();
        // true: it asks for the next operation; false: it is gone
        let asks = |s: &Started| -> bool {
            let mut c = 0u8;
            loop {
                let n = unsafe { libc::read(s.req, &mut c as *mut u8 as *mut _, 1) };
                if n == 1 {
                    return true;
                }
                if n == 0 {
                    return false;
                }
            }
        };
        for (k, i) in plan.invs.iter().enumerate() {
            let s = start(k, i, &p, dir, true);
            waiting.push(asks(&s));
            ps.push(s);
        }
        let mut r = Rng::new(plan.sched_seed);
        let mut pos = 0;
        let mut burst = 0usize;
        let mut last = 0usize;
        while waiting.iter().any(|w| *w) {
            let alive: Vec<usize> = (0..ps.len()).filter(|k| waiting[*k]).collect();
            let k = match &plan.choices {
                Some(c) => {
                    let k = c.get(pos).map(|k| *k as usize).filter(|k| *k < ps.len() && waiting[*k]);
                    k.unwrap_or(alive[0])
                }
                None => {
                    if burst > 0 && waiting[last] {
                        burst -= 1;
                        last
                    } else {
                        burst = if r.chance(30) { r.below(12) } else { 0 };
                        *r.pick(&alive)
                    }
                }
            };
            last = k;
            pos += 1;
            choices.push(k as u8);
            if choices.len() > 200_000 {
                stuck = true;
                break;
            }
            unsafe { libc::write(ps[k].grant, b"g".as_ptr() as *const _, 1) };
            waiting[k] = asks(&ps[k]);
        }
        for s in ps.iter_mut() {
            if stuck {
                let _ = s.child.kill();
            }
            unsafe {
                libc::close(s.req);
                libc::close(s.grant);
            }
            let mut rec = ended(s);
            rec.outs = outputs(plan, &p.dir);
            invs.push(rec);
        }
    }
    CliHist { outs0, invs, tree0, tree1: tree(&p.dir), choices, stuck }
}

impl Wk {
    pub fn cli(&self, p: &CliPlan) -> CliHist {
        let d = self.scratch.dir();
        let r = exec_cli(p, &d);
        self.scratch.done(&d);
        r
    }
    /// What one fault-free invocation on one pair reports.
    pub fn single(&self, cfg: &Cfg, verbose: bool, pair: &(String, String), plan: &CliPlan) -> Single {
        let find = |n: &str| plan.files.iter().find(|(f, _)| f == n).map(|(_, c)| plan.contents[*c].clone());
        let (r, d, m) = (find(&pair.0), find(&pair.1), find(&cfg.model));
        let key = serde_json::to_string(&("single", cfg, verbose, pair, &r, &d, if cfg.mode == "fb" { m.clone() } else { None })).unwrap();
        self.cached(&key, || {
            self.oracle_runs.set(self.oracle_runs.get() + 1);
            let mut p = CliPlan { contents: vec![], files: vec![], invs: vec![], concurrent: false, sched_seed: 0, choices: None, links: vec![] };
            let mut add = |n: &str, c: Option<Content>| {
                if let Some(c) = c {
                    if p.files.iter().all(|(f, _)| f != n) {
                        p.contents.push(c);
                        p.files.push((n.to_string(), p.contents.len() - 1));
                    }
                }
            };
            add(&pair.0, r);
            add(&pair.1, d);
            add(&cfg.model, m);
            p.invs.push(Inv {
                cfg: cfg.clone(),
                pairs: vec![pair.clone()],
                batch: false,
                list: "list.csv".into(),
                list_text: None,
                csv: Some("single-out.csv".into()),
                json: Some("single-out.json".into()),
                verbose,
                faults: vec![],
                noise: Noise::default(),
                absolute: false,
            });
            let h = self.cli(&p);
            let i = &h.invs[0];
            let csv = i.outs["single-out.csv"].clone().unwrap_or_default();
            let json = i.outs["single-out.json"].clone().unwrap_or_default();
            Single {
                code: if i.signal != 0 { 1000 + i.signal } else { i.code },
                body: body(&i.stdout),
                rows: parse_csv(&csv),
                json: json_stream(&json).unwrap_or_default(),
                scores: scores(&i.stdout),
            }
        })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
    pub code: i32,
    pub body: Vec<String>,
    pub rows: Vec<Vec<String>>,
    pub json: Vec<serde_json::Value>,
    pub scores: Vec<f64>,
}
