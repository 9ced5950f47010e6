//! Checks on invocations of the command line tool: C04, C07, C08, C10-C16.

use crate::audio::*;
use crate::checks_lib::{count_notes, diff, model_bad, model_damage};
use crate::cli::*;
use crate::gen::*;
use crate::plan::*;
use crate::rng::{hash, mix, Rng};
use crate::sim::{Fault, Noise, Op, F};
use crate::world::Cfg;
use std::collections::BTreeMap;

fn reg(contents: &mut Vec<Content>, c: Content) -> usize {
    if let Some(k) = contents.iter().position(|x| *x == c) {
        return k;
    }
    contents.push(c);
    contents.len() - 1
}
fn empty() -> CliPlan { CliPlan { contents: vec![Content::Model(vec![])], files: vec![(DEFAULT_MODEL.into(), 0)], invs: vec![], concurrent: false, sched_seed: 0, choices: None, links: vec![] } }

/// Names a user may well have.
fn name(r: &mut Rng, k: usize, plain: bool) -> String {
    if plain {
        return format!("f{k}.wav");
    }
    match r.below(10) {
        0 => format!("a b {k}.wav"),
        1 => format!("x,y{k}.wav"),
        2 => format!("q\"uo\"te{k}.wav"),
        3 => format!("sub/dir/f{k}.wav"),
        4 => format!("gr\u{fc}n{k}\u{97f3}.wav"),
        5 => format!(" lead{k} .wav"),
        6 => format!("line\nfeed{k}.wav"),
        7 => format!("'ap{k};#.wav"),
        _ => format!("f{k}.wav"),
    }
}
struct Stock {
    refs: Vec<String>,
    degs: Vec<String>,
    gens: Vec<Gen>,
}
/// Puts a small family of recordings into a plan.
fn stock(r: &mut Rng, w: &Wk, p: &mut CliPlan, base: u64, scenes: usize, plain: bool) -> Stock {
    let which = r.below(scenes) as u64;
    let mut sc = scene(w.seed, base + which, true);
    // recordings long enough for debug records of more than one buffer
    if r.chance(if base == 3800 { 12 } else { 5 }) {
        let k = 5 + which as usize % 7;
        for g in &mut sc {
            g.frames *= k;
            if let Some(d) = &mut g.deg {
                d.frames *= k;
            }
        }
    }
    let mut s = Stock { refs: vec![], degs: vec![], gens: sc.clone() };
    let twins = r.chance(12);
    for (k, g) in sc.iter().enumerate() {
        let n = name(r, k, plain);
        let c = if twins && k == 3 { near(r, &sc[2]) } else { wav(g) };
        let c = reg(&mut p.contents, c);
        p.files.push((n.clone(), c));
        if k < 2 {
            s.refs.push(n)
        } else {
            s.degs.push(n)
        }
    }
    s
}
fn cli_cfg(r: &mut Rng, fb: usize) -> Cfg {
    let mut c = cfg(r, fb);
    c.window = *r.pick(&[0, 1, 2, 5]);
    c
}
fn pairs(r: &mut Rng, s: &Stock, n: usize) -> Vec<(String, String)> { (0..n).map(|_| (r.pick(&s.refs).clone(), r.pick(&s.degs).clone())).collect() }

/// The same invocation, first of its kind, without disturbances.
fn calm(w: &Wk, p: &CliPlan, k: usize) -> InvRec {
    let mut i = p.invs[k].clone();
    i.faults.clear();
    i.noise.eintr = 0;
    let q = CliPlan { contents: p.contents.clone(), files: p.files.iter().filter(|(f, _)| !f.starts_with("pub/")).cloned().collect(), invs: vec![i], concurrent: false, sched_seed: 0, choices: None, links: p.links.clone() };
    let key = serde_json::to_string(&("calm", &q)).unwrap();
    w.cached(&key, || w.cli(&q).invs.remove(0))
}
/// The rows an invocation has to work on, or why its list is bad.
fn rows_of(i: &Inv) -> Result<Vec<(String, String)>, String> {
    match (&i.list_text, i.batch) {
        (Some(t), true) => {
            let v = parse_csv(t.as_bytes());
            let mut o = vec![];
            for r in v.iter().skip(1) {
                if r.len() == 1 && r[0].is_empty() {
                    continue;
                }
                if r.len() != 2 {
                    return Err(format!("the list has a row of {} fields", r.len()));
                }
                o.push((r[0].clone(), r[1].clone()));
            }
            Ok(o)
        }
        _ => Ok(i.pairs.clone()),
    }
}
struct Expect {
    /// Why no report may come of it.
    bad: Option<String>,
    singles: Vec<Single>,
    pairs: Vec<(String, String)>,
}
impl Expect {
    fn body(&self) -> Vec<String> { self.singles.iter().flat_map(|s| s.body.clone()).collect() }
    fn json(&self) -> Vec<serde_json::Value> { self.singles.iter().flat_map(|s| s.json.clone()).collect() }
    fn scores(&self) -> Vec<f64> { self.singles.iter().flat_map(|s| s.scores.clone()).collect() }
    fn rows(&self) -> Vec<Vec<String>> {
        let mut v = vec![vec!["reference".to_string(), "degraded".into(), "moslqo".into()]];
        for (p, s) in self.pairs.iter().zip(&self.singles) {
            v.push(vec![p.0.clone(), p.1.clone(), s.rows.get(1).and_then(|r| r.last().cloned()).unwrap_or_default()]);
        }
        v
    }
}
fn expect(w: &Wk, p: &CliPlan, i: &Inv) -> Expect {
    match rows_of(i) {
        Err(e) => Expect { bad: Some(e), singles: vec![], pairs: vec![] },
        Ok(pairs) => {
            let mut bad = None;
            let mut singles = vec![];
            if i.batch && i.list.contains("missing") {
                bad = Some("there is no list".to_string());
            }
            for pr in &pairs {
                let s = w.single(&i.cfg, i.verbose, pr, p);
                if s.code != 0 {
                    bad = bad.or(Some(format!("comparing {pr:?} alone fails (status {})", s.code)));
                }
                singles.push(s);
            }
            Expect { bad, singles, pairs }
        }
    }
}
/// Did this invocation report everything it was asked for?
fn complete(i: &Inv, rec: &InvRec, before: &BTreeMap<String, Option<Vec<u8>>>, e: &Expect) -> Result<(), String> {
    let b = body(&rec.stdout);
    let x = e.body();
    if b != x {
        let k = b.iter().zip(&x).position(|(a, b)| a != b).unwrap_or(b.len().min(x.len()));
        return Err(format!("standard output: line {k} is {:?} instead of {:?} ({} lines for {})", b.get(k), x.get(k), b.len(), x.len()));
    }
    if scores(&rec.stdout).len() != e.pairs.len() {
        return Err(format!("{} scores for {} pairs", scores(&rec.stdout).len(), e.pairs.len()));
    }
    if let Some(f) = &i.csv {
        let c = rec.outs.get(f).cloned().flatten().ok_or("the results file does not exist")?;
        let rows = parse_csv(&c);
        let x = e.rows();
        if rows != x {
            let k = rows.iter().zip(&x).position(|(a, b)| a != b).unwrap_or(rows.len().min(x.len()));
            return Err(format!("results file: row {k} is {:?} instead of {:?} ({} rows for {})", rows.get(k), x.get(k), rows.len(), x.len()));
        }
        if !c.is_empty() && c.last() != Some(&b'\n') {
            return Err("the last row of the results file is not terminated".into());
        }
    }
    if let Some(f) = &i.json {
        let new = rec.outs.get(f).cloned().flatten().unwrap_or_default();
        let old = before.get(f).cloned().flatten().unwrap_or_default();
        if !new.starts_with(&old) {
            return Err("the debug file lost what it held".into());
        }
        let got = json_stream(&new[old.len()..]).map_err(|m| format!("debug file: what was appended does not parse: {m}"))?;
        if got != e.json() {
            return Err(format!("debug file: {} records appended for {} pairs, or different ones", got.len(), e.pairs.len()));
        }
        if rec.outs.get(f).cloned().flatten().is_none() && !e.pairs.is_empty() {
            return Err("the debug file does not exist".into());
        }
    }
    Ok(())
}
fn class_of(e: &str) -> String { e.split(':').next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(40).collect() }
fn basics(o: &mut RunOut, h: &CliHist) {
    let mut f = 0u64;
    for i in &h.invs {
        count_notes(o, &i.ops);
        o.add("sim.invocations", 1);
        o.add("sim.scores_printed", scores(&i.stdout).len() as u64);
        o.add("sim.failed_invocations", (i.code != 0 && i.signal == 0) as u64);
        o.add("sim.killed_invocations", (i.signal != 0) as u64);
        let outs: Vec<_> = i.outs.iter().map(|(f, c)| (f, c.as_ref().map(|c| (c.len(), hash(c))))).collect();
        let t = serde_json::to_string(&(i.code, i.signal, String::from_utf8_lossy(&i.stdout), outs, &i.ops)).unwrap();
        f = mix(f ^ hash(t.as_bytes()));
        if let Ok(d) = std::env::var("VSIM_DUMP") {
            use std::io::Write;
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(d).and_then(|mut x| writeln!(x, "{t}"));
        }
    }
    o.print = f ^ hash(&h.choices);
}
/// An input operation that failed in a way the tool cannot ignore.
fn input_failure(p: &CliPlan, i: &Inv, rec: &InvRec) -> Option<String> {
    let outs = [i.csv.clone(), i.json.clone()];
    let mut got: BTreeMap<&str, u64> = BTreeMap::new();
    for op in &rec.ops {
        let is_in = !op.file.starts_with('<') && !outs.iter().flatten().any(|f| *f == op.file);
        if !is_in {
            continue;
        }
        if op.kind == "open" {
            got.insert(&op.file, 0);
        }
        if op.kind == "read" && op.ret > 0 {
            *got.entry(&op.file).or_default() += op.ret as u64;
        }
        if ["errno", "errnos", "dead"].contains(&op.note.as_str()) && op.ret < 0 && -op.ret as i32 != libc::EINTR && (op.kind == "open" || op.kind == "read") {
            return Some(format!("{} of {} failed with errno {}", op.kind, op.file, -op.ret));
        }
        if op.note == "eof" && op.file.ends_with(".wav") {
            if let Some((_, c)) = p.files.iter().find(|(f, _)| *f == op.file) {
                let (g, n) = (got.get(op.file.as_str()).copied().unwrap_or(0), p.contents[*c].bytes().len() as u64);
                if g < n {
                    return Some(format!("{} ended after {g} of {n} bytes", op.file));
                }
            }
        }
    }
    None
}
fn output_failure(i: &Inv, rec: &InvRec) -> Option<String> {
    for op in &rec.ops {
        let is_out = [&i.csv, &i.json].into_iter().flatten().any(|f| *f == op.file);
        if is_out && (op.kind == "open" || op.kind == "write") && op.ret < 0 && -op.ret as i32 != libc::EINTR {
            return Some(format!("{} of {} failed with errno {}", op.kind, op.file, -op.ret));
        }
    }
    None
}
fn any_fault(rec: &InvRec) -> bool { rec.ops.iter().any(|o| ["errno", "errnos", "dead", "eof", "eintr", "full", "torn", "crash", "crasha", "nomem"].contains(&o.note.as_str())) }
/// An allocation was refused: most end the process, as a kill would.
fn starved(rec: &InvRec) -> Option<u64> { rec.ops.iter().find(|o| o.kind == "NOMEM").map(|o| o.n) }
/// Memory runs out somewhere behind an operation.
fn nomem(r: &mut Rng, ops: &[Op]) -> Option<Fault> {
    let c: Vec<&Op> = ops.iter().filter(|o| o.kind != "close").collect();
    if c.is_empty() {
        return None;
    }
    // the end, where outputs are written, more often; allocations are dense around comparisons and sparse elsewhere
    let op = if r.chance(50) { c[c.len() - 1 - r.below(c.len().min(12))] } else { *r.pick(&c) };
    let most = *r.pick(&[4usize, 30, 300, 5000]);
    let k = 1 + r.below(most);
    Some(Fault { op: op.n, what: F::NoMem(k as u64) })
}
fn op_sig(o: &Op) -> u64 { mix(hash(o.kind.as_bytes()) ^ hash(o.file.as_bytes()) ^ hash(o.note.as_bytes()).rotate_left(7) ^ mix(o.n)) }
fn reach_faults(o: &mut RunOut, rec: &InvRec) {
    for op in &rec.ops {
        if op.kind == "NOMEM" {
            o.reached.push(mix(op.n ^ 0x3e3) ^ mix(op.arg as u64));
        } else if op.note != "-" && op.note != "chunk" && op.note != "eintr" && op.kind != "FLAG" {
            o.reached.push(op_sig(op) ^ mix(op.ret as u64));
        }
    }
}
fn is_input(i: &Inv, o: &Op) -> bool { !o.file.starts_with('<') && ![&i.csv, &i.json].into_iter().flatten().any(|f| *f == o.file) && !["PUB", "FLAG", "MARK", "NOMEM"].contains(&o.kind.as_str()) }

fn old_table(r: &mut Rng) -> Option<Content> {
    Some(Content::Text(match r.below(6) {
        0 | 1 => return None,
        2 => "reference,degraded,moslqo\nold.wav,older.wav,1.5\n".into(),
        3 => return Some(Content::Bulk(1, 1000 + r.below(20_000))),
        4 if r.chance(25) => return Some(Content::Bulk(1, bulk(r))),
        4 => String::new(),
        _ => "not a table at all".into(),
    }))
}
fn old_log(r: &mut Rng) -> Option<Content> {
    Some(Content::Text(match r.below(7) {
        0 | 1 => return None,
        2 => "{\n  \"moslqo\": 1.5\n}\n".into(),
        3 => "{\"a\": [1,2,3".into(),
        4 => return Some(Content::Bulk(0, 600 + r.below(40_000))),
        5 if r.chance(40) => return Some(Content::Bulk(0, bulk(r))),
        5 => String::new(),
        _ => "free text without a line end".into(),
    }))
}
/// Sizes of files that have grown for a while.
fn bulk(r: &mut Rng) -> usize { *r.pick(&[66_000usize, 132_000, 270_000, 530_000, 1_060_000, 2_200_000, 4_300_000, 10_600_000]) }
/// The name given for an output file may lead elsewhere. A hard link needs a file to link to.
fn linked(r: &mut Rng, p: &mut CliPlan, f: &str, chance: usize) {
    if r.chance(chance) {
        let t = format!("elsewhere/{}", f.rsplit('/').next().unwrap());
        let mut exists = false;
        for x in p.files.iter_mut().filter(|x| x.0 == f) {
            x.0 = t.clone();
            exists = true;
        }
        p.links.push((f.to_string(), t, exists && r.chance(40)));
    }
}
fn outputs_for(r: &mut Rng, p: &mut CliPlan, i: &mut Inv, csv: usize, json: usize) {
    if r.chance(csv) {
        let f = r.pick(&["out.csv", "res/out.csv", "my results.csv"]).to_string();
        if let Some(t) = old_table(r) {
            let c = reg(&mut p.contents, t);
            p.files.push((f.clone(), c));
        }
        linked(r, p, &f, 12);
        i.csv = Some(f);
    }
    if r.chance(json) {
        let f = r.pick(&["debug.json", "log/debug.json"]).to_string();
        if let Some(t) = old_log(r) {
            let c = reg(&mut p.contents, t);
            p.files.push((f.clone(), c));
        }
        linked(r, p, &f, 12);
        i.json = Some(f);
    }
}
fn list_variant(r: &mut Rng, pairs: &[(String, String)]) -> Option<String> {
    let t = list_of(pairs);
    if pairs.iter().any(|(a, b)| a.contains('\n') || b.contains('\n')) {
        return None;
    }
    match r.below(8) {
        0 => Some(t.replace('\n', "\r\n")),
        1 if !pairs.is_empty() => Some(t.trim_end_matches('\n').to_string()),
        2 => Some(t.replace('\n', "\n\n")),
        3 => {
            let mut o = String::from("\"reference\",\"degraded\"\n");
            for (a, b) in pairs {
                o.push_str(&format!("\"{}\",\"{}\"\n", a.replace('"', "\"\""), b.replace('"', "\"\"")));
            }
            Some(o)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// C04 (tool)

pub fn c04_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let plain = r.chance(60);
    let s = stock(r, w, &mut p, 3000, 6, plain);
    let n = r.range(1, 4);
    let batch = r.chance(65);
    let mut i = inv(&cli_cfg(r, 30), pairs(r, &s, if batch { n } else { 1 }), batch);
    i.verbose = r.chance(30);
    i.absolute = r.chance(25);
    outputs_for(r, &mut p, &mut i, 70, 70);
    i.noise = Noise {
        seed: r.next() >> 1,
        chunk: 1 + r.below(5) as u8,
        chunk_writes: r.chance(80),
        eintr: if r.chance(50) { *r.pick(&[5, 30, 200]) } else { 0 },
        eintr_mask: *r.pick(&[2u8, 6, 6, 4, 7, 1]),
        clock: r.chance(85),
        rand: r.chance(85),
        heap: if r.chance(70) { r.below(256) as u8 } else { 0 },
        env: r.chance(60),
        meta: r.chance(60),
    };
    p.invs.push(i);
    Plan::Cli(p)
}
pub fn c04_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let mut before = h.outs0.clone();
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        let e = expect(w, p, i);
        let hit = rec.ops.iter().any(|op| op.note == "eintr" && op.kind == "read");
        let may_fail = hit && rec.code != 0 && rec.signal == 0;
        if !may_fail && e.bad.is_none() {
            if rec.code != 0 || rec.signal != 0 {
                o.viol = viol("status", format!("invocation {k} ended with status {} signal {} although nothing failed; stderr: {}", rec.code, rec.signal, tail(&rec.stderr)));
            } else if let Err(m) = complete(i, rec, &before, &e) {
                o.viol = viol(&format!("differs:{}", class_of(&m)), format!("invocation {k}: {m}"));
            } else if let Some(f) = &i.csv {
                // byte for byte what a calm run writes
                let c = calm(w, p, k);
                if c.outs.get(f) != rec.outs.get(f) {
                    o.viol = viol("differs:table bytes", format!("invocation {k}: {f} differs from what an undisturbed run writes"));
                }
            }
            o.nontrivial = rec.ops.iter().any(|o| o.note == "chunk" || o.note == "eintr");
        }
        o.reached.push(rec.ops.iter().fold(0, |a, op| mix(a ^ hash(op.kind.as_bytes()) ^ mix(op.ret as u64))));
        before = rec.outs.clone();
        if o.viol.is_some() {
            break;
        }
    }
    o
}
fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).trim().to_string();
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(300)).collect()
}

// ---------------------------------------------------------------------------------------------
// C07 (tool)

pub fn c07_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let s = stock(r, w, &mut p, 3100, 6, true);
    let contents: Vec<usize> = p.files[1..].iter().map(|f| f.1).collect();
    let ninv = r.range(1, 2);
    let mut np = 0;
    for _ in 0..ninv {
        let n = r.range(1, 4);
        let mut ps = pairs(r, &s, n);
        if r.chance(60) {
            let x = ps[0].clone();
            ps.push(x);
        }
        let mut i = inv(&cli_cfg(r, 20), ps, true);
        i.csv = r.chance(40).then(|| "out.csv".into());
        i.noise = noise_io(r);
        i.list = format!("list{}.csv", p.invs.len());
        p.invs.push(i);
        let k = p.invs.len() - 1;
        let base = calm(w, &p, k);
        let cand: Vec<&Op> = base.ops.iter().filter(|o| o.file.ends_with(".wav") && ["open", "read", "close", "stat", "seek"].contains(&o.kind.as_str())).collect();
        let mut faults = vec![];
        if !cand.is_empty() {
            for _ in 0..r.range(1, 4) {
                let at = *r.pick(&cand);
                let (f, cs) = if r.chance(50) { (r.pick(&s.refs).clone(), &contents[..2]) } else { (r.pick(&s.degs).clone(), &contents[2..]) };
                let name = format!("pub/{np}.wav");
                np += 1;
                p.files.push((name.clone(), *r.pick(cs)));
                faults.push(Fault { op: at.n, what: F::Publish(name, f) });
            }
        }
        p.invs[k].faults = faults;
    }
    Plan::Cli(p)
}
pub fn c07_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    // what each name currently holds
    let mut now: BTreeMap<String, usize> = p.files.iter().cloned().collect();
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        let rows = i.pairs.clone();
        let base = calm(w, p, k);
        let opens = |ops: &[Op]| ops.iter().filter(|o| o.kind == "open" && o.file.ends_with(".wav")).count();
        let greedy = opens(&base.ops) <= 2 * rows.len();
        // the first and last operation that belongs to each row
        let mut span: Vec<Option<(u64, u64)>> = vec![None; rows.len()];
        if greedy {
            let mut at = 0usize;
            let mut left: Vec<&str> = rows.first().map(|(a, b)| vec![a.as_str(), b.as_str()]).unwrap_or_default();
            for op in rec.ops.iter().filter(|o| o.file.ends_with(".wav") && o.kind != "PUB") {
                if op.kind == "open" {
                    loop {
                        if let Some(j) = left.iter().position(|f| *f == op.file) {
                            left.remove(j);
                            break;
                        }
                        if at + 1 >= rows.len() {
                            break;
                        }
                        at += 1;
                        left = vec![&rows[at].0, &rows[at].1];
                    }
                }
                let s = &mut span[at];
                *s = Some((s.map_or(op.n, |x| x.0), op.n));
            }
        }
        let pubs: Vec<(u64, String, usize)> = rec
            .ops
            .iter()
            .filter(|op| op.kind == "PUB" && op.ret == 0)
            .filter_map(|op| p.files.iter().find(|(f, _)| *f == op.note).map(|(_, c)| (op.n, op.file.clone(), *c)))
            .collect();
        let sc = scores(&rec.stdout);
        if rec.signal != 0 || (rec.code == 0 && sc.len() != rows.len()) {
            o.viol = viol("incomplete", format!("invocation {k}: status {} signal {}, {} scores for {} rows", rec.code, rec.signal, sc.len(), rows.len()));
            break;
        }
        let mut any_bad = false;
        for (row, pair) in rows.iter().enumerate() {
            // versions that may have been in place: not gone before the previous row ended, not
            // later than the first operation of the next one
            let from = (0..row).rev().find_map(|j| span[j]).map_or(0, |s| s.1);
            let to = (row + 1..rows.len()).find_map(|j| span[j]).map_or(u64::MAX, |s| s.0);
            let versions = |f: &str| -> Vec<usize> {
                let mut v = vec![now[f]];
                for (n, file, c) in &pubs {
                    if file == f {
                        if *n <= from {
                            v.clear();
                        }
                        if *n <= to {
                            v.push(*c);
                        }
                    }
                }
                v
            };
            let (vr, vd) = (versions(&pair.0), versions(&pair.1));
            let mut ok = false;
            let mut tried = vec![];
            for a in &vr {
                for b in &vd {
                    let mut q = p.clone();
                    q.files.retain(|(f, _)| *f != pair.0 && *f != pair.1);
                    q.files.push((pair.0.clone(), *a));
                    if pair.0 != pair.1 {
                        q.files.push((pair.1.clone(), *b));
                    }
                    let s = w.single(&i.cfg, i.verbose, pair, &q);
                    any_bad |= s.code != 0;
                    tried.push(format!("{:?}", s.scores));
                    if rec.code == 0 && s.code == 0 && s.scores.first() == sc.get(row) {
                        ok = true;
                    }
                }
            }
            if rec.code == 0 && !ok {
                o.viol = viol("stale-or-mixed", format!("invocation {k} row {row} {pair:?} reported {:?} but the versions in place during that comparison give {}", sc.get(row), tried.join(" or ")));
                break;
            }
        }
        if rec.code != 0 && !any_bad {
            o.viol = o.viol.or_else(|| viol("failed", format!("invocation {k} ended with status {} although every version can be compared; stderr {}", rec.code, tail(&rec.stderr))));
        }
        o.nontrivial |= !pubs.is_empty();
        o.reached.push(rec.ops.iter().filter(|x| x.kind == "PUB" || x.kind == "open").fold(0, |a, x| mix(a ^ hash(x.file.as_bytes()) ^ hash(x.note.as_bytes()))));
        for (_, f, c) in pubs {
            now.insert(f, c);
        }
        if o.viol.is_some() {
            break;
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C08 (tool)

pub fn c08_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let s = stock(r, w, &mut p, 3200, 6, true);
    for _ in 0..r.range(1, 2) {
        let n = rows(r, &[1, 2, 3]);
        let batch = r.chance(50);
        let mut ps = pairs(r, &s, if batch { n } else { 1 });
        if r.chance(15) {
            ps[0].1 = "missing.wav".into();
        } else if r.chance(15) {
            let c = exotic(r, &s.gens[0]);
            let c = reg(&mut p.contents, c);
            p.files.push((format!("form{c}.wav"), c));
            ps[0].0 = format!("form{c}.wav");
        }
        let mut i = inv(&cli_cfg(r, 40), ps, batch);
        i.verbose = r.chance(30);
        i.absolute = r.chance(30);
        i.noise = noise_io(r);
        i.noise.env = r.chance(50);
        i.noise.clock = r.chance(50);
        if p.invs.is_empty() {
            outputs_for(r, &mut p, &mut i, 60, 60);
        } else {
            i.csv = r.chance(50).then(|| "second.csv".into());
        }
        i.list = format!("list{}.csv", p.invs.len());
        p.invs.push(i);
        let k = p.invs.len() - 1;
        if r.chance(60) {
            let base = calm(w, &p, k);
            if !base.ops.is_empty() {
                for _ in 0..r.range(1, 2) {
                    let op = r.pick(&base.ops).clone();
                    let f = if r.chance(20) { Fault { op: op.n, what: if r.chance(50) { F::Crash } else { F::CrashAfter } } } else { fault_for(r, op.n, &op.kind, op.arg) };
                    p.invs[k].faults.push(f);
                }
            }
        }
    }
    Plan::Cli(p)
}
pub fn c08_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let named: Vec<&String> = p.invs.iter().flat_map(|i| [&i.csv, &i.json]).flatten().chain(p.links.iter().map(|l| &l.1)).collect();
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        let own: Vec<&String> = [&i.csv, &i.json].into_iter().flatten().collect();
        for op in &rec.ops {
            if op.kind == "FLAG" {
                o.viol = viol(&format!("side-effect:{}", op.note), format!("invocation {k} attempted {} on {} ({})", op.note, op.file, op.arg));
            } else if (op.kind == "mod" || op.kind == "write" || (op.kind == "open" && (op.arg & 3 != 0 || op.arg & (libc::O_CREAT | libc::O_TRUNC) as i64 != 0))) && !op.file.starts_with('<') && !own.contains(&&op.file) {
                o.viol = viol("side-effect", format!("invocation {k} performed {} on {}, which it was not asked to write", op.kind, op.file));
            }
        }
        o.nontrivial |= rec.signal != 0 || rec.code == 0 || any_fault(rec);
        o.reached.push(rec.ops.iter().fold(0, |a, op| mix(a ^ hash(op.kind.as_bytes()) ^ hash(op.file.as_bytes()) ^ hash(op.note.as_bytes()))));
    }
    if o.viol.is_none() {
        let mut a = h.tree0.clone();
        let mut b = h.tree1.clone();
        for n in &named {
            a.remove(*n);
            b.remove(*n);
        }
        if a != b {
            o.viol = viol("tree-changed", format!("files changed: {:?}", diff(&a, &b)));
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let plain = r.chance(70);
    let s = stock(r, w, &mut p, 3300, 8, plain);
    for _ in 0..if r.chance(80) { 1 } else { 2 } {
        let batch = r.chance(65);
        let n = if batch { rows(r, &[0usize, 1, 2, 2, 3, 4, 12]) } else { 1 };
        let mut ps = pairs(r, &s, n);
        if r.chance(12) && !ps.is_empty() {
            let k = r.below(ps.len());
            ps[k].0 = "missing.wav".into();
        }
        let mut i = inv(&cli_cfg(r, 30), ps, batch);
        i.verbose = r.chance(40);
        i.absolute = r.chance(20);
        i.noise = if r.chance(50) { Noise::default() } else { noise_io(r) };
        i.noise.chunk_writes = r.chance(40);
        if p.invs.is_empty() {
            outputs_for(r, &mut p, &mut i, 75, 75);
            if r.chance(6) {
                i.csv = Some("missing-dir/out.csv".into());
            }
            if r.chance(6) {
                i.json = Some("missing-dir/debug.json".into());
            }
        } else {
            i.csv = p.invs[0].csv.clone();
            i.json = p.invs[0].json.clone();
        }
        i.list = format!("list{}.csv", p.invs.len());
        p.invs.push(i);
        let k = p.invs.len() - 1;
        if r.chance(85) {
            let base = calm(w, &p, k);
            let out: Vec<&Op> = base.ops.iter().filter(|o| o.kind != "close" && !is_input(&p.invs[k], o)).collect();
            let all: Vec<&Op> = base.ops.iter().filter(|o| o.kind != "close").collect();
            if r.chance(12) {
                let f = nomem(r, &base.ops);
                p.invs[k].faults.extend(f);
                continue;
            }
            for _ in 0..if r.chance(80) { 1 } else { r.range(2, 3) } {
                let pool = if r.chance(70) && !out.is_empty() { &out } else { &all };
                if pool.is_empty() {
                    continue;
                }
                let op = *r.pick(pool);
                let mut f = fault_for(r, op.n, &op.kind, op.arg);
                if f.what == F::Eof && !op.file.ends_with(".wav") {
                    f.what = F::Errno(libc::EIO);
                }
                p.invs[k].faults.push(f);
            }
        }
    }
    Plan::Cli(p)
}
pub fn c10_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let mut before = h.outs0.clone();
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let e = expect(w, p, i);
        let nowhere = [&i.csv, &i.json].into_iter().flatten().any(|f| f.contains("missing-dir"));
        let failure = e.bad.clone().or(input_failure(p, i, rec)).or(output_failure(i, rec)).or(nowhere.then(|| "a destination cannot be created".into()));
        if rec.signal != 0 {
            if starved(rec).is_none() {
                o.viol = viol("signal", format!("invocation {k} died from signal {}", rec.signal));
            }
        } else if rec.code == 0 {
            if let Some(f) = failure {
                o.viol = viol("lied", format!("invocation {k}: {f}, yet the exit status is 0"));
            } else if let Err(m) = complete(i, rec, &before, &e) {
                o.viol = viol(&format!("incomplete:{}", class_of(&m)), format!("invocation {k} ended with status 0, but {m}"));
            }
        } else if failure.is_none() && !any_fault(rec) {
            o.viol = viol("refused", format!("invocation {k}: nothing failed, yet the exit status is {}; stderr: {}", rec.code, tail(&rec.stderr)));
        }
        o.nontrivial |= any_fault(rec) || rec.code == 0;
        o.reached.push(mix(i.pairs.len() as u64 * 16 + i.csv.is_some() as u64 * 4 + i.json.is_some() as u64 * 2 + i.verbose as u64) ^ rec.code as u64);
        before = rec.outs.clone();
        if o.viol.is_some() {
            break;
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn c11_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let mut s = stock(r, w, &mut p, 3400, 10, false);
    if r.chance(40) {
        // a second family: other lengths, rates or channel counts in the same batch
        let sc = scene(w.seed, 3420 + r.below(8) as u64, true);
        for (k, g) in sc.iter().enumerate().take(4) {
            let n = format!("other/o{k}.wav");
            let mut g = g.clone();
            if k < 3 {
                g.rate = 1000;
            }
            let c = reg(&mut p.contents, wav(&g));
            p.files.push((n.clone(), c));
            if k < 2 {
                s.refs.push(n)
            } else {
                s.degs.push(n)
            }
        }
    }
    let n = rows(r, &[1usize, 2, 2, 3, 3, 4, 5, 8, 16]);
    let mut ps = pairs(r, &s, n);
    for _ in 0..r.below(3) {
        // duplicates, adjacent and far, and swapped roles
        let x = r.pick(&ps).clone();
        let at = r.below(ps.len() + 1);
        ps.insert(at, if r.chance(80) { x } else { (x.1, x.0) });
    }
    let mut i = inv(&cli_cfg(r, 35), ps.clone(), true);
    i.verbose = r.chance(50);
    i.absolute = r.chance(20);
    i.list_text = list_variant(r, &ps);
    outputs_for(r, &mut p, &mut i, 80, 80);
    i.noise = if r.chance(40) { noise_io(r) } else { Noise { seed: r.next() >> 1, heap: r.below(256) as u8, ..Noise::default() } };
    i.noise.chunk_writes = r.chance(30);
    i.noise.clock = r.chance(30);
    i.noise.rand = r.chance(30);
    p.invs.push(i);
    Plan::Cli(p)
}
pub fn c11_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    for (i, rec) in p.invs.iter().zip(&h.invs) {
        let e = expect(w, p, i);
        if let Some(b) = &e.bad {
            if rec.code == 0 {
                o.viol = viol("status", format!("{b}, yet the batch ends with status 0"));
            }
            continue;
        }
        if rec.code != 0 || rec.signal != 0 {
            o.viol = viol("status", format!("every row succeeds alone, but the batch ends with status {} signal {}; stderr: {}", rec.code, rec.signal, tail(&rec.stderr)));
        } else if let Err(m) = complete(i, rec, &h.outs0, &e) {
            o.viol = viol(&format!("differs:{}", class_of(&m)), format!("the batch differs from its rows alone: {m}"));
        } else {
            // and all of it is what the library says
            let model = p.contents[0].clone();
            let find = |n: &str| p.files.iter().find(|(f, _)| f == n).map(|(_, c)| &p.contents[*c]);
            for ((pr, sc), js) in e.pairs.iter().zip(e.scores()).zip(e.json()) {
                if let crate::world::Out::Ok(res) = w.oracle(&i.cfg, (&pr.0, find(&pr.0)), (&pr.1, find(&pr.1)), &model) {
                    if res.moslqo != sc.to_bits() {
                        o.viol = viol("library", format!("{pr:?}: the tool prints {sc}, the library computes {}", res.score()));
                    } else if let Err(m) = record_is(&js, &res, &i.json) {
                        o.viol = viol("library-record", format!("{pr:?}: {m}"));
                    }
                } else {
                    o.viol = viol("library", format!("{pr:?}: the tool prints {sc}, the library fails"));
                }
            }
            o.nontrivial = e.pairs.len() >= 2;
        }
        let kinds = e.pairs.iter().fold(0, |a, (x, y)| mix(a ^ hash(x.as_bytes()) ^ hash(y.as_bytes()).rotate_left(3)));
        o.reached.push(kinds);
        if o.viol.is_some() {
            break;
        }
    }
    o
}
fn record_is(js: &serde_json::Value, r: &crate::world::Res, _f: &Option<String>) -> Result<(), String> {
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-12 * a.abs().max(b.abs());
    let num = |k: &str, x: u64| match js.get(k).and_then(|v| v.as_f64()) {
        Some(v) if close(v, f64::from_bits(x)) => Ok(()),
        v => Err(format!("{k} in the debug record is {v:?} instead of {}", f64::from_bits(x))),
    };
    num("moslqo", r.moslqo)?;
    num("vnsim", r.vnsim)?;
    for (k, want) in [("fvnsim", &r.fvnsim), ("fstdnsim", &r.fstdnsim), ("fvdegenergy", &r.fvdegenergy), ("center_freq_bands", &r.bands)] {
        let got: Vec<f64> = js.get(k).and_then(|v| v.as_array()).map(|v| v.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or_default();
        if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| !close(*a, f64::from_bits(*b))) {
            return Err(format!("{k} in the debug record does not hold what the library computed"));
        }
    }
    let n = js.get("patch_sims").and_then(|v| v.as_array()).map(|v| v.len());
    if n != Some(r.patches.len()) {
        return Err(format!("patch_sims in the debug record holds {n:?} patches instead of {}", r.patches.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

pub fn c12_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let plain = r.chance(70);
    let s = stock(r, w, &mut p, 3500, 8, plain);
    let batch = r.chance(75);
    let n = if batch { rows(r, &[1usize, 2, 3, 4, 6]) } else { 1 };
    let ps = pairs(r, &s, n);
    let mut i = inv(&cli_cfg(r, 35), ps.clone(), batch);
    i.verbose = r.chance(30);
    i.absolute = r.chance(15);
    outputs_for(r, &mut p, &mut i, 85, 85);
    i.noise = if r.chance(50) { Noise::default() } else { noise_io(r) };
    let mut at = if r.chance(50) { n - 1 } else { r.below(n) };
    let put = |p: &mut CliPlan, i: &mut Inv, at: usize, side: bool, name: &str, c: Content| {
        let k = reg(&mut p.contents, c);
        p.files.push((name.to_string(), k));
        if side {
            i.pairs[at].0 = name.into()
        } else {
            i.pairs[at].1 = name.into()
        }
    };
    let side = r.chance(50);
    let g = s.gens[if side { 0 } else { 2 }].clone();
    let len = 44 + g.frames * g.ch as usize * 2;
    match r.below(12) {
        0 => {
            if side {
                i.pairs[at].0 = "missing.wav".into()
            } else {
                i.pairs[at].1 = "missing.wav".into()
            }
        }
        1 | 2 => {
            let cut = if r.chance(30) { r.below(44) } else { r.below(len) };
            put(&mut p, &mut i, at, side, "torn.wav", Content::Wav(Wav { gen: g, dmg: vec![Dmg::Trunc(cut)] }));
        }
        3 => {
            let mut g = g;
            g.rate += 1 + r.below(3000) as u32;
            put(&mut p, &mut i, at, side, "rate.wav", wav(&g));
        }
        4 => {
            let mut g = g;
            g.frames = r.below(300);
            if let Some(d) = &mut g.deg {
                d.frames = g.frames;
            }
            put(&mut p, &mut i, at, true, "short.wav", wav(&g));
        }
        5 if batch && r.chance(20) => i.list = "missing/list.csv".into(),
        5 if batch => {
            let t = list_of(&ps);
            let extra = *r.pick(&["only-one-field\n", "a.wav,b.wav,c.wav\n", "f0.wav\n"]);
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            at = 1 + r.below(lines.len());
            let mut x = lines.clone();
            x.insert(at, extra);
            if ps.iter().all(|(a, b)| !a.contains('\n') && !b.contains('\n')) {
                i.list_text = Some(x.concat());
            } else {
                i.list_text = Some(format!("{t}{extra}"));
            }
        }
        6 => {
            i.cfg = Cfg { mode: "fb".into(), window: 1, model: DEFAULT_MODEL.into() };
            if r.chance(30) {
                i.cfg.model = "missing/model.txt".into();
            } else {
                let c = model_damage(r);
                let k = reg(&mut p.contents, c);
                p.files[0].1 = k;
            }
        }
        k => {
            p.invs.push(i);
            let base = calm(w, &p, 0);
            i = p.invs.pop().unwrap();
            let ins: Vec<&Op> = base.ops.iter().filter(|o| is_input(&i, o) && o.kind != "close").collect();
            let last = ins.iter().map(|o| o.n).max().unwrap_or(0);
            if k >= 8 && r.chance(25) {
                let f = nomem(r, &base.ops.iter().filter(|o| o.n < last).cloned().collect::<Vec<_>>());
                i.faults.extend(f);
            } else if k >= 10 {
                let op = if r.chance(50) { r.below(last as usize + 1) as u64 } else { last - (r.below(12) as u64).min(last) };
                i.faults.push(Fault { op, what: if r.chance(70) || op == last { F::Crash } else { F::CrashAfter } });
            } else if !ins.is_empty() {
                // later inputs more often
                let a = r.below(ins.len());
                let b = r.below(ins.len());
                let op = ins[a.max(b)];
                let mut f = fault_for(r, op.n, &op.kind, op.arg);
                if f.what == F::Eof && !op.file.ends_with(".wav") {
                    f.what = F::Errno(libc::EIO);
                }
                i.faults.push(f);
            }
        }
    }
    p.invs.push(i);
    Plan::Cli(p)
}
pub fn c12_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let mut before = h.outs0.clone();
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let e = expect(w, p, i);
        let mut why = e.bad.clone().or(input_failure(p, i, rec));
        if i.cfg.mode == "fb" {
            let m = p.files.iter().find(|(f, _)| *f == i.cfg.model).map(|(_, c)| &p.contents[*c]);
            why = why.or(model_bad(m));
        }
        if (rec.signal != 0 || rec.code != 0 && starved(rec).is_some()) && why.is_none() {
            let base = calm(w, p, k);
            let last = base.ops.iter().filter(|x| is_input(i, x) && x.kind != "close").map(|x| x.n).max().unwrap_or(0);
            match rec.ops.last() {
                _ if starved(rec).is_some() => why = starved(rec).filter(|n| *n <= last).map(|n| format!("memory ran out before operation {n} of {last}, before the comparisons were done")),
                Some(op) if (op.note == "crash" && op.n <= last) || (op.note == "crasha" && op.n < last) => why = Some(format!("killed at operation {} of {} before the comparisons were done", op.n, last)),
                Some(op) if op.note.starts_with("crash") => {}
                _ => o.viol = viol("signal", format!("invocation {k} died from signal {}", rec.signal)),
            }
        }
        if let Some(why) = why {
            o.nontrivial = true;
            o.reached.push(hash(class_of(&why).as_bytes()) ^ mix(i.pairs.len() as u64) ^ mix(rec.ops.len() as u64));
            if rec.code == 0 && rec.signal == 0 {
                o.viol = viol("status", format!("invocation {k}: {why}, yet the exit status is 0"));
            } else if rec.outs != before {
                o.viol = viol("touched", format!("invocation {k}: {why}, but output files changed: {:?}", diff(&before, &rec.outs)));
            } else if String::from_utf8_lossy(&rec.stdout).contains("MOS-LQO") {
                o.viol = viol("score", format!("invocation {k}: {why}, but a score was printed"));
            }
        }
        before = rec.outs.clone();
        if o.viol.is_some() {
            break;
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// C13

pub fn c13_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let s = stock(r, w, &mut p, 3600, 6, true);
    let f = "log/debug.json".to_string();
    if let Some(t) = old_log(r) {
        let c = reg(&mut p.contents, t);
        p.files.push((f.clone(), c));
    }
    linked(r, &mut p, &f, 15);
    for _ in 0..r.range(2, 5) {
        let batch = r.chance(55);
        let n = if batch { rows(r, &[0usize, 1, 2, 3, 5]) } else { 1 };
        let mut ps = pairs(r, &s, n);
        if r.chance(12) && !ps.is_empty() {
            let k = r.below(ps.len());
            ps[k].1 = "missing.wav".into();
        }
        let mut i = inv(&cli_cfg(r, 25), ps, batch);
        i.json = Some(f.clone());
        i.csv = r.chance(30).then(|| "out.csv".into());
        i.absolute = r.chance(15);
        i.noise = if r.chance(60) { Noise::default() } else { noise_io(r) };
        i.noise.chunk_writes = r.chance(40);
        if r.chance(25) {
            i.noise.seed = r.next() >> 1;
            i.noise.eintr = 100;
            i.noise.eintr_mask = 6;
        }
        i.list = format!("list{}.csv", p.invs.len());
        p.invs.push(i);
        let k = p.invs.len() - 1;
        if r.chance(65) {
            let base = calm(w, &p, k);
            let j: Vec<&Op> = base.ops.iter().filter(|o| o.file == f && o.kind != "close").collect();
            if r.chance(8) {
                let f = nomem(r, &base.ops);
                p.invs[k].faults.extend(f);
                continue;
            }
            let later: Vec<&Op> = base.ops.iter().filter(|o| !is_input(&p.invs[k], o) && o.kind != "close").collect();
            let pool = if r.chance(75) && !j.is_empty() { &j } else { &later };
            if !pool.is_empty() {
                let op = *r.pick(pool);
                let what = match (op.kind.as_str(), r.below(10)) {
                    ("write", 0..=2) => F::Torn(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 3..=5) => F::Full(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 6) => F::Short(1 + r.below(op.arg.clamp(1, 100_000) as usize)),
                    (_, 7) => F::Crash,
                    (_, 8) => F::CrashAfter,
                    _ => fault_for(r, op.n, &op.kind, op.arg).what,
                };
                p.invs[k].faults.push(Fault { op: op.n, what });
            }
        }
    }
    Plan::Cli(p)
}
pub fn c13_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let mut before = h.outs0.clone();
    let mut sig = 0u64;
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let Some(f) = &i.json else { continue };
        let old = before.get(f).cloned().flatten();
        let new = rec.outs.get(f).cloned().flatten();
        let e = expect(w, p, i);
        let killed = rec.ops.last().is_some_and(|x| x.note.starts_with("crash") || x.note == "torn") || starved(rec).is_some();
        if rec.signal != 0 && !killed {
            o.viol = viol("signal", format!("invocation {k} died from signal {}", rec.signal));
        }
        match (&old, &new) {
            (Some(a), None) => o.viol = viol("lost", format!("invocation {k}: the debug file of {} bytes is gone", a.len())),
            (Some(a), Some(b)) if !b.starts_with(a) => {
                o.viol = viol("lost", format!("invocation {k} (status {}): the {} bytes that were in the debug file are no longer a prefix of it ({} bytes now)", rec.code, a.len(), b.len()));
            }
            _ => {}
        }
        let (a, b) = (old.unwrap_or_default(), new.clone().unwrap_or_default());
        if o.viol.is_none() && rec.code == 0 && rec.signal == 0 {
            match json_stream(&b[a.len()..]) {
                Err(m) => o.viol = viol("torn", format!("invocation {k} ended with status 0, but what it appended does not parse: {m}")),
                Ok(v) if v != e.json() => o.viol = viol("records", format!("invocation {k} ended with status 0 and appended {} records for {} pairs, or other ones", v.len(), e.pairs.len())),
                _ => {}
            }
        }
        sig = mix(sig ^ rec.code as u64 ^ (rec.signal as u64) << 8 ^ mix(b.len() as u64));
        o.nontrivial |= any_fault(rec) && k + 1 < p.invs.len();
        before = rec.outs.clone();
        if o.viol.is_some() {
            break;
        }
    }
    o.reached.push(sig);
    o
}

// ---------------------------------------------------------------------------------------------
// C14

pub fn c14_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let plain = r.chance(50);
    let s = stock(r, w, &mut p, 3700, 6, plain);
    let f = "res/out.csv".to_string();
    if let Some(t) = old_table(r) {
        let c = reg(&mut p.contents, t);
        p.files.push((f.clone(), c));
    }
    linked(r, &mut p, &f, 15);
    for _ in 0..r.range(1, 4) {
        let batch = r.chance(70);
        let n = if batch { rows(r, &[0usize, 1, 2, 3, 5, 10]) } else { 1 };
        let mut ps = pairs(r, &s, n);
        if n == 10 && r.chance(50) {
            // more than one buffer of rows
            let x = ps.clone();
            for _ in 0..30 {
                ps.extend(x.iter().cloned());
            }
            ps.truncate(260);
            let long = format!("deep/{}/{}/d.wav", "a".repeat(120), "b".repeat(100));
            let c = p.files.iter().find(|(f, _)| *f == ps[0].1).unwrap().1;
            if p.files.iter().all(|(f, _)| *f != long) {
                p.files.push((long.clone(), c));
            }
            // few distinct comparisons are computed often: keep them cheap
            ps.truncate(36);
            ps.iter_mut().for_each(|x| x.1 = long.clone());
        }
        if r.chance(10) && !ps.is_empty() {
            let k = r.below(ps.len());
            ps[k].1 = "missing.wav".into();
        }
        let mut i = inv(&cli_cfg(r, 25), ps, batch);
        i.csv = Some(f.clone());
        i.json = r.chance(25).then(|| "debug.json".into());
        i.absolute = r.chance(15);
        i.noise = if r.chance(60) { Noise::default() } else { noise_io(r) };
        i.noise.chunk_writes = r.chance(40);
        if r.chance(25) {
            i.noise.seed = r.next() >> 1;
            i.noise.eintr = 100;
            i.noise.eintr_mask = 6;
        }
        i.list = format!("list{}.csv", p.invs.len());
        p.invs.push(i);
        let k = p.invs.len() - 1;
        if r.chance(60) {
            let base = calm(w, &p, k);
            if r.chance(8) {
                let f = nomem(r, &base.ops);
                p.invs[k].faults.extend(f);
                continue;
            }
            let j: Vec<&Op> = base.ops.iter().filter(|o| o.file == f && o.kind != "close").collect();
            let all: Vec<&Op> = base.ops.iter().filter(|o| o.kind != "close").collect();
            let pool = if r.chance(75) && !j.is_empty() { &j } else { &all };
            if !pool.is_empty() {
                let op = *r.pick(pool);
                let what = match (op.kind.as_str(), r.below(10)) {
                    ("write", 0..=2) => F::Torn(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 3..=5) => F::Full(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 6) => F::Short(1 + r.below(op.arg.clamp(1, 100_000) as usize)),
                    (_, 7) => F::Crash,
                    (_, 8) => F::CrashAfter,
                    _ => fault_for(r, op.n, &op.kind, op.arg).what,
                };
                let what = if what == F::Eof && !op.file.ends_with(".wav") { F::Errno(libc::EIO) } else { what };
                p.invs[k].faults.push(Fault { op: op.n, what });
            }
        }
    }
    Plan::Cli(p)
}
pub fn c14_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let mut before = h.outs0.clone();
    let mut sig = 0u64;
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let Some(f) = &i.csv else { continue };
        let e = expect(w, p, i);
        let new = rec.outs.get(f).cloned().flatten();
        let old = before.get(f).cloned().flatten();
        if rec.code == 0 && rec.signal == 0 {
            let got = parse_csv(&new.clone().unwrap_or_default());
            let want = e.rows();
            let sc = scores(&rec.stdout);
            if got != want {
                let j = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                o.viol = viol("table", format!("invocation {k} ended with status 0, but row {j} of the results file is {:?} instead of {:?} ({} rows instead of {})", got.get(j), want.get(j), got.len(), want.len()));
            } else if new.as_ref().and_then(|n| n.last()) != Some(&b'\n') {
                o.viol = viol("table", format!("invocation {k}: the last row is not terminated"));
            } else {
                for (j, row) in got.iter().skip(1).enumerate() {
                    let v: Option<f64> = row.get(2).and_then(|c| c.parse().ok());
                    // standard output may be what failed
                    if sc.len() == got.len() - 1 && v.map(f64::to_bits) != Some(sc[j].to_bits()) {
                        o.viol = viol("score", format!("invocation {k}: row {j} holds {:?}, printed was {}", row.get(2), sc[j]));
                    }
                }
                if sc.len() != e.pairs.len() && !rec.ops.iter().any(|x| x.file == "<stdout>" && x.ret < 0) {
                    o.viol = viol("score", format!("invocation {k}: {} scores printed for {} rows", sc.len(), e.pairs.len()));
                }
            }
        } else if new != old {
            let base = calm(w, p, k);
            let table = base.outs.get(f).cloned().flatten().unwrap_or_default();
            let b = new.clone().unwrap_or_default();
            if new.is_none() {
                o.viol = viol("lost", format!("invocation {k} (status {} signal {}) removed the results file", rec.code, rec.signal));
            } else if e.bad.is_some() && !b.is_empty() {
                o.viol = viol("rows", format!("invocation {k} failed ({}) but the results file changed", e.bad.clone().unwrap()));
            } else if base.code == 0 && !table.starts_with(&b) {
                o.viol = viol("mixture", format!("invocation {k} (status {} signal {}) left a results file of {} bytes that is neither the old one nor a prefix of the new one", rec.code, rec.signal, b.len()));
            }
        }
        sig = mix(sig ^ rec.code as u64 ^ (rec.signal as u64) << 8 ^ hash(&new.unwrap_or_default()));
        o.nontrivial |= old.is_some() || any_fault(rec);
        before = rec.outs.clone();
        if o.viol.is_some() {
            break;
        }
    }
    o.reached.push(sig);
    o
}

// ---------------------------------------------------------------------------------------------
// C15

pub fn c15_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let s = stock(r, w, &mut p, 3800, 4, true);
    let f = "log/debug.json".to_string();
    if let Some(t) = old_log(r) {
        let c = reg(&mut p.contents, t);
        p.files.push((f.clone(), c));
    }
    let alias = r.chance(20);
    if alias {
        p.links.push(("alias.json".into(), f.clone(), false));
    }
    let ni = *r.pick(&[2usize, 2, 3, 3, 4]);
    let shared = r.chance(85);
    let samelist = r.chance(40);
    let n0 = r.range(1, 3);
    let ps0 = pairs(r, &s, n0);
    for k in 0..ni {
        let batch = samelist || r.chance(50);
        let n = rows(r, &[1, 2, 3]);
        let mut ps = if samelist { ps0.clone() } else { pairs(r, &s, if batch { n } else { 1 }) };
        if r.chance(10) && !samelist {
            ps[0].0 = "missing.wav".into();
        }
        let mut i = inv(&cli_cfg(r, 25), ps, batch);
        i.list = if samelist { "list.csv".into() } else { format!("list{k}.csv") };
        i.verbose = r.chance(20);
        i.json = Some(if alias && r.chance(50) {
            "alias.json".into()
        } else if shared {
            f.clone()
        } else {
            format!("debug{k}.json")
        });
        i.absolute = r.chance(25);
        i.csv = r.chance(70).then(|| format!("out{k}.csv"));
        if r.chance(20) {
            let at = r.below(60) as u64;
            i.faults.push(Fault { op: at, what: if r.chance(20) { F::NoMem(1 + r.below(3000) as u64) } else if r.chance(50) { F::Crash } else { F::CrashAfter } });
        }
        p.invs.push(i);
        let i = &p.invs[k];
        if i.faults.is_empty() && r.chance(18) {
            // storage fails under one of them while it writes what was asked for
            let base = calm(w, &p, k);
            let mine: Vec<&Op> = base.ops.iter().filter(|o| [&i.csv, &i.json].into_iter().flatten().any(|f| target_of(&p, f) == target_of(&p, &o.file)) && o.kind != "close").collect();
            if !mine.is_empty() {
                let op = *r.pick(&mine);
                let what = match (op.kind.as_str(), r.below(10)) {
                    ("write", 0) => F::Torn(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 1 | 2) => F::Full(r.below(op.arg.clamp(1, 100_000) as usize + 1)),
                    ("write", 3) => F::Errno(libc::EINTR),
                    ("write", 4) => F::Dead(libc::EIO),
                    ("write", _) => F::Errno(*r.pick(WRITE_ERRNOS)),
                    _ => fault_for(r, op.n, &op.kind, op.arg).what,
                };
                p.invs[k].faults.push(Fault { op: op.n, what });
            }
        }
    }
    p.concurrent = true;
    p.sched_seed = r.next() >> 20;
    Plan::Cli(p)
}
pub fn c15_judge(p: &CliPlan, w: &Wk) -> (RunOut, Vec<u8>) {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    o.add("sim.scheduling_points", h.choices.len() as u64);
    o.add("sim.context_switches", h.choices.windows(2).filter(|x| x[0] != x[1]).count() as u64);
    if h.stuck {
        o.viol = viol("stuck", "the invocations did not finish within 200000 operations".into());
        return (o, h.choices);
    }
    let mut must: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut may: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let last = &h.invs.last().unwrap().outs;
    // a write that stored a part and failed leaves a piece of its own record, never one of another's
    let pieces = h.invs.iter().any(|rec| rec.ops.iter().any(|x| x.kind == "write" && (x.note == "full" || x.note == "torn")));
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let e = expect(w, p, i);
        let killed = rec.ops.last().is_some_and(|x| x.note.starts_with("crash") || x.note == "torn") || starved(rec).is_some();
        let failed = starved(rec).is_some() || output_failure(i, rec).is_some();
        let recs: Vec<String> = e.json().iter().map(|v| v.to_string()).collect();
        if rec.signal != 0 || rec.code != 0 && failed {
            if rec.signal != 0 && !killed {
                o.viol = viol("signal", format!("invocation {k} died from signal {}", rec.signal));
            }
            if let Some(f) = &i.json {
                may.entry(target_of(p, f)).or_default().extend(recs);
            }
            continue;
        }
        if e.bad.is_some() != (rec.code != 0) {
            o.viol = viol("status", format!("invocation {k} ended with status {}, alone it {}; stderr: {}", rec.code, if e.bad.is_some() { "fails" } else { "succeeds" }, tail(&rec.stderr)));
            break;
        }
        if e.bad.is_none() {
            let mut only = i.clone();
            only.json = None;
            let end = InvRec { outs: last.clone(), ..rec.clone() };
            if let Err(m) = complete(&only, &end, &h.outs0, &e) {
                o.viol = viol(&format!("differs:{}", class_of(&m)), format!("invocation {k}: {m}"));
                break;
            }
            if let Some(f) = &i.json {
                must.entry(target_of(p, f)).or_default().extend(recs);
            }
        }
    }
    if o.viol.is_none() {
        let files: std::collections::BTreeSet<&str> = p.invs.iter().filter_map(|i| i.json.as_ref()).map(|f| target_of(p, f)).collect();
        for f in files {
            let old = h.outs0.get(f).cloned().flatten().unwrap_or_default();
            let new = last.get(f).cloned().flatten().unwrap_or_default();
            if !new.starts_with(&old) {
                o.viol = viol("lost", format!("{f}: what it held before is gone"));
                break;
            }
            let mut got = match if pieces { Ok(json_pieces(&new[old.len()..])) } else { json_stream(&new[old.len()..]) } {
                Ok(v) => v.iter().map(|v| v.to_string()).collect::<Vec<_>>(),
                Err(m) => {
                    o.viol = viol("torn", format!("{f}: records are torn apart: {m}"));
                    break;
                }
            };
            for x in must.get(f).cloned().unwrap_or_default() {
                match got.iter().position(|g| *g == x) {
                    Some(k) => {
                        got.swap_remove(k);
                    }
                    None => {
                        o.viol = viol("missing", format!("{f}: a record of an invocation that ended with status 0 is missing"));
                        break;
                    }
                }
            }
            let mut free = may.get(f).cloned().unwrap_or_default();
            for g in got {
                match free.iter().position(|x| *x == g) {
                    Some(k) => {
                        free.swap_remove(k);
                    }
                    None => {
                        o.viol = o.viol.or_else(|| viol("extra", format!("{f}: holds a record no invocation computed")));
                    }
                }
            }
            if o.viol.is_some() {
                break;
            }
        }
    }
    o.nontrivial = h.choices.windows(2).filter(|x| x[0] != x[1]).count() > p.invs.len();
    // the interleaving, reduced to who does what to which file in which order
    o.reached.push(hash(&h.choices));
    (o, h.choices)
}

// ---------------------------------------------------------------------------------------------
// C16 (tool)

pub fn c16_gen(r: &mut Rng, w: &Wk) -> Plan {
    let mut p = empty();
    let s = stock(r, w, &mut p, 3900, 4, true);
    let batch = r.chance(50);
    let n = r.range(1, 3);
    let mut i = inv(&Cfg { mode: "fb".into(), window: *r.pick(&[0, 1, 4]), model: DEFAULT_MODEL.into() }, pairs(r, &s, if batch { n } else { 1 }), batch);
    if r.chance(40) {
        // a model of the user's own; the shipped one is in its usual place as well
        i.cfg.model = "my models/tuned.txt".into();
        p.files.push((i.cfg.model.clone(), 0));
    }
    outputs_for(r, &mut p, &mut i, 80, 80);
    i.noise = if r.chance(50) { Noise::default() } else { noise_io(r) };
    i.absolute = r.chance(20);
    let m = p.files.iter().position(|(f, _)| *f == i.cfg.model).unwrap();
    match r.below(10) {
        0..=3 => {
            let c = model_damage(r);
            p.files[m].1 = reg(&mut p.contents, c);
        }
        4 => {
            p.files.remove(m);
        }
        5 => {}
        _ => {
            p.invs.push(i);
            let base = calm(w, &p, 0);
            i = p.invs.pop().unwrap();
            let ops: Vec<&Op> = base.ops.iter().filter(|o| o.file == i.cfg.model && (o.kind == "open" || o.kind == "read")).collect();
            if !ops.is_empty() {
                let op = *r.pick(&ops);
                i.faults.push(fault_for(r, op.n, &op.kind, op.arg));
            }
        }
    }
    p.invs.push(i);
    Plan::Cli(p)
}
pub fn c16_judge(p: &CliPlan, w: &Wk) -> RunOut {
    let mut o = RunOut::default();
    let h = w.cli(p);
    basics(&mut o, &h);
    let last_line = {
        let b = model_bytes();
        b.split_inclusive(|c| *c == b'\n').next_back().map_or(0, |l| l.len()) as u64
    };
    for (k, (i, rec)) in p.invs.iter().zip(&h.invs).enumerate() {
        reach_faults(&mut o, rec);
        let m = p.files.iter().find(|(f, _)| *f == i.cfg.model).map(|(_, c)| &p.contents[*c]);
        let mut why = model_bad(m);
        let mut may = false;
        let mut got = 0u64;
        for op in rec.ops.iter().filter(|x| x.file == i.cfg.model) {
            if op.kind == "open" {
                got = 0;
            }
            if op.kind == "read" && op.ret > 0 {
                got += op.ret as u64;
            }
            match op.note.as_str() {
                "errno" | "errnos" | "dead" if op.ret < 0 => {
                    if -op.ret as i32 == libc::EINTR || !(op.kind == "open" || op.kind == "read") {
                        may = true
                    } else {
                        why = Some(format!("{} of the model failed with errno {}", op.kind, -op.ret));
                    }
                }
                "eof" => {
                    let size = m.map_or(0, |c| c.bytes().len() as u64);
                    if got + last_line <= size {
                        why = Some(format!("the model ended after {got} of {size} bytes"));
                    } else {
                        may = true;
                    }
                }
                _ => {}
            }
        }
        if let Some(c) = m {
            o.reached.push(hash(serde_json::to_string(c).unwrap().as_bytes()) ^ mix(i.batch as u64));
        }
        if let Some(why) = why {
            o.nontrivial = true;
            if rec.code == 0 && rec.signal == 0 {
                o.viol = viol("accepted", format!("invocation {k}: {why}, yet the exit status is 0 and the scores are {:?}", scores(&rec.stdout)));
            } else if !scores(&rec.stdout).is_empty() {
                o.viol = viol("score", format!("invocation {k}: {why}, yet scores were printed"));
            } else if rec.outs != h.outs0 {
                o.viol = viol("touched", format!("invocation {k}: {why}, but output files changed: {:?}", diff(&h.outs0, &rec.outs)));
            }
        } else if !may && rec.signal == 0 {
            let e = expect(w, p, i);
            if e.bad.is_none() {
                if rec.code != 0 {
                    o.viol = viol("rejected", format!("invocation {k}: an intact model was rejected; stderr: {}", tail(&rec.stderr)));
                } else if let Err(m) = complete(i, rec, &h.outs0, &e) {
                    o.viol = viol("differs", format!("invocation {k}: {m}"));
                }
            }
        }
        if o.viol.is_some() {
            break;
        }
    }
    o
}
