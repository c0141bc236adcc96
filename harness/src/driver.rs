//! Runs a property's cases in worker processes, watches them, and turns what they report into a verdict and evidence.
use crate::rng::Rng;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    /// identifies the defect, stable across runs; what known findings are keyed on
    pub sig: String,
    pub msg: String,
    pub input: J,
}

#[derive(Default)]
pub struct Rep {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
}

impl Rep {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max_{k}")).or_default();
        *e = (*e).max(n);
    }
    /// one more execution the oracle observed; `key` decides distinctness, `nontrivial` whether it counts
    pub fn eval(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(crate::rng::fnv(key.as_bytes()));
        }
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 3 {
            let mut t: String = s.chars().take(600).collect();
            if t.len() < s.len() {
                t.push_str(" …");
            }
            self.samples.push(t);
        }
    }
    pub fn viol(&mut self, sig: impl Into<String>, msg: impl Into<String>, input: J) {
        let sig = sig.into();
        self.count("violations_seen");
        if self.viols.iter().filter(|v| v.sig == sig).count() < per_sig() {
            self.viols.push(Viol { sig, msg: msg.into(), input });
        }
    }
}

pub trait Check {
    /// run case `idx`; cases below `pinned()` are fixed inputs, the rest are drawn from `rng`
    fn case(&mut self, idx: u64, rng: &mut Rng, rep: &mut Rep);
    fn pinned(&self) -> u64 {
        0
    }
    fn finish(&mut self, _rep: &mut Rep) {}
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub worker: u64,
    pub scratch: PathBuf,
}

pub struct Spec {
    pub id: &'static str,
    pub quick_cases: u64,
    pub quick_s: u64,
    pub thorough_cases: u64,
    pub thorough_s: u64,
    pub workers: usize,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to count as having observed something
    pub must: &'static [&'static str],
    pub make: fn(&Ctx) -> Box<dyn Check>,
}

pub const VERIF: &str = "/verif";

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

// ------------------------------------------------------------------------------------------------- panics
thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub static ANY_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let line = format!("{loc}: {}", msg.lines().next().unwrap_or("").chars().take(160).collect::<String>());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(line.clone()));
        if let Ok(mut g) = ANY_PANIC.lock() {
            if g.len() < 100 {
                g.push(line);
            }
        }
    }));
}

/// runs `f`; a panic comes back as `Err("file:line: message")`
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// "crates/x/src/y.rs:12: message" without the line number and with digits blurred: a stable signature
pub fn panic_sig(p: &str) -> String {
    let mut o = String::new();
    let p = p.replace("/repo/", "");
    let mut in_num = false;
    for c in p.chars().take(120) {
        if c.is_ascii_digit() {
            if !in_num {
                o.push('N');
            }
            in_num = true;
        } else {
            in_num = false;
            o.push(c);
        }
    }
    format!("panic@{o}")
}

// ------------------------------------------------------------------------------------------------- worker
pub fn worker_main(spec: &Spec, args: &[String]) {
    // args: seed tier(q/t) worker stride start max budget_s scratch
    let seed: u64 = args[0].parse().unwrap();
    let thorough = args[1] == "t";
    let w: u64 = args[2].parse().unwrap();
    let stride: u64 = args[3].parse().unwrap();
    let start: u64 = args[4].parse().unwrap();
    let max: u64 = args[5].parse().unwrap();
    let budget = Duration::from_secs(args[6].parse().unwrap());
    let scratch = PathBuf::from(&args[7]);
    install_panic_hook();
    let id = spec.id;
    let make = spec.make;
    // the tool's own main thread has 8 MiB of stack; so do cases
    let t = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let hb = scratch.join(format!("hb{w}"));
            let ctx = Ctx { seed, thorough, worker: w, scratch: scratch.clone() };
            let mut rep = Rep::default();
            let mut check = make(&ctx);
            let t0 = Instant::now();
            let mut idx = start;
            let mut sent = 0usize;
            let out = std::io::stdout();
            let hbf = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(&hb).unwrap();
            use std::os::unix::fs::FileExt;
            while idx < max && t0.elapsed() < budget {
                let _ = hbf.write_at(&idx.to_le_bytes(), 0);
                let mut rng = Rng::for_case(id, seed, idx);
                if let Err(p) = guard(|| check.case(idx, &mut rng, &mut rep)) {
                    rep.viol(panic_sig(&p), format!("panic: {p}"), json!({"case": idx}));
                }
                while sent < rep.viols.len() {
                    let v = &rep.viols[sent];
                    let line = json!({"t":"v","idx":idx,"sig":v.sig,"msg":v.msg,"input":v.input});
                    let mut o = out.lock();
                    let _ = writeln!(o, "{line}");
                    let _ = o.flush();
                    sent += 1;
                }
                idx += stride;
            }
            if let Err(p) = guard(|| check.finish(&mut rep)) {
                rep.viol(panic_sig(&p), format!("panic at finish: {p}"), json!({}));
            }
            while sent < rep.viols.len() {
                let v = &rep.viols[sent];
                println!("{}", json!({"t":"v","idx":idx,"sig":v.sig,"msg":v.msg,"input":v.input}));
                sent += 1;
            }
            let d: Vec<u64> = rep.distinct.iter().copied().collect();
            println!("{}", json!({"t":"end","evals":rep.evals,"counts":rep.counts,"distinct":d,"samples":rep.samples,"next":idx}));
        })
        .unwrap();
    let _ = t.join();
}

pub fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = s.rsplit_once(')')?.1;
    let f: Vec<&str> = r.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

#[derive(Default)]
pub struct Agg {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(u64, Viol)>,
    pub inconclusive: Vec<String>,
}

pub fn merge_counts(a: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    let e = a.entry(k.to_string()).or_default();
    if k.starts_with("max_") { *e = (*e).max(n) } else { *e += n }
}

pub fn run_workers(spec: &Spec, seed: u64, thorough: bool) -> Agg {
    let agg = Arc::new(Mutex::new(Agg::default()));
    let cases = if thorough { spec.thorough_cases } else { spec.quick_cases };
    let budget = if thorough { spec.thorough_s } else { spec.quick_s };
    let scratch = PathBuf::from(format!("/tmp/vh-{}-{}", spec.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let stride = spec.workers as u64;
    let exe = std::env::current_exe().unwrap();
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut hs = vec![];
    for w in 0..spec.workers as u64 {
        let (agg, scratch, exe) = (agg.clone(), scratch.clone(), exe.clone());
        let id = spec.id;
        hs.push(std::thread::spawn(move || {
            let mut start = w;
            for _attempt in 0..12 {
                let left = deadline.saturating_duration_since(Instant::now()).as_secs();
                if left == 0 || start >= cases {
                    return;
                }
                let mut child = std::process::Command::new(&exe)
                    .args(["worker", id, &seed.to_string(), if thorough { "t" } else { "q" }, &w.to_string(), &stride.to_string(), &start.to_string(), &cases.to_string(), &left.to_string()])
                    .arg(&scratch)
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::piped())
                    .spawn()
                    .unwrap();
                let pid = child.id();
                let so = child.stdout.take().unwrap();
                let se = child.stderr.take().unwrap();
                let agg2 = agg.clone();
                let done = Arc::new(Mutex::new(false));
                let done2 = done.clone();
                let rd = std::thread::spawn(move || {
                    for line in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                        let Ok(j) = serde_json::from_str::<J>(&line) else { continue };
                        let mut a = agg2.lock().unwrap();
                        match j["t"].as_str() {
                            Some("v") => {
                                let v = Viol { sig: j["sig"].as_str().unwrap_or("").into(), msg: j["msg"].as_str().unwrap_or("").into(), input: j["input"].clone() };
                                if std::env::var("VH_LIVE").is_ok() {
                                    println!("LIVE [{}] {}", v.sig, v.msg.chars().take(200).collect::<String>());
                                }
                                if a.viols.len() < 400 {
                                    a.viols.push((j["idx"].as_u64().unwrap_or(0), v));
                                }
                            }
                            Some("end") => {
                                *done2.lock().unwrap() = true;
                                a.evals += j["evals"].as_u64().unwrap_or(0);
                                if let Some(c) = j["counts"].as_object() {
                                    for (k, n) in c {
                                        merge_counts(&mut a.counts, k, n.as_u64().unwrap_or(0));
                                    }
                                }
                                if let Some(d) = j["distinct"].as_array() {
                                    for x in d {
                                        a.distinct.insert(x.as_u64().unwrap_or(0));
                                    }
                                }
                                if let Some(s) = j["samples"].as_array() {
                                    for x in s {
                                        if a.samples.len() < 4 {
                                            a.samples.push(x.as_str().unwrap_or("").to_string());
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                });
                let er = std::thread::spawn(move || {
                    let mut tail: Vec<String> = vec![];
                    for line in std::io::BufReader::new(se).lines().map_while(Result::ok) {
                        if tail.len() < 60 {
                            tail.push(line.chars().take(300).collect());
                        }
                    }
                    tail
                });
                let hb = scratch.join(format!("hb{w}"));
                let read_hb = || std::fs::read(&hb).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
                let mut last = (read_hb(), Instant::now(), cpu_ticks(pid).unwrap_or(0));
                let mut hung = None;
                let status = loop {
                    if let Ok(Some(s)) = child.try_wait() {
                        break Some(s);
                    }
                    std::thread::sleep(Duration::from_millis(50));
                    let cur = read_hb();
                    let ticks = cpu_ticks(pid).unwrap_or(0);
                    if cur != last.0 {
                        last = (cur, Instant::now(), ticks);
                    } else if ticks.saturating_sub(last.2) > 60 * 100 {
                        hung = Some("used 60 s of processor time without finishing");
                    } else if last.1.elapsed() > Duration::from_secs(240) {
                        let blocked = ticks.saturating_sub(last.2) < 100;
                        hung = Some(if blocked { "blocked" } else { "slow" });
                    }
                    if hung.is_some() {
                        let _ = child.kill();
                        break child.wait().ok();
                    }
                };
                let _ = rd.join();
                let tail = er.join().unwrap_or_default();
                let cur = read_hb().unwrap_or(start);
                let mut a = agg.lock().unwrap();
                if let Some(why) = hung {
                    if why == "slow" || why == "blocked" {
                        a.inconclusive.push(format!("case {cur}: {why}"));
                    } else {
                        a.viols.push((cur, Viol { sig: "hang".into(), msg: format!("case {cur} {why}"), input: json!({"case":cur}) }));
                    }
                    start = cur + stride;
                    continue;
                }
                if *done.lock().unwrap() {
                    return;
                }
                use std::os::unix::process::ExitStatusExt;
                let sig = status.and_then(|s| s.signal());
                match sig {
                    Some(9) => a.inconclusive.push(format!("case {cur}: worker killed (memory?)")),
                    Some(n) => {
                        let so = tail.iter().any(|l| l.contains("overflowed its stack"));
                        a.viols.push((
                            cur,
                            Viol {
                                sig: if so { "stack-overflow".into() } else { format!("signal-{n}") },
                                msg: format!("case {cur} ended the process with signal {n}: {}", tail.join(" | ")),
                                input: json!({"case":cur}),
                            },
                        ));
                    }
                    None => a.inconclusive.push(format!("case {cur}: worker ended early: {}", tail.join(" | "))),
                }
                start = cur + stride;
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap()
}

// ------------------------------------------------------------------------------------------------- verdict
/// `finding: property=P05 sig=<sig> :: text` lines of /verif/known_findings.txt
pub fn known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let s = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            if let Some((p, r)) = r.split_once(" sig=") {
                if p == prop {
                    if let Some((sig, what)) = r.split_once(" :: ") {
                        m.insert(sig.to_string(), what.to_string());
                    }
                }
            }
        }
    }
    m
}

pub fn conclude(id: &str, level: &str, seed: u64, thorough: bool, agg: Agg, rule: &str, assumptions: &[&str], must: &[&str], t0: Instant) -> i32 {
    let kf = known(id);
    if std::env::var("VH_ALL").is_ok() {
        for (idx, v) in &agg.viols {
            println!("ALL {idx} [{}] {}", v.sig, v.msg);
        }
    }
    let mut shown_known = BTreeSet::new();
    let mut by_sig: BTreeMap<String, (u64, Viol, usize)> = BTreeMap::new();
    for (idx, v) in &agg.viols {
        if kf.contains_key(&v.sig) {
            if shown_known.insert(v.sig.clone()) {
                println!("KNOWN-FINDING: property={id} {}", kf[&v.sig]);
            }
            continue;
        }
        let e = by_sig.entry(v.sig.clone()).or_insert((*idx, v.clone(), 0));
        e.2 += 1;
        if v.msg.len() < e.1.msg.len() {
            e.0 = *idx;
            e.1 = v.clone();
        }
    }
    let dir = format!("{VERIF}/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let mut n = 0;
    for (sig, (idx, v, times)) in &by_sig {
        n += 1;
        let path = format!("{dir}/{id}-{n}.json");
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({"property":id,"seed":seed,"tier":if thorough {"thorough"} else {"quick"},"idx":idx,"sig":sig,"msg":v.msg,"input":v.input,"times":times})).unwrap(),
        );
        if n <= 20 {
            println!("  [{sig}] x{times}: {}", v.msg.chars().take(1500).collect::<String>());
            println!("VIOLATION property={id} replay={path}");
        }
    }
    for i in agg.inconclusive.iter().take(10) {
        println!("INCONCLUSIVE {id}: {i}");
    }
    let mut missing: Vec<String> = vec![];
    for m in must {
        if agg.counts.get(*m).copied().unwrap_or(0) == 0 {
            missing.push(m.to_string());
        }
    }
    if !missing.is_empty() {
        println!("NOTE {id}: nothing observed for {missing:?} in this run");
    }
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": level,
        "coverage": {
            "evaluations": agg.evals, "distinct_nontrivial": agg.distinct.len(), "rule": rule,
            "samples": agg.samples, "observed": agg.counts, "inconclusive": agg.inconclusive, "not_observed": missing,
            "known_findings_seen": shown_known,
        },
        "assumptions": assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": by_sig.len(),
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id}: {} executions, {} distinct non-trivial, {} violation kinds, {} inconclusive, {:.1}s",
        agg.evals,
        agg.distinct.len(),
        by_sig.len(),
        agg.inconclusive.len(),
        t0.elapsed().as_secs_f64()
    );
    if by_sig.is_empty() { 0 } else { 1 }
}

pub fn run_check(spec: &Spec) -> i32 {
    let t0 = Instant::now();
    let (seed, thorough) = (env_seed(), env_thorough());
    let agg = run_workers(spec, seed, thorough);
    conclude(spec.id, spec.level, seed, thorough, agg, spec.rule, spec.assumptions, spec.must, t0)
}

// ------------------------------------------------------------------------------------------------- shrinking
/// Greedy reduction of a text while `bad` stays true: lines, then runs of characters.
pub fn shrink(text: &str, budget: Duration, mut bad: impl FnMut(&str) -> bool) -> String {
    let t0 = Instant::now();
    let mut cur = text.to_string();
    for by_line in [true, false] {
        let mut size = 64usize;
        loop {
            let parts: Vec<String> = if by_line { cur.split_inclusive('\n').map(|s| s.to_string()).collect() } else { cur.chars().map(|c| c.to_string()).collect() };
            if parts.len() <= 1 {
                break;
            }
            size = size.min(parts.len());
            let mut i = 0;
            let mut parts = parts;
            let mut changed = false;
            while i < parts.len() {
                if t0.elapsed() > budget {
                    return cur;
                }
                let j = (i + size).min(parts.len());
                let cand: String = parts[..i].iter().chain(parts[j..].iter()).map(|s| s.as_str()).collect();
                if !(i == 0 && j == parts.len()) && bad(&cand) {
                    parts.drain(i..j);
                    cur = cand;
                    changed = true;
                } else {
                    i = j;
                }
            }
            if size == 1 && !changed {
                break;
            }
            size = (size / 2).max(1);
            if size == 1 && !changed && parts.len() > 4000 {
                break;
            }
        }
    }
    cur
}

fn per_sig() -> usize {
    if std::env::var("VH_ALL").is_ok() { 12 } else { 2 }
}
