//! P15: memory safety. Each case runs one workload in a build that a sanitizer watches, and looks for its reports:
//! the tree programs of /verif/mem under Miri and AddressSanitizer (with their own monitor: a plain model of the tree),
//! and the other properties' workloads, together with the whole tool they start, under AddressSanitizer and
//! ThreadSanitizer. What those workloads' own monitors say is left to their own checks.
use crate::driver::*;
use crate::rng::Rng;
use serde_json::{Value as J, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// one round of jobs; a worker takes every eighth
const JOBS: &[(&str, &str)] = &[
    ("miri", "tree"),
    ("miri", "tree"),
    ("miri", "docs"),
    ("miri", "threads"),
    ("asan", "P06"),
    ("asan", "P03"),
    ("asan", "P14"),
    ("tsan", "P06"),
    ("asan-vm", "tree"),
    ("asan-vm", "docs"),
    ("asan", "P12"),
    ("miri", "tree"),
    ("tsan", "P12"),
    ("tsan", "P11"),
    ("tsan-vm", "threads"),
    ("asan", "P10"),
    ("miri", "tree"),
    ("miri", "docs"),
    ("miri", "tree"),
    ("asan", "P02"),
    ("asan", "P04"),
    ("tsan", "P13"),
    ("asan", "P01"),
    ("asan", "P11"),
];

fn dir(kind: &str) -> PathBuf {
    // the directory of each build, as check.sh made it
    let t = match kind {
        "asan" | "asan-vm" => "target-asan",
        "tsan" | "tsan-vm" => "target-tsan",
        _ => "target-miri",
    };
    let root = std::env::var("VERIF_SAN_ROOT").unwrap_or_else(|_| VERIF.into());
    Path::new(&root).join(t)
}

struct Mem {
    seed: u64,
    thorough: bool,
    scratch: PathBuf,
    worker: u64,
}
struct Out {
    out: String,
    err: String,
    code: Option<i32>,
    signal: Option<i32>,
    late: bool,
}

fn run(mut c: Command, limit: Duration, keep: &Path) -> Out {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let (o, e) = (keep.join("out"), keep.join("err"));
    let f = |p: &Path| std::fs::File::create(p).unwrap();
    let mut ch = c.stdin(Stdio::null()).stdout(f(&o)).stderr(f(&e)).process_group(0).spawn().expect("the sanitized program starts");
    let t0 = Instant::now();
    let mut late = false;
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            late = true;
            unsafe { libc_kill(-(ch.id() as i32), 9) };
            break ch.wait().ok();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Out { out: rd(&o), err: rd(&e), code: st.and_then(|s| s.code()), signal: st.and_then(|s| s.signal()), late }
}
unsafe extern "C" {
    #[link_name = "kill"]
    fn libc_kill(pid: i32, sig: i32) -> i32;
}

/// the functions of the code under test nearest to where a report points
fn frames(report: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in report.lines() {
        let t = l.trim();
        if !(t.starts_with('#') || t.contains(": ") || t.starts_with("at ")) {
            continue;
        }
        if let Some(at) = t.find("tombi_") {
            let f: String = t[at..].chars().take_while(|c| c.is_alphanumeric() || "_:<>{}#$".contains(*c)).collect();
            // without the hash at the end of a symbol
            let f = f.split("::h").next().unwrap_or("").trim_end_matches(':').to_string();
            if f.contains("::") && !v.contains(&f) {
                v.push(f);
            }
        }
        if v.len() == 2 {
            break;
        }
    }
    v
}
fn kind_of(report: &str) -> Option<String> {
    for l in report.lines() {
        for tool in ["AddressSanitizer: ", "LeakSanitizer: ", "ThreadSanitizer: "] {
            if let Some(i) = l.find(tool) {
                let k: String = l[i + tool.len()..].split(" on ").next().unwrap().split(" (").next().unwrap().chars().take(50).collect();
                return Some(k.trim().to_string());
            }
        }
    }
    None
}

impl Mem {
    fn reports(&self, d: &Path) -> Vec<String> {
        let mut v = vec![];
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with("san.") {
                v.push(String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).into_owned());
            }
        }
        v
    }
    fn judge(&self, rep: &mut Rep, what: &str, reports: &[String], input: &J) -> bool {
        let mut bad = false;
        for r in reports {
            let Some(k) = kind_of(r) else { continue };
            // the frames are several times larger here, so running out of stack says nothing
            if k.starts_with("stack-overflow") || k.contains("out-of-memory") || k.starts_with("failed to") {
                rep.count("reports_set_aside");
                continue;
            }
            let fs = frames(r);
            bad = true;
            let text: String = r.lines().filter(|l| !l.trim().is_empty()).take(40).collect::<Vec<_>>().join("\n");
            rep.viol(format!("{k}@{}", fs.first().cloned().unwrap_or_default()), format!("{what}: {text}"), input.clone());
        }
        bad
    }
}

impl Check for Mem {
    fn case(&mut self, idx: u64, rng: &mut Rng, rep: &mut Rep) {
        let (kind, job) = JOBS[idx as usize % JOBS.len()];
        if let Ok(only) = std::env::var("VH_JOBS") {
            if !only.split(',').any(|o| o == kind || o == job) {
                return;
            }
        }
        let round = idx / JOBS.len() as u64;
        let d = self.scratch.join(format!("mem{}", self.worker));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sc")).unwrap();
        let log = d.join("san").display().to_string();
        let seed = self.seed.wrapping_mul(1000).wrapping_add(idx);
        let secs: u64 = if self.thorough { 60 } else { 14 };
        let input = json!({"run": kind, "workload": job, "seed": seed});
        let what = format!("{kind} {job} seed {seed}");
        let bin = |n: &str| {
            let sub = if kind == "miri" { "miri/x86_64-unknown-linux-gnu/debug" } else { "x86_64-unknown-linux-gnu/debug" };
            dir(kind).join(sub).join(n)
        };
        // schemas that refer to themselves are reference cycles, which are never freed; the trees must be
        let leaks = (kind == "asan-vm" || matches!(job, "P01" | "P02" | "P03" | "P04")) as u8;
        let opts = |c: &mut Command| {
            c.env("ASAN_OPTIONS", format!("log_path={log}:detect_leaks={leaks}:abort_on_error=0:verify_asan_link_order=0:detect_stack_use_after_return=1"))
                .env("TSAN_OPTIONS", format!("log_path={log}:halt_on_error=0:second_deadlock_stack=1"))
                .env("RUST_BACKTRACE", "0");
        };
        match kind {
            "miri" | "asan-vm" | "tsan-vm" => {
                let mut c;
                let to = if kind == "miri" { 400 } else { 1_000_000 };
                let (mut limit, mut secs) = (Duration::from_secs(secs * 2 + 60), secs);
                if kind == "miri" {
                    secs = secs * 5 / 2;
                    limit = Duration::from_secs(secs * 2 + 100);
                    c = Command::new("cargo");
                    c.args(["miri", "run", "--offline", "--locked", "-q", "--"])
                        .current_dir(Path::new(VERIF).join("mem"))
                        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
                        .env("CARGO_TARGET_DIR", dir(kind))
                        // the aliasing rules are experimental, and this kind of tree does not follow them
                        .env("MIRIFLAGS", format!("-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate={}", rng.below(100000), [0.01, 0.05, 0.3][rng.below(3)]));
                    if let Ok(m) = std::env::var("VERIF_MEM_DIR") {
                        c.current_dir(m);
                    }
                } else {
                    c = Command::new(bin("vm"));
                }
                c.args([job, &seed.to_string(), "0", &to.to_string(), &secs.to_string()]);
                opts(&mut c);
                let o = run(c, limit, &d);
                let n = o.err.lines().filter(|l| l.starts_with("AT ")).count() as u64;
                let bad = self.judge(rep, &what, &self.reports(&d), &input);
                let done = o.out.lines().find(|l| l.starts_with("DONE "));
                if let Some(l) = done {
                    for kv in l.split(' ').skip(2) {
                        if let Some((k, v)) = kv.split_once('=') {
                            rep.add(&format!("{}_{k}", kind.replace('-', "_")), v.parse().unwrap_or(0));
                        }
                    }
                }
                rep.add(&format!("{}_{job}_programs", kind.replace('-', "_")), n);
                for i in 0..n {
                    rep.eval(&format!("{kind}{job}{seed}{i}"), true);
                }
                let at = o.err.lines().rev().find(|l| l.starts_with("AT ")).unwrap_or("").to_string();
                let ub = o.err.lines().position(|l| l.starts_with("error: ") && !l.contains("process didn't exit"));
                let panic = o.err.lines().position(|l| l.contains("panicked at"));
                let ctx = |i: usize| o.err.lines().skip(i).filter(|l| !l.trim().is_empty()).take(45).collect::<Vec<_>>().join("\n");
                if bad {
                } else if let (Some(i), "miri") = (ub, kind) {
                    let l = o.err.lines().nth(i).unwrap_or("");
                    let head: String = l.trim_start_matches("error: ").split(['(', '0']).next().unwrap_or("").chars().take(60).collect();
                    let all = ctx(i);
                    if l.contains("unsupported operation") || l.contains("could not compile") || l.contains("the stack") || l.contains("resource exhaustion") {
                        rep.count("reports_set_aside");
                    } else {
                        rep.viol(format!("miri:{}@{}", head.trim(), frames(&all).first().cloned().unwrap_or_default()), format!("{what} {at}: {all}"), input);
                    }
                } else if let Some(i) = panic {
                    let msg: Vec<&str> = o.err.lines().skip(i).take(4).collect();
                    let own = msg[0].contains("src/main.rs") || msg[0].contains("src/docs.rs");
                    let m: String = msg.get(1).unwrap_or(&"").chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                    rep.viol(format!("{}:{m}", if own { "model" } else { "panic" }), format!("{what} {at}: {}", ctx(i)), input);
                } else if o.late {
                    rep.count("ran_out_of_time");
                } else if done.is_none() {
                    if o.signal.is_some_and(|s| s != 9) && !o.err.contains("overflowed its stack") {
                        rep.viol(format!("signal-{}", o.signal.unwrap()), format!("{what} {at} ended with signal {:?}: {}", o.signal, ctx(0)), input);
                    } else {
                        rep.count("ended_early");
                        eprintln!("{what}: ended early {:?} {}", o.code, o.err.lines().rev().take(5).collect::<Vec<_>>().join(" | "));
                    }
                }
            }
            _ => {
                let mut c = Command::new(bin("vh"));
                // a place of its own in the workload: far from the cases the property's own check runs
                let start = (round + 1) * 1_000_003 + rng.below(1000) as u64;
                c.args(["worker", job, &seed.to_string(), "q", "0", "1", &start.to_string(), "99999999999", &secs.to_string()]).arg(d.join("sc"));
                opts(&mut c);
                let o = run(c, Duration::from_secs(secs * 3 + 60), &d);
                self.judge(rep, &what, &self.reports(&d), &input);
                let end: Option<J> = o.out.lines().rev().find_map(|l| serde_json::from_str::<J>(l).ok().filter(|j| j["t"] == "end"));
                match end {
                    Some(e) => {
                        rep.add(&format!("{kind}_{job}_executions"), e["evals"].as_u64().unwrap_or(0));
                        for x in e["distinct"].as_array().into_iter().flatten() {
                            rep.eval(&format!("{kind}{job}{x}"), true);
                        }
                        rep.count(&format!("{kind}_runs"));
                    }
                    None if o.late => rep.count("ran_out_of_time"),
                    None => match o.signal {
                        Some(s) if s != 9 && s != 6 => rep.viol(format!("signal-{s}"), format!("{what} ended with signal {s}: {}", o.err.chars().take(800).collect::<String>()), input),
                        _ => rep.count("ended_early"),
                    },
                }
            }
        }
        rep.sample(&what);
        let _ = std::fs::remove_dir_all(&d);
    }
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P15",
        quick_cases: 16,
        quick_s: 110,
        thorough_cases: 24 * 6,
        thorough_s: 600,
        workers: 8,
        level: "exploration",
        rule: "one program of tree edits, or one execution of another property's workload, watched by a sanitizer",
        assumptions: &[
            "Miri runs without the experimental aliasing rules (Stacked and Tree Borrows), which this kind of tree does not follow",
            "memory handled by foreign code (the C library, assembly in cryptography crates) is watched only at its borders",
        ],
        must: &["miri_tree_programs", "miri_threads_programs", "asan_vm_tree_programs", "asan_P03_executions", "tsan_P06_executions", "tsan_P12_executions"],
        make: |c| Box::new(Mem { seed: c.seed, thorough: c.thorough, scratch: c.scratch.clone(), worker: c.worker }),
    }]
}
