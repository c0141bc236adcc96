//! P06 the command line's truthfulness about files, P07 what it does when the operating system fails a call.
use crate::cli::{self, Ev, Run, Sand};
use crate::driver::*;
use crate::env::Env;
use crate::gen_;
use crate::opts;
use crate::rng::Rng;
use serde_json::json;
use std::collections::BTreeMap;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "P06",
            quick_cases: 800,
            quick_s: 60,
            thorough_cases: 1_000_000,
            thorough_s: 1200,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one run of the command line tool whose exit code, messages, system calls and effect on every file were judged; distinct non-trivial = distinct (files, arguments) pairs with at least one file",
            assumptions: &["the formatter and linter, called directly, decide what a file should become and whether it has errors", "schedules are varied by random delays inside file operations; not every interleaving is produced"],
            must: &["format_runs", "check_runs", "lint_runs", "stdin_runs", "files_rewritten", "files_refused", "events"],
            make: |c| Box::new(Cli { env: Env::new(), sand: Sand::new(c), all: gen_::corpus(), faults: false }),
        },
        Spec {
            id: "P07",
            quick_cases: 2400,
            quick_s: 60,
            thorough_cases: 1_000_000,
            thorough_s: 1200,
            workers: 8,
            level: "fault_enumeration",
            rule: "one evaluation = one run of the command line tool during which one chosen system call on one chosen file failed or came back short; distinct non-trivial = distinct (operation, occurrence, error, files) combinations in which the fault really happened",
            assumptions: &["faults are injected at the C library boundary (open, read, write, truncate, seek), one per run"],
            must: &["faults_hit", "fault_write", "fault_read", "fault_ftruncate", "fault_openw", "fault_openr", "short_io"],
            make: |c| Box::new(Cli { env: Env::new(), sand: Sand::new(c), all: gen_::corpus(), faults: true }),
        },
    ]
}

struct Cli {
    env: Env,
    sand: Sand,
    all: Vec<(String, String)>,
    faults: bool,
}

#[derive(Clone, Debug)]
enum Want {
    /// formatted text (may be the same as the source)
    Text(String),
    Refused,
    NotText,
}

#[derive(Clone)]
struct F {
    name: String,
    src: Vec<u8>,
    want: Want,
    lint_errors: bool,
    lint_warnings: bool,
}
impl F {
    fn changes(&self) -> bool {
        matches!(&self.want, Want::Text(t) if t.as_bytes() != self.src)
    }
    fn ok(&self) -> bool {
        matches!(self.want, Want::Text(_))
    }
    fn after(&self) -> &[u8] {
        match &self.want {
            Want::Text(t) => t.as_bytes(),
            _ => &self.src,
        }
    }
}

const DIRS: &[&str] = &["", "", "", "sub/", "sub/deep/er/", "o ther/", "ünï/"];

impl Cli {
    fn files(&self, r: &mut Rng, n: usize, v11: bool, o: &tombi_config::FormatOptions) -> Vec<F> {
        let tv = opts::toml_version(v11);
        let lo = tombi_config::LintOptions::default();
        let mut v = vec![];
        for i in 0..n {
            let name = format!("{}f{i}.toml", r.pick_str(DIRS));
            let mut text = match r.below(12) {
                0 => String::new(),
                1 => r.pick_str(&["\n", "  \n\n", "# c", "\t", "a = 1", "a = 1\r\n", "a.b = 1\nc=2\na.d = 3\n", "\"\" = 1\n"]).to_string(),
                2 => {
                    let d = super::toml::any_doc(r, &self.all, v11);
                    format!("#:tombi format.disabled = true\n\n{d}")
                }
                3 | 4 => {
                    let d = super::toml::any_doc(r, &self.all, v11);
                    gen_::mutate(r, &d, 1)
                }
                5 => super::toml::any_doc(r, &self.all, !v11),
                _ => super::toml::any_doc(r, &self.all, v11),
            };
            if text.len() > 6000 {
                text = "k = 1\n".into();
            }
            if r.chance(1, 60) {
                let unit = format!("{text}\n").replace('[', "#[");
                text = format!("# {}\n", "y".repeat(500)).repeat(r.range(100, 400)) + &format!("z{i}   = 1\n# {}", unit.lines().next().unwrap_or(""));
            }
            let mut src = text.clone().into_bytes();
            if r.chance(1, 15) {
                let at = r.below(src.len() + 1);
                src.insert(at, *r.pick(&[0xff, 0xc3, 0x80, 0xfe]));
            }
            let p = self.sand.work.join(&name);
            let (want, le, lw) = match std::str::from_utf8(&src) {
                Err(_) => (Want::NotText, true, false),
                Ok(t) => {
                    let ds = self.env.lint_at(t, tv, &lo, Some(&p));
                    let w = match self.env.format_at(t, tv, o, Some(&p)) {
                        Ok(x) => Want::Text(x),
                        Err(_) => Want::Refused,
                    };
                    (w, ds.iter().any(|d| d.error), ds.iter().any(|d| !d.error))
                }
            };
            let mut f = F { name, src, want, lint_errors: le, lint_warnings: lw };
            if r.chance(1, 4) && f.ok() {
                f.src = f.after().to_vec();
                let t = String::from_utf8(f.src.clone()).unwrap();
                match self.env.format_at(&t, tv, o, Some(&p)) {
                    Ok(x) => f.want = Want::Text(x),
                    Err(_) => f.want = Want::Refused,
                }
                let ds = self.env.lint_at(&t, tv, &lo, Some(&p));
                f.lint_errors = ds.iter().any(|d| d.error);
                f.lint_warnings = ds.iter().any(|d| !d.error);
            }
            v.push(f);
        }
        v
    }
    fn input(&self, fs: &[F], args: &[String], cfg: &str, extra: &str) -> serde_json::Value {
        json!({
            "args": args, "config": cfg, "env": extra,
            "files": fs.iter().map(|f| json!({"name": f.name, "text": String::from_utf8_lossy(&f.src), "bytes": if std::str::from_utf8(&f.src).is_err() { json!(f.src) } else { json!(null) }})).collect::<Vec<_>>(),
        })
    }
    fn put_all(&self, fs: &[F], cfg: &str) {
        self.sand.clear_work();
        self.sand.put("tombi.toml", cfg.as_bytes());
        for f in fs {
            self.sand.put(&f.name, &f.src);
        }
    }
}

fn names_in(err: &str, tail: &str) -> Vec<String> {
    let mut v: Vec<String> = err
        .lines()
        .filter_map(|l| l.trim_end().strip_suffix(tail))
        .filter_map(|l| l.find('"').map(|i| l[i + 1..].trim_end().trim_end_matches('"').to_string()))
        .collect();
    v.sort();
    v
}
/// the names as the tool may print them: relative, with ./, or absolute
fn same_names(got: &[String], want: &[String]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut left: Vec<&String> = want.iter().collect();
    for g in got {
        let g = g.replace("\\u{308}", "\u{308}");
        match left.iter().position(|w| g == **w || g.ends_with(&format!("/{w}"))) {
            Some(i) => {
                left.remove(i);
            }
            None => return false,
        }
    }
    true
}

impl Check for Cli {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        if self.sand.shim.is_none() && !self.sand.build_shim() {
            rep.viol("harness:no-shim", "the call-logging shim does not build", json!({}));
            return;
        }
        let v11 = r.chance(1, 3);
        let mut rules = opts::random_rules(r);
        rules.remove("line-width"); // documented under overrides only
        let o = opts::options(&rules);
        let rules_toml = opts::rules_toml(&rules);
        let cfg = format!("toml-version = \"{}\"\n[files]\nexclude = [\"tombi.toml\"]\n{rules_toml}", if v11 { "v1.1.0" } else { "v1.0.0" });
        let n = if self.faults { r.range(1, 3) } else { *r.pick(&[0, 1, 1, 2, 3, 5, 9]) };
        let fs = self.files(r, n, v11, &o);
        if self.faults {
            self.fault_case(r, rep, &fs, &cfg);
        } else {
            self.truth_case(r, rep, &fs, &cfg);
        }
    }
}

impl Cli {
    fn truth_case(&mut self, r: &mut Rng, rep: &mut Rep, fs: &[F], cfg: &str) {
        self.put_all(fs, cfg);
        let before = self.sand.snapshot();
        // how the files are named on the command line
        let missing = r.chance(1, 12);
        let style = if fs.is_empty() { r.below(2) } else { r.below(6) };
        let mut paths: Vec<String> = match style {
            0 => vec![],
            1 => vec![".".into()],
            2 => vec!["**/*.toml".into()],
            _ => {
                let mut v: Vec<String> = vec![];
                for f in fs {
                    for _ in 0..if r.chance(1, 6) { 2 } else { 1 } {
                        v.push(match r.below(5) {
                            0 => format!("./{}", f.name),
                            1 => self.sand.work.join(&f.name).display().to_string(),
                            _ => f.name.clone(),
                        });
                    }
                }
                r.shuffle(&mut v);
                if style == 5 {
                    v.push(".".into());
                }
                v
            }
        };
        let missing = missing && !paths.is_empty();
        if missing {
            let at = r.below(paths.len() + 1);
            paths.insert(at, "no/such.toml".into());
        }
        let delay = if r.chance(1, 2) { vec![("VF_DELAY", format!("any:toml:{}", *r.pick(&[300, 3000, 12000])))] } else { vec![] };
        let short = if delay.is_empty() || r.chance(1, 2) { vec![] } else { vec![("VF_FAIL", "read:toml:0:short".to_string())] };
        let extra: Vec<(&str, String)> = delay.into_iter().chain(short).collect();
        let quiet = r.chance(1, 8);
        let mk = |head: &[&str], r: &mut Rng, paths: &[String]| {
            let mut a: Vec<String> = head.iter().map(|s| s.to_string()).collect();
            if quiet {
                a.push("--quiet".into());
            }
            let mut p = paths.to_vec();
            if r.chance(1, 2) {
                r.shuffle(&mut p);
            }
            a.extend(p);
            a.push("--offline".into());
            a
        };
        let miss = missing as u64;
        let key: String = fs.iter().map(|f| format!("{}\0{}", f.name, String::from_utf8_lossy(&f.src))).collect::<Vec<_>>().join("\0");

        // --- lint: reports, never writes
        let eow = r.chance(1, 4);
        let a = mk(if eow { &["lint", "--error-on-warnings"] } else { &["lint"] }, r, &paths);
        let (run, evs) = self.shim(&a, None, &extra);
        rep.count("lint_runs");
        rep.add("events", evs.len() as u64);
        rep.eval(&format!("{key}\0{a:?}"), !fs.is_empty());
        let input = self.input(fs, &a, cfg, &format!("{extra:?}"));
        let bad = fs.iter().filter(|f| f.lint_errors || (eow && f.lint_warnings)).count() as u64 + miss;
        if let Some(c) = run.crashed() {
            rep.viol("lint-crash", format!("lint {c}"), input.clone());
        } else {
            if (run.code != 0) != (bad > 0) {
                rep.viol("lint-exit-code", format!("{bad} files have errors but lint says {}", run.brief()), input.clone());
            }
            if !quiet && (cli::summary(&run.err, " failed to be linted") != bad || cli::summary(&run.err, " linted successfully") != fs.len() as u64 + miss - bad) {
                rep.viol("lint-summary", format!("{bad} of {} files have errors but lint says {}", fs.len(), run.brief()), input.clone());
            }
        }
        self.untouched("lint", &before, &evs, rep, &input);

        // --- format --check: reports, never writes
        let a = mk(if r.chance(1, 4) { &["format", "--check", "--diff"] } else { &["format", "--check"] }, r, &paths);
        let (run, evs) = self.shim(&a, None, &extra);
        rep.count("check_runs");
        rep.add("events", evs.len() as u64);
        rep.eval(&format!("{key}\0{a:?}"), !fs.is_empty());
        let input = self.input(fs, &a, cfg, &format!("{extra:?}"));
        let bad = fs.iter().filter(|f| !f.ok() || f.changes()).count() as u64 + miss;
        if let Some(c) = run.crashed() {
            rep.viol("check-crash", format!("format --check {c}"), input.clone());
        } else {
            if (run.code != 0) != (bad > 0) {
                rep.viol("check-exit-code", format!("{bad} files are not formatted but --check says {}", run.brief()), input.clone());
            }
            let want: Vec<String> = fs.iter().filter(|f| f.changes()).map(|f| f.name.clone()).collect();
            let got = names_in(&run.err, " is not formatted");
            if !same_names(&got, &want) {
                rep.viol("check-names", format!("formatting would change {want:?}, but --check names {got:?}: {}", run.brief()), input.clone());
            }
            if !quiet && (cli::summary(&run.err, " failed to be formatted") != bad || cli::summary(&run.err, " did not need formatting") != fs.len() as u64 + miss - bad) {
                rep.viol("check-summary", format!("{bad} of {} files not formatted, but --check says {}", fs.len(), run.brief()), input.clone());
            }
        }
        self.untouched("format --check", &before, &evs, rep, &input);

        // --- format: every file becomes what the formatter makes of it, or stays
        let a = mk(if r.chance(1, 6) { &["format", "--diff"] } else { &["format"] }, r, &paths);
        let (run, evs) = self.shim(&a, None, &extra);
        rep.count("format_runs");
        rep.add("events", evs.len() as u64);
        rep.eval(&format!("{key}\0{a:?}"), !fs.is_empty());
        let input = self.input(fs, &a, cfg, &format!("{extra:?}"));
        let refused = fs.iter().filter(|f| !f.ok()).count() as u64 + miss;
        let changed = fs.iter().filter(|f| f.changes()).count() as u64;
        if let Some(c) = run.crashed() {
            rep.viol("format-crash", format!("format {c}"), input.clone());
        } else {
            if (run.code != 0) != (refused > 0) {
                rep.viol("format-exit-code", format!("{refused} files cannot be formatted but format says {}", run.brief()), input.clone());
            }
            if !quiet
                && (cli::summary(&run.err, " failed to be formatted") != refused
                    || cli::summary(&run.err, " formatted") != changed
                    || cli::summary(&run.err, " did not need formatting") != fs.len() as u64 + miss - refused - changed)
            {
                rep.viol("format-summary", format!("{changed} changed, {refused} refused of {}, but format says {}", fs.len(), run.brief()), input.clone());
            }
        }
        let after = self.sand.snapshot();
        for f in fs {
            rep.count(if !f.ok() {
                "files_refused"
            } else if f.changes() {
                "files_rewritten"
            } else {
                "files_already_formatted"
            });
            let (b, m, _, t) = &before[&f.name];
            match after.get(&f.name) {
                None => rep.viol("format-lost-file", format!("{} is gone after format: {}", f.name, run.brief()), input.clone()),
                Some((x, m2, _, t2)) => {
                    if x != f.after() {
                        rep.viol(
                            if !f.ok() { "format-touched-refused" } else { "format-content" },
                            format!("{}: after format the file has {:?}, expected {:?}", f.name, String::from_utf8_lossy(x), String::from_utf8_lossy(f.after())),
                            input.clone(),
                        );
                    }
                    if m != m2 {
                        rep.viol("format-metadata", format!("{}: the mode of the file changed", f.name), input.clone());
                    }
                    if x == b && t != t2 {
                        rep.viol("format-rewrote-unchanged", format!("{}: rewritten although nothing changed", f.name), input.clone());
                    }
                }
            }
        }
        if after.len() != before.len() || after["tombi.toml"].0 != before["tombi.toml"].0 {
            rep.viol("format-stray-file", format!("files before {:?}, after {:?}", before.keys(), after.keys()), input.clone());
        }

        // --- one text through standard input
        if let Some(f) = fs.first() {
            let with_name = r.chance(1, 2);
            let mut a: Vec<String> = vec!["format".into(), "-".into(), "--offline".into()];
            if with_name {
                a.extend(["--stdin-filename".into(), f.name.clone()]);
            }
            let (run, _) = self.shim(&a, Some(&f.src), &[]);
            rep.count("stdin_runs");
            rep.eval(&format!("{key}\0{a:?}"), true);
            let input = self.input(&fs[..1], &a, cfg, "");
            if let Some(c) = run.crashed() {
                rep.viol("stdin-crash", format!("format - {c}"), input.clone());
            } else if !matches!(f.want, Want::NotText) && (run.out != f.after() || (run.code != 0) != !f.ok()) {
                rep.viol("stdin-output", format!("expected {:?} on standard output, got {}", String::from_utf8_lossy(f.after()), run.brief()), input.clone());
            } else if matches!(f.want, Want::NotText) && run.code == 0 {
                rep.viol("stdin-output", format!("the input is not text, yet {}", run.brief()), input.clone());
            }
            let a: Vec<String> = ["format", "--check", "-", "--offline"].iter().map(|s| s.to_string()).collect();
            let (run, _) = self.shim(&a, Some(&f.src), &[]);
            rep.count("stdin_runs");
            let bad = !f.ok() || f.changes();
            if run.crashed().is_some() || (run.code != 0) != bad {
                rep.viol("stdin-check", format!("formatting would change the input: {bad}, but {}", run.brief()), self.input(&fs[..1], &a, cfg, ""));
            }
            let a: Vec<String> = ["lint", "-", "--offline"].iter().map(|s| s.to_string()).collect();
            let (run, _) = self.shim(&a, Some(&f.src), &[]);
            rep.count("stdin_runs");
            if run.crashed().is_some() || (run.code != 0) != f.lint_errors || !run.out.is_empty() {
                rep.viol("stdin-lint", format!("the input has errors: {}, but {}", f.lint_errors, run.brief()), self.input(&fs[..1], &a, cfg, ""));
            }
        }
        rep.sample(&format!("{a:?} on {:?}", fs.iter().map(|f| (&f.name, f.changes(), f.ok())).collect::<Vec<_>>()));
    }
    fn shim(&mut self, a: &[String], stdin: Option<&[u8]>, extra: &[(&str, String)]) -> (Run, Vec<Ev>) {
        let v: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        self.sand.run_shim(&v, stdin, extra)
    }
    fn untouched(&self, what: &str, before: &BTreeMap<String, (Vec<u8>, u32, u64, i64)>, evs: &[Ev], rep: &mut Rep, input: &serde_json::Value) {
        if let Some(e) = evs.iter().find(|e| ["openw", "write", "ftruncate", "rename", "unlink"].contains(&e.op.as_str()) && !e.path.starts_with('/')) {
            rep.viol("read-only-run-writes", format!("{what} must not write, but: {e:?}"), input.clone());
        }
        let now = self.sand.snapshot();
        if &now != before {
            rep.viol("read-only-run-changed-files", format!("{what} changed files"), input.clone());
        }
    }

    fn fault_case(&mut self, r: &mut Rng, rep: &mut Rep, fs: &[F], cfg: &str) {
        self.put_all(fs, cfg);
        let before = self.sand.snapshot();
        let lint = r.chance(1, 5);
        let check = !lint && r.chance(1, 6);
        let t = r.below(fs.len());
        let target = fs[t].clone();
        let op = if lint || check { r.pick_str(&["openr", "read", "read"]) } else { r.pick_str(&["write", "write", "write", "ftruncate", "lseek", "read", "openw"]) };
        let nth = match op {
            "read" | "write" => *r.pick(&[1, 1, 2, 3, 0]),
            _ => 1,
        };
        let act = match op {
            "read" => r.pick_str(&["EIO", "EINTR", "short", "EIO"]),
            "write" => r.pick_str(&["ENOSPC", "EIO", "EFBIG", "EINTR", "short"]),
            "openw" | "openr" => r.pick_str(&["EACCES", "EMFILE", "EIO"]),
            _ => "EIO",
        };
        let nth = if act == "EINTR" && nth == 0 { 1 } else { nth };
        let suf = format!("/{}", target.name);
        let mut extra = vec![("VF_FAIL", format!("{op}:{suf}:{nth}:{act}"))];
        if r.chance(1, 3) {
            extra.push(("VF_DELAY", format!("any:toml:{}", *r.pick(&[300, 3000]))));
        }
        let mut a: Vec<String> = vec![if lint { "lint" } else { "format" }.into()];
        if check {
            a.push("--check".into());
        }
        if r.chance(1, 2) {
            a.extend(fs.iter().map(|f| f.name.clone()));
        }
        a.push("--offline".into());
        let (run, evs) = self.shim(&a, None, &extra);
        rep.add("events", evs.len() as u64);
        let input = self.input(fs, &a, cfg, &format!("{extra:?}"));
        let hit = evs.iter().any(|e| e.op == "injected");
        let short = act == "short";
        if hit {
            rep.count("faults_hit");
            rep.count(&format!("fault_{op}"));
            rep.count(&format!("errno_{act}"));
        } else if short {
            rep.count("short_io");
        } else {
            rep.count("fault_not_reached");
        }
        let key = format!("{op}{nth}{act}{lint}{check}{}", fs.iter().map(|f| String::from_utf8_lossy(&f.src).into_owned()).collect::<Vec<_>>().join("\0"));
        rep.eval(&key, hit || short);
        if let Some(c) = run.crashed() {
            rep.viol("fault-crash", format!("{op} {act}: {c}"), input.clone());
            return;
        }
        let lethal = hit && act != "EINTR";
        let after = self.sand.snapshot();
        let others_bad = fs.iter().enumerate().filter(|(i, f)| *i != t && if lint { f.lint_errors } else if check { !f.ok() || f.changes() } else { !f.ok() }).count() as u64;
        let target_bad = lethal || if lint { target.lint_errors } else if check { !target.ok() || target.changes() } else { !target.ok() };
        let bad = others_bad + target_bad as u64;
        if (run.code != 0) != (bad > 0) {
            rep.viol(
                if lethal { "fault-not-reported" } else { "fault-exit-code" },
                format!("{op} number {nth} on {} came back with {act}; {bad} files should be reported as failed, but {}", target.name, run.brief()),
                input.clone(),
            );
        }
        let failed = cli::summary(&run.err, if lint { " failed to be linted" } else { " failed to be formatted" });
        if failed != bad {
            rep.viol("fault-summary", format!("{op} {nth} {act} on {}: {bad} files should be reported as failed, but {}", target.name, run.brief()), input.clone());
        }
        for (i, f) in fs.iter().enumerate() {
            let Some((x, ..)) = after.get(&f.name) else {
                rep.viol("fault-lost-file", format!("{} is gone", f.name), input.clone());
                continue;
            };
            let writes = !lint && !check;
            if i == t && lethal {
                // only a failure while rewriting may leave the file other than it was
                if !(writes && op == "write") && x != &f.src {
                    rep.viol("fault-damaged-file", format!("{op} failed with {act}, yet {} changed to {:?}", f.name, String::from_utf8_lossy(x)), input.clone());
                }
            } else {
                let want: &[u8] = if writes { f.after() } else { &f.src };
                if x != want {
                    rep.viol("fault-content", format!("{op} {nth} {act} on {}: {} has {:?}, expected {:?}", target.name, f.name, String::from_utf8_lossy(x), String::from_utf8_lossy(want)), input.clone());
                }
            }
        }
        if after.len() != before.len() {
            rep.viol("fault-stray-file", format!("files before {:?}, after {:?}", before.keys(), after.keys()), input.clone());
        }
        rep.sample(&format!("{a:?} {extra:?} -> exit {}", run.code));
    }
}
