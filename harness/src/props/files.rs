//! P08 which files are selected, P09 which configuration is in force.
use crate::cli::Sand;
use crate::driver::*;
use crate::glob;
use crate::rng::Rng;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "P08",
            quick_cases: 2200,
            quick_s: 60,
            thorough_cases: 1_000_000,
            thorough_s: 1000,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one run over a directory tree whose set of handled files was compared with the set an independent reader of globs and git's own ignore rules gives; distinct non-trivial = distinct (tree, configuration, arguments) in which some file is selected and some file is left out",
            assumptions: &["git's ls-files decides what ignore files say; .gitignore counts only inside a repository (a .git directory above)", "globs are *, ?, [..], {..} and ** by segments"],
            must: &["no_args", "dir_args", "glob_args", "file_args", "selected", "left_out", "ignored_by_ignore_files", "excluded"],
            make: |c| Box::new(Files { sand: Sand::new(c), ready: false }),
        },
        Spec {
            id: "P09",
            quick_cases: 4200,
            quick_s: 60,
            thorough_cases: 1_000_000,
            thorough_s: 1000,
            workers: 8,
            level: "exploration",
            rule: "one evaluation = one run in a directory tree holding several configuration files, whose output shows which of them is in force; distinct non-trivial = distinct (tree of configurations, working directory, document) with at least two candidates",
            assumptions: &["no system-wide configuration in /etc/tombi (the check leaves /etc alone)"],
            must: &["project_config", "pyproject_config", "user_config", "no_config", "broken_config", "override_applies", "override_disabled", "directive_version"],
            make: |c| Box::new(Conf { sand: Sand::new(c) }),
        },
    ]
}

const VCS: &[&str] = &[".git", ".hg", ".svn", ".bzr", ".jj", ".sl"];

// ------------------------------------------------------------------------------------------------ selection
struct Files {
    sand: Sand,
    ready: bool,
}

const NAMES: &[&str] = &["a.toml", "b.toml", "Cargo.lock", "x.tml", "c.toml.bak", ".hidden.toml", "toml", "my file.toml", "é1.toml", "data1.toml", "data2.toml", "README.md", "UPPER.TOML"];
const DIRNAMES: &[&str] = &["src", "sub", "vendor", ".hid", "target", "deep", "d d", ".config2", "tests"];
const PATS: &[&str] = &[
    "**/*.toml", "*.toml", "**/a.toml", "src/**/*.toml", "sub/*", "**/vendor/**", "vendor/**", "**/data?.toml", "**/data[12].toml", "**/*", "*/*.toml",
    "**/.hid/**", "a.toml", "**/*.lock", "**/[!a].toml", "sub/**", "**/deep/*.toml", "src/*.toml", "d*/**", "**/.*",
];
const IGN: &[&str] = &["target/", "*.lock", "/a.toml", "vendor", "sub/*.toml", "b.toml", "!a.toml", "**/deep", "data?.toml", "/src/*", "!/src/b.toml", "*.toml", "!*.toml", "# comment", "", ".hid/"];

impl Files {
    fn init(&mut self) {
        if !self.ready {
            self.ready = true;
            let _ = Command::new("git").args(["init", "-q", "--bare"]).arg(self.sand.base.join("gitdir")).env("HOME", &self.sand.base).output();
        }
    }
    /// the files git would leave in, going by the given per-directory ignore file name
    fn kept_by(&self, per_dir: Option<&str>, extra: Option<&str>) -> Option<BTreeSet<String>> {
        let mut c = Command::new("git");
        c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &self.sand.base).env("GIT_CONFIG_NOSYSTEM", "1");
        c.arg("-c").arg("core.quotePath=false").arg("-c").arg("safe.directory=*");
        c.arg("--git-dir").arg(self.sand.base.join("gitdir")).arg("--work-tree").arg(&self.sand.work);
        c.args(["ls-files", "-o", "-z"]).current_dir(&self.sand.work);
        if let Some(p) = per_dir {
            c.arg(format!("--exclude-per-directory={p}"));
        }
        if let Some(p) = extra {
            c.arg(format!("--exclude-from={p}"));
        }
        let o = c.output().ok()?;
        if !o.status.success() {
            return None;
        }
        Some(String::from_utf8_lossy(&o.stdout).split('\0').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
    }
}

fn toml_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", "))
}

impl Check for Files {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        self.init();
        self.sand.clear_work();
        // the tree
        let mut dirs: Vec<String> = vec!["".into()];
        for _ in 0..r.below(7) {
            let p = r.pick(&dirs).clone();
            let n = if r.chance(1, 10) { r.pick_str(&VCS[1..]) } else { r.pick_str(DIRNAMES) };
            dirs.push(format!("{p}{n}/"));
        }
        dirs.sort();
        dirs.dedup();
        let mut files: BTreeSet<String> = BTreeSet::new();
        for d in &dirs {
            for _ in 0..r.range(0, 4) {
                files.insert(format!("{d}{}", r.pick_str(NAMES)));
            }
        }
        for f in &files {
            self.sand.put(f, b"a=1\n");
        }
        for d in &dirs {
            std::fs::create_dir_all(self.sand.work.join(d)).unwrap();
        }
        if r.chance(1, 5) {
            let d = r.pick(&dirs).clone();
            let _ = std::os::unix::fs::symlink(self.sand.work.join(files.iter().next().map(|s| s.as_str()).unwrap_or("nothing")), self.sand.work.join(format!("{d}link.toml")));
            let _ = std::os::unix::fs::symlink(self.sand.work.join("src"), self.sand.work.join(format!("{d}linkdir")));
        }
        // ignore files
        let repo = r.chance(1, 2);
        let mut info = None;
        if repo {
            std::fs::create_dir_all(self.sand.work.join(".git/info")).unwrap();
            std::fs::write(self.sand.work.join(".git/HEAD"), "ref: refs/heads/main\n").unwrap();
            std::fs::write(self.sand.work.join(".git/x.toml"), "a=1\n").unwrap();
            if r.chance(1, 4) {
                let t = format!("{}\n", r.pick_str(&["data?.toml", "vendor/", "/b.toml"]));
                std::fs::write(self.sand.work.join(".git/info/exclude"), &t).unwrap();
                info = Some(self.sand.work.join(".git/info/exclude").display().to_string());
            }
        }
        let mut ign = vec![];
        for d in &dirs {
            for name in [".gitignore", ".ignore"] {
                if r.chance(1, 6) {
                    // negations only in .gitignore, so that the two kinds of file simply add up
                    let t: String = (0..r.range(1, 3)).map(|_| r.pick_str(IGN)).filter(|p| name == ".gitignore" || !p.starts_with('!')).map(|p| format!("{p}\n")).collect();
                    self.sand.put(&format!("{d}{name}"), t.as_bytes());
                    ign.push(format!("{d}{name}: {t:?}"));
                }
            }
        }
        // a negation in a file below must not meet info/exclude
        let respect = r.chance(2, 3);
        // configuration
        let include: Option<Vec<&str>> = if r.chance(1, 2) { None } else { Some((0..r.range(1, 3)).map(|_| r.pick_str(PATS)).collect()) };
        let exclude: Option<Vec<&str>> = if r.chance(1, 2) { None } else { Some((0..r.range(1, 2)).map(|_| r.pick_str(PATS)).collect()) };
        let has_cfg = include.is_some() || exclude.is_some() || !respect || r.chance(1, 2);
        let root_dir: String = if has_cfg { dirs.iter().filter(|d| !d.split('/').any(|s| VCS.contains(&s))).nth(r.below(2).min(dirs.len() - 1)).cloned().unwrap_or_default() } else { String::new() };
        let cfg_name = r.pick_str(&["tombi.toml", ".tombi.toml", ".config/tombi.toml"]);
        let cfg_rel = format!("{root_dir}{cfg_name}");
        let mut cfg = String::from("[files]\n");
        if let Some(i) = &include {
            cfg += &format!("include = {}\n", toml_list(i));
        }
        if let Some(e) = &exclude {
            cfg += &format!("exclude = {}\n", toml_list(e));
        }
        if !respect || r.chance(1, 3) {
            cfg += &format!("respect-ignore-files = {respect}\n");
        }
        let cfg_file = if r.chance(1, 2) { cfg.replace(" = ", "=") } else { cfg.clone() };
        if has_cfg {
            self.sand.put(&cfg_rel, cfg_file.as_bytes());
        }
        // --- what ignore files leave in
        let git = if repo { self.kept_by(Some(".gitignore"), info.as_deref()) } else { self.kept_by(None, None) };
        let plain = self.kept_by(Some(".ignore"), None);
        let all = self.kept_by(None, None);
        let (Some(git), Some(plain), Some(all)) = (git, plain, all) else {
            rep.count("git_refused");
            return;
        };
        if info.is_some() && ign.iter().any(|s| s.contains('!')) {
            rep.count("skipped_negation_over_info_exclude");
            return;
        }
        let regular: BTreeSet<String> = all
            .into_iter()
            .filter(|p| std::fs::symlink_metadata(self.sand.work.join(p)).map(|m| m.is_file()).unwrap_or(false))
            .filter(|p| !p.split('/').rev().skip(1).any(|s| VCS.contains(&s)))
            .collect();
        let respect = !has_cfg || respect;
        let kept: BTreeSet<String> = regular.iter().filter(|p| !respect || (git.contains(*p) && plain.contains(*p))).cloned().collect();
        let inc: Vec<&str> = if has_cfg { include.clone().unwrap_or(vec!["**/*.toml"]) } else { vec!["**/*.toml"] };
        let exc: Vec<&str> = if has_cfg { exclude.clone().unwrap_or_default() } else { vec![] };
        let select = |root: &str, inc: &[&str]| -> BTreeSet<String> {
            kept.iter()
                .filter(|p| p.starts_with(root))
                .filter(|p| {
                    let rel = &p[root.len()..];
                    inc.iter().any(|g| glob::matches(g, rel)) && !exc.iter().any(|g| glob::matches(g, rel))
                })
                .cloned()
                .collect()
        };
        // directories a run may start in or be given: not ignored, not metadata
        let usable: Vec<&String> = dirs.iter().filter(|d| d.is_empty() || kept.iter().any(|k| k.starts_with(d.as_str()))).filter(|d| !d.split('/').any(|s| VCS.contains(&s))).collect();
        let tree = json!({"files": regular, "ignore": ign, "repo": repo, "info_exclude": info.is_some(), "config": if has_cfg { json!({"path": cfg_rel, "text": cfg}) } else { json!(null) }});
        for _ in 0..3 {
            // working directory: below the configuration
            let cwds: Vec<&&String> = usable.iter().filter(|d| d.starts_with(&root_dir)).collect();
            if cwds.is_empty() {
                return;
            }
            let cwd = r.pick(&cwds).to_string();
            let root = if has_cfg { root_dir.clone() } else { cwd.clone() };
            let mut missing = 0;
            let kind = r.below(4);
            let (args, want): (Vec<String>, BTreeSet<String>) = match kind {
                0 => {
                    rep.count("no_args");
                    (vec![], select(&root, &inc))
                }
                1 => {
                    rep.count("dir_args");
                    // a directory on the command line is searched with patterns relative to itself
                    let d = if r.chance(1, 2) { cwd.clone() } else { r.pick(&cwds).to_string() };
                    let arg = if d == cwd { ".".to_string() } else { self.sand.work.join(&d).display().to_string() };
                    (vec![arg], select(&d, &inc))
                }
                2 => {
                    rep.count("glob_args");
                    let g = r.pick_str(PATS);
                    if !g.contains(['*', '?', '[', ']']) {
                        continue;
                    }
                    (vec![g.into()], select(&root, &[g]))
                }
                _ => {
                    rep.count("file_args");
                    let mut w = BTreeSet::new();
                    let mut a = vec![];
                    for _ in 0..r.range(1, 4) {
                        if r.chance(1, 6) {
                            a.push("nowhere.toml".to_string());
                            missing += 1;
                            continue;
                        }
                        // any regular file, ignored, hidden or in a metadata directory or not
                        let pool: Vec<&String> = files.iter().filter(|f| f.starts_with(&root)).collect();
                        if pool.is_empty() {
                            continue;
                        }
                        let f = r.pick(&pool).to_string();
                        if f.contains(['*', '?', '[', ']']) {
                            continue;
                        }
                        let abs = self.sand.work.join(&f).display().to_string();
                        a.push(if f.starts_with(&cwd) && r.chance(3, 4) { format!("{}{}", if r.chance(1, 3) { "./" } else { "" }, &f[cwd.len()..]) } else { abs });
                        if exc.iter().any(|g| glob::matches(g, &f[root.len()..])) {
                            rep.count("explicit_excluded");
                        } else {
                            w.insert(f);
                        }
                    }
                    if a.is_empty() {
                        continue;
                    }
                    if a.len() == 1 && a[0] == "-" {
                        continue;
                    }
                    (a, w)
                }
            };
            let mut full = vec!["format".to_string(), "--check".into(), "--offline".into()];
            full.extend(args.clone());
            let wd = self.sand.work.join(&cwd);
            let run = self.sand.run_full(&full, None, &wd, &[]);
            let input = json!({"tree": tree, "cwd": cwd, "args": args});
            if let Some(c) = run.crashed() {
                rep.viol("select-crash", c, input);
                continue;
            }
            // the configuration file itself may be among them; it is judged only by whether it was handled
            let mut got: Vec<String> = run
                .err
                .lines()
                .filter_map(|l| l.strip_suffix(" is not formatted"))
                .filter_map(|l| l.find('"').map(|i| l[i + 1..l.len() - 1].to_string()))
                .map(|p| p.strip_prefix("./").unwrap_or(&p).to_string())
                .map(|p| match p.strip_prefix(&format!("{}/", self.sand.work.display())) {
                    Some(x) => x.replace("/./", "/"),
                    None => format!("{cwd}{p}"),
                })
                .collect();
            got.sort();
            let dup = got.windows(2).any(|w| w[0] == w[1]);
            let got: BTreeSet<String> = got.into_iter().collect();
            // only files with the unformatted marker can show up
            let is_marked = |p: &String| files.contains(p);
            let want: BTreeSet<String> = want.into_iter().filter(is_marked).collect();
            let got: BTreeSet<String> = got.into_iter().filter(|p| p != &cfg_rel && !p.ends_with(".ignore") && !p.ends_with(".gitignore")).collect();
            rep.eval(&input.to_string(), !want.is_empty() && want.len() < files.len());
            rep.add("selected", want.len() as u64);
            rep.add("left_out", (files.len() - want.len()) as u64);
            rep.add("ignored_by_ignore_files", (regular.len() - kept.len()) as u64);
            if !exc.is_empty() {
                rep.count("excluded");
            }
            if got != want {
                let extra: Vec<_> = got.difference(&want).collect();
                let lost: Vec<_> = want.difference(&got).collect();
                let sig = format!("{}:{}", ["no-args", "dir", "glob", "file"][kind], if !lost.is_empty() { "missed" } else { "unexpected" });
                rep.viol(sig, format!("args {args:?} in {cwd:?}: not handled {lost:?}, handled but should not be {extra:?}; {}", run.brief()), input.clone());
            }
            if dup {
                rep.viol("file-handled-twice", format!("args {args:?}: {}", run.brief()), input.clone());
            }
            if missing > 0 && (run.code == 0 || !run.err.contains("nowhere.toml")) {
                rep.viol("missing-file-not-reported", format!("args {args:?}: {}", run.brief()), input.clone());
            }
            rep.sample(&format!("{args:?} in {cwd:?}: {} of {} files", want.len(), files.len()));
        }
    }
}

// ------------------------------------------------------------------------------------------------ configuration
struct Conf {
    sand: Sand,
}

#[derive(Clone, Debug, Default)]
struct C {
    path: String,
    /// spaces around `=`: the mark this configuration leaves
    eq: usize,
    comma: Option<usize>,
    v11: Option<bool>,
    key_empty: Option<&'static str>,
    broken: bool,
    no_section: bool,
    over: Vec<Over>,
}
#[derive(Clone, Debug)]
struct Over {
    include: Vec<&'static str>,
    exclude: Vec<&'static str>,
    format_enabled: Option<bool>,
    eq: Option<usize>,
    has_format: bool,
    lint_enabled: Option<bool>,
    key_empty: Option<&'static str>,
    has_lint: bool,
}

impl C {
    fn text(&self, r: &mut Rng, py: bool) -> String {
        if self.no_section {
            return "[project]\nname = \"x\"\n[tool.other]\na = 1\n".into();
        }
        let p = if py { "tool.tombi." } else { "" };
        let mut s = String::new();
        if py {
            s += "[project]\nname = \"x\"\n[tool.tombi]\n";
        }
        if let Some(v) = self.v11 {
            s += &format!("toml-version = \"{}\"\n", if v { "v1.1.0" } else { "v1.0.0" });
        }
        s += &format!("[{p}format.rules]\nkey-value-equals-sign-space-width = {}\n", self.eq);
        if let Some(c) = self.comma {
            s += &format!("array-comma-space-width = {c}\n");
        }
        if let Some(k) = self.key_empty {
            s += &format!("[{p}lint.rules]\nkey-empty = {k:?}\n");
        }
        for o in &self.over {
            s += &format!("[[{p}overrides]]\n[{p}overrides.files]\ninclude = {}\n", toml_list(&o.include));
            if !o.exclude.is_empty() {
                s += &format!("exclude = {}\n", toml_list(&o.exclude));
            }
            if o.has_format {
                s += &format!("[{p}overrides.format]\n");
                if let Some(e) = o.format_enabled {
                    s += &format!("enabled = {e}\n");
                }
                if let Some(e) = o.eq {
                    s += &format!("rules.key-value-equals-sign-space-width = {e}\n");
                }
            }
            if o.has_lint {
                s += &format!("[{p}overrides.lint]\n");
                if let Some(e) = o.lint_enabled {
                    s += &format!("enabled = {e}\n");
                }
                if let Some(k) = o.key_empty {
                    s += &format!("rules.key-empty = {k:?}\n");
                }
            }
        }
        if self.broken {
            match r.below(4) {
                0 => s += "broken =\n",
                1 => s += &format!("[{p}format.rules2]\nx = 1\n"),
                2 => s = format!("{}no-such-option = 1\n{s}", if py { "[tool.tombi.files]\n" } else { "" }),
                _ => s = s.replacen(&format!("width = {}", self.eq), "width = \"wide\"", 1),
            }
        }
        s
    }
}

impl Check for Conf {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        self.sand.clear();
        let levels = r.range(1, 3);
        let mut dirs = vec![String::new()];
        for i in 0..levels {
            let last = dirs.last().unwrap().clone();
            dirs.push(format!("{last}l{i}/"));
        }
        let mut marks: Vec<usize> = (2..30).collect();
        r.shuffle(&mut marks);
        let pats: &[&str] = &["**/*.toml", "x.toml", "**/x.toml", "l0/**", "l0/l1/*", "**/special/*.toml", "*.toml", "**/l1/**"];
        let sev = |r: &mut Rng| if r.chance(1, 2) { Some(r.pick_str(&["off", "warn", "error"])) } else { None };
        let new = |r: &mut Rng, path: String, marks: &mut Vec<usize>| {
            let mut c = C { path, eq: marks.pop().unwrap(), ..Default::default() };
            if r.chance(1, 2) {
                c.comma = Some(r.below(5));
            }
            if r.chance(1, 2) {
                c.v11 = Some(r.chance(1, 2));
            }
            c.key_empty = sev(r);
            if r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    let has_format = r.chance(2, 3);
                    let has_lint = r.chance(1, 2);
                    c.over.push(Over {
                        include: (0..r.range(1, 2)).map(|_| r.pick_str(pats)).collect(),
                        exclude: if r.chance(1, 4) { vec![r.pick_str(pats)] } else { vec![] },
                        format_enabled: if r.chance(1, 3) { Some(r.chance(1, 2)) } else { None },
                        eq: if r.chance(3, 4) { marks.pop() } else { None },
                        has_format,
                        lint_enabled: if r.chance(1, 4) { Some(r.chance(1, 2)) } else { None },
                        key_empty: sev(r),
                        has_lint,
                    });
                }
            }
            c.broken = r.chance(1, 6);
            c
        };
        // candidates in the order in which they should be tried, from the deepest directory up
        let mut cands: Vec<C> = vec![];
        for d in dirs.iter().rev() {
            for n in [".tombi.toml", "tombi.toml", ".config/tombi.toml", "pyproject.toml"] {
                if marks.len() > 6 && r.chance(1, 4) {
                    let mut c = new(r, format!("{d}{n}"), &mut marks);
                    if n == "pyproject.toml" && r.chance(1, 3) {
                        c.no_section = true;
                        c.broken = false;
                    }
                    cands.push(c);
                }
            }
        }
        let mut texts: BTreeMap<String, String> = BTreeMap::new();
        for c in &cands {
            let t = c.text(r, c.path.ends_with("pyproject.toml"));
            self.sand.put(&c.path, t.as_bytes());
            texts.insert(c.path.clone(), t);
        }
        let mut env: Vec<(String, String)> = vec![];
        let mut user: Vec<C> = vec![];
        let home = self.sand.base.join("home");
        if r.chance(1, 3) && marks.len() > 6 {
            let x = self.sand.base.join("xdg");
            env.push(("XDG_CONFIG_HOME".into(), x.display().to_string()));
            if r.chance(2, 3) {
                user.push(new(r, x.join("tombi/config.toml").display().to_string(), &mut marks));
            }
        }
        if r.chance(1, 3) && marks.len() > 6 {
            user.push(new(r, home.join(".config/tombi/config.toml").display().to_string(), &mut marks));
        }
        for c in &user {
            let t = c.text(r, false);
            let p = std::path::PathBuf::from(&c.path);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, &t).unwrap();
            texts.insert(c.path.clone(), t);
        }
        // a broken user configuration: whether the next one is tried or the defaults are taken is left open
        let user_open = user.first().is_some_and(|c| c.broken) && user.len() > 1;
        let n_cands = cands.len() + user.len();
        let chosen: Option<C> = cands.iter().find(|c| !c.broken && !c.no_section).cloned();
        let project = chosen.is_some();
        if chosen.is_none() && user_open {
            return;
        }
        let chosen = chosen.or_else(|| user.first().filter(|c| !c.broken).cloned());
        rep.count(match &chosen {
            Some(c) if c.path.ends_with("pyproject.toml") => "pyproject_config",
            Some(_) if project => "project_config",
            Some(_) => "user_config",
            None => "no_config",
        });
        if cands.iter().chain(&user).any(|c| c.broken) {
            rep.count("broken_config");
        }
        // the document
        let doc_dir = dirs.last().unwrap().clone() + r.pick_str(&["", "", "special/"]);
        let doc = format!("{doc_dir}{}", r.pick_str(&["x.toml", "y.toml"]));
        let cfg_dir: String = match &chosen {
            Some(c) if project => c.path.trim_end_matches("tombi.toml").trim_end_matches('.').trim_end_matches("pyproject.toml").trim_end_matches(".config/").to_string(),
            _ => String::new(),
        };
        // overrides match relative to the configuration's directory; outside of it by the absolute path
        let abs = self.sand.work.join(&doc).display().to_string();
        let rel: String = if project { doc[cfg_dir.len()..].to_string() } else { abs.clone() };
        let over = chosen.as_ref().and_then(|c| c.over.iter().find(|o| o.include.iter().any(|g| glob::matches(g, &rel)) && !o.exclude.iter().any(|g| glob::matches(g, &rel)))).cloned();
        let version_directive: Option<bool> = if r.chance(1, 3) { Some(r.chance(1, 2)) } else { None };
        let v11 = version_directive.or(chosen.as_ref().and_then(|c| c.v11)).unwrap_or(false);
        if version_directive.is_some() {
            rep.count("directive_version");
        }
        let head = match version_directive {
            Some(v) => format!("#:tombi toml-version = \"{}\"\n\n", if v { "v1.1.0" } else { "v1.0.0" }),
            None => String::new(),
        };
        let eq = over.as_ref().filter(|o| o.has_format).and_then(|o| o.eq).or(chosen.as_ref().map(|c| c.eq)).unwrap_or(1);
        let comma = chosen.as_ref().and_then(|c| c.comma).unwrap_or(1);
        let disabled = over.as_ref().is_some_and(|o| o.has_format && o.format_enabled == Some(false));
        if over.is_some() {
            rep.count("override_applies");
        }
        let sp = |n: usize| " ".repeat(n);
        let src = format!("{head}a=[1,2]\n");
        // the directive itself is laid out by the rules as well
        let fhead = head.replace(" = ", &format!("{e}={e}", e = sp(eq)));
        let want = if disabled { src.clone() } else { format!("{fhead}a{e}={e}[1,{c}2]\n", e = sp(eq), c = sp(comma)) };
        self.sand.put(&doc, src.as_bytes());
        let wd = self.sand.work.join(dirs.last().unwrap());
        let input = json!({"configs": texts, "cwd": dirs.last(), "document": doc, "text": src, "env": env});
        let arg = doc[dirs.last().unwrap().len()..].to_string();
        let stdin = r.chance(1, 2);
        let run = if stdin {
            self.sand.run_full(&["format".into(), "--offline".into(), "-".into(), "--stdin-filename".into(), arg.clone()], Some(src.as_bytes()), &wd, &env)
        } else {
            self.sand.run_full(&["format".into(), "--offline".into(), arg.clone()], None, &wd, &env)
        };
        rep.eval(&input.to_string(), n_cands > 1);
        if let Some(c) = run.crashed() {
            rep.viol("config-crash", c, input);
            return;
        }
        let got = if stdin { String::from_utf8_lossy(&run.out).into_owned() } else { String::from_utf8_lossy(&self.sand.get(&doc).unwrap()).into_owned() };
        if disabled {
            rep.count("override_disabled");
        }
        if got != want {
            let which = cands.iter().chain(&user).find(|c| got.contains(&format!("a{e}={e}[", e = sp(c.eq)))).map(|c| c.path.clone());
            let sig = if which.is_some() && which != chosen.as_ref().map(|c| c.path.clone()) {
                "wrong-config"
            } else if over.is_some() {
                "override-not-obeyed"
            } else {
                "config-not-obeyed"
            };
            rep.viol(sig, format!("configuration {:?}, override {over:?}: expected {want:?}, got {got:?} (which fits {which:?}); {}", chosen.as_ref().map(|c| &c.path), run.brief()), input.clone());
        }
        // lint: severity of an empty key, and the TOML version, by the same configuration
        let lint_disabled = over.as_ref().is_some_and(|o| o.has_lint && o.lint_enabled == Some(false));
        let ke = over.as_ref().filter(|o| o.has_lint).and_then(|o| o.key_empty).or(chosen.as_ref().and_then(|c| c.key_empty)).unwrap_or("warn");
        let new_syntax = r.chance(1, 2);
        let text = format!("{head}\"\" = 1\n{}", if new_syntax { "b = {c = 1,}\n" } else { "" });
        let run = self.sand.run_full(&["lint".into(), "--offline".into(), "-".into(), "--stdin-filename".into(), arg.clone()], Some(text.as_bytes()), &wd, &env);
        let input = json!({"configs": texts, "cwd": dirs.last(), "document": doc, "text": text, "env": env});
        rep.eval(&input.to_string(), n_cands > 1);
        if let Some(c) = run.crashed() {
            rep.viol("config-crash", c, input);
            return;
        }
        let lines: Vec<String> = run.err.lines().filter(|l| l.contains("empty key")).map(|l| l.trim().to_string()).collect();
        let invalid = new_syntax && !v11;
        let fail = !lint_disabled && (invalid || ke == "error");
        let shown: Option<&str> = match lines.first().map(|l| l.as_str()) {
            Some(l) if l.starts_with("Warning") => Some("warn"),
            Some(l) if l.starts_with("Error") => Some("error"),
            _ => None,
        };
        // a text that does not parse is not linted any further
        let want_shown = if lint_disabled || ke == "off" { None } else { Some(ke) };
        if (run.code != 0) != fail || (shown != want_shown && !invalid) {
            rep.viol(
                if invalid || (new_syntax && v11) { "lint-config:version" } else { "lint-config:severity" },
                format!("configuration {:?}, override {over:?}, version 1.{}: expected failure {fail}, empty key shown as {want_shown:?}; {}", chosen.as_ref().map(|c| &c.path), v11 as u8, run.brief()),
                input.clone(),
            );
        }
        rep.sample(&format!("{:?} -> {:?}, override {}", texts.keys().collect::<Vec<_>>(), chosen.as_ref().map(|c| &c.path), over.is_some()));
    }
}
