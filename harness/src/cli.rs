//! Runs the real command line tool in a scratch directory, optionally under the call-logging, delaying and failing shim.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Run {
    /// exit code, or minus the signal number, or -1000 when it had to be stopped
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
}
impl Run {
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("exit {} stdout {:?} stderr {:?}", self.code, cut(&String::from_utf8_lossy(&self.out)), cut(&self.err))
    }
    /// a panic, a crash by signal or a hang
    pub fn crashed(&self) -> Option<String> {
        if self.code == -1000 {
            return Some("did not finish within 60 s".into());
        }
        if self.code < 0 {
            return Some(format!("killed by signal {}", -self.code));
        }
        if let Some(i) = self.err.find("panicked at ") {
            return Some(self.err[i..].lines().take(2).collect::<Vec<_>>().join(" "));
        }
        None
    }
}

/// what the shim saw: operation, number (bytes, nth …), errno, path relative to the watched root
#[derive(Debug, Clone)]
pub struct Ev {
    pub op: String,
    pub n: i64,
    pub errno: i32,
    pub path: String,
}

pub struct Sand {
    pub base: PathBuf,
    /// the directory the tool works in
    pub work: PathBuf,
    pub bin: PathBuf,
    pub shim: Option<PathBuf>,
    pub runs: u64,
}

pub fn tombi_bin() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("tombi")
}

impl Sand {
    pub fn new(c: &crate::driver::Ctx) -> Sand {
        let scratch = c.scratch.join(format!("w{}", c.worker));
        std::fs::create_dir_all(&scratch).unwrap();
        let base = scratch.canonicalize().unwrap_or_else(|_| scratch.to_path_buf()).join("sand");
        let s = Sand { work: base.join("w"), bin: tombi_bin(), shim: None, base, runs: 0 };
        s.clear();
        s
    }
    /// an empty world again
    pub fn clear(&self) {
        let _ = std::fs::remove_dir_all(&self.base);
        for d in ["w", "home", "cache/https/www.schemastore.org/api/json"] {
            std::fs::create_dir_all(self.base.join(d)).unwrap();
        }
        std::fs::write(self.base.join("cache/https/www.schemastore.org/api/json/catalog.json"), "{\"schemas\":[]}").unwrap();
    }
    /// only the working directory
    pub fn clear_work(&self) {
        let _ = std::fs::remove_dir_all(&self.work);
        std::fs::create_dir_all(&self.work).unwrap();
    }
    pub fn build_shim(&mut self) -> bool {
        let so = self.base.parent().unwrap().join("shim.so");
        if !so.exists() {
            let ok = Command::new("gcc")
                .args(["-shared", "-fPIC", "-O1", "-w", "-o"])
                .arg(&so)
                .arg(format!("{}/harness/shim/shim.c", crate::driver::VERIF))
                .arg("-ldl")
                .status()
                .map(|s| s.success())
                .unwrap_or(false);
            if !ok {
                return false;
            }
        }
        self.shim = Some(so);
        true
    }
    pub fn put(&self, rel: &str, text: &[u8]) -> PathBuf {
        let p = self.work.join(rel);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&p, text).unwrap();
        p
    }
    pub fn get(&self, rel: &str) -> Option<Vec<u8>> {
        std::fs::read(self.work.join(rel)).ok()
    }
    pub fn command(&self, args: &[String], cwd: &Path, env: &[(String, String)]) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(cwd).env_clear();
        c.env("PATH", "/usr/bin:/bin")
            .env("HOME", self.base.join("home"))
            .env("XDG_CONFIG_HOME", self.base.join("home/.config"))
            .env("TOMBI_CACHE_HOME", self.base.join("cache"))
            .env("NO_COLOR", "1")
            .env("RUST_BACKTRACE", "0");
        // where a sanitizer built into the tool writes its reports
        for k in ["ASAN_OPTIONS", "TSAN_OPTIONS"] {
            if let Ok(v) = std::env::var(k) {
                c.env(k, v);
            }
        }
        for (k, v) in env {
            c.env(k, v);
        }
        c
    }
    pub fn run(&mut self, args: &[&str], stdin: Option<&[u8]>) -> Run {
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let w = self.work.clone();
        self.run_full(&a, stdin, &w, &[])
    }
    pub fn run_full(&mut self, args: &[String], stdin: Option<&[u8]>, cwd: &Path, env: &[(String, String)]) -> Run {
        self.runs += 1;
        let mut c = self.command(args, cwd, env);
        c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = c.spawn().expect("spawn tombi");
        let mut so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let si = ch.stdin.take();
        let input = stdin.map(|s| s.to_vec());
        let h1 = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let h2 = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        let h3 = std::thread::spawn(move || {
            if let (Some(mut p), Some(b)) = (si, input) {
                let _ = p.write_all(&b);
            }
        });
        let t = Instant::now();
        let mut wait = 200;
        let code = loop {
            match ch.try_wait().unwrap() {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    break st.code().unwrap_or_else(|| -st.signal().unwrap_or(999));
                }
                None => {
                    if t.elapsed() > Duration::from_secs(60) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break -1000;
                    }
                    std::thread::sleep(Duration::from_micros(wait));
                    wait = (wait * 2).min(4000);
                }
            }
        };
        let _ = h3.join();
        let out = h1.join().unwrap_or_default();
        let err = plain(&String::from_utf8_lossy(&h2.join().unwrap_or_default()));
        Run { code, out, err }
    }
    /// runs under the shim; what it did to the files below the working directory comes back as events in order
    pub fn run_shim(&mut self, args: &[&str], stdin: Option<&[u8]>, extra: &[(&str, String)]) -> (Run, Vec<Ev>) {
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let w = self.work.clone();
        let log = self.base.join("shim.log");
        let _ = std::fs::remove_file(&log);
        let mut env: Vec<(String, String)> = vec![
            ("LD_PRELOAD".into(), self.shim.clone().unwrap().display().to_string()),
            ("VF_ROOT".into(), w.display().to_string()),
            ("VF_LOG".into(), log.display().to_string()),
        ];
        for (k, v) in extra {
            env.push((k.to_string(), v.clone()));
        }
        let r = self.run_full(&a, stdin, &w, &env);
        let evs = std::fs::read(&log)
            .map(|b| String::from_utf8_lossy(&b).into_owned())
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(4, ' ');
                Some(Ev { op: p.next()?.into(), n: p.next()?.parse().ok()?, errno: p.next()?.parse().ok()?, path: p.next()?.into() })
            })
            .collect();
        (r, evs)
    }
    /// content, mode, inode and modification time of every file below the working directory
    pub fn snapshot(&self) -> BTreeMap<String, (Vec<u8>, u32, u64, i64)> {
        use std::os::unix::fs::MetadataExt;
        let mut m = BTreeMap::new();
        let mut st = vec![self.work.clone()];
        while let Some(d) = st.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                let Ok(md) = std::fs::symlink_metadata(&p) else { continue };
                let rel = p.strip_prefix(&self.work).unwrap().to_string_lossy().into_owned();
                if md.is_dir() {
                    if e.file_name() != ".git" {
                        st.push(p);
                    }
                } else if md.is_file() {
                    m.insert(rel, (std::fs::read(&p).unwrap_or_default(), md.mode(), md.ino(), md.mtime() * 1_000_000_000 + md.mtime_nsec()));
                } else {
                    m.insert(rel, (std::fs::read_link(&p).map(|l| l.display().to_string().into_bytes()).unwrap_or_default(), md.mode(), md.ino(), 0));
                }
            }
        }
        m
    }
}

/// "3 files formatted", "1 file failed to be formatted", …: the number in front of `what`, 0 when there is no such line
pub fn summary(err: &str, what: &str) -> u64 {
    for l in err.lines() {
        for unit in [" file", " files"] {
            if let Some(n) = l.strip_suffix(what).and_then(|p| p.strip_suffix(unit)) {
                if let Ok(n) = n.trim().parse() {
                    return n;
                }
            }
        }
    }
    0
}

/// without terminal escape sequences
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
