//! A language client: drives the real language server over its standard streams and records everything it says.
use crate::cli::{Sand, plain};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Lsp {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Result<J, String>>,
    err: Arc<Mutex<Vec<u8>>>,
    next: i64,
    /// requests sent and not yet answered: id -> method
    pub open: BTreeMap<i64, String>,
    /// answers: id -> message
    pub answers: BTreeMap<i64, J>,
    /// notifications from the server, in order
    pub notes: Vec<J>,
    pub asked_by_server: u64,
    /// broken protocol: bad frames, answers to nothing, two answers to one request
    pub broken: Vec<String>,
    pub dead: bool,
    pub utf: u8,
    pub root: String,
    /// what the server says it can do
    pub caps: J,
    pub events: u64,
}

fn reader(mut so: BufReader<std::process::ChildStdout>, tx: std::sync::mpsc::Sender<Result<J, String>>) {
    loop {
        let mut len: Option<usize> = None;
        loop {
            let mut l = String::new();
            match so.read_line(&mut l) {
                Ok(0) => return,
                Ok(_) => {}
                Err(e) => {
                    let _ = tx.send(Err(format!("header: {e}")));
                    return;
                }
            }
            let t = l.trim_end();
            if t.is_empty() {
                break;
            }
            match t.split_once(':') {
                Some((k, v)) if k.eq_ignore_ascii_case("content-length") => len = v.trim().parse().ok(),
                Some(_) => {}
                None => {
                    let _ = tx.send(Err(format!("something else than a message on standard output: {t:?}")));
                    return;
                }
            }
        }
        let Some(n) = len else {
            let _ = tx.send(Err("message without content-length".into()));
            return;
        };
        let mut b = vec![0; n];
        if so.read_exact(&mut b).is_err() {
            let _ = tx.send(Err("message cut short".into()));
            return;
        }
        match serde_json::from_slice::<J>(&b) {
            Ok(j) => {
                if tx.send(Ok(j)).is_err() {
                    return;
                }
            }
            Err(e) => {
                let _ = tx.send(Err(format!("message is no JSON: {e}")));
            }
        }
    }
}

impl Lsp {
    pub fn start(sand: &Sand, args: &[&str]) -> Lsp {
        let mut a = vec!["lsp".to_string()];
        a.extend(args.iter().map(|s| s.to_string()));
        let mut c = sand.command(&a, &sand.work, &[]);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut child = c.spawn().expect("spawn tombi lsp");
        let so = BufReader::new(child.stdout.take().unwrap());
        let mut se = child.stderr.take().unwrap();
        let stdin = child.stdin.take();
        let (tx, rx) = channel();
        std::thread::spawn(move || reader(so, tx));
        let err = Arc::new(Mutex::new(vec![]));
        let err2 = err.clone();
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = se.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut e = err2.lock().unwrap();
                if e.len() < 200_000 {
                    e.extend_from_slice(&b[..n]);
                }
            }
        });
        let root = format!("file://{}", sand.work.display());
        Lsp { child, stdin, rx, err, next: 1, open: BTreeMap::new(), answers: BTreeMap::new(), notes: vec![], asked_by_server: 0, broken: vec![], dead: false, utf: 16, caps: J::Null, root, events: 0 }
    }
    /// initialize and initialized; `enc` are the position encodings the client offers, in its order of preference
    pub fn init(&mut self, enc: &[&str], pull: bool, wait: bool) -> bool {
        let mut caps = json!({"workspace": {"workspaceFolders": true, "diagnostic": {"refreshSupport": true}}, "textDocument": {"completion": {"completionItem": {"labelDetailsSupport": true}}}});
        if !enc.is_empty() {
            caps["general"] = json!({"positionEncodings": enc});
        }
        if pull {
            caps["textDocument"]["diagnostic"] = json!({"dynamicRegistration": true});
        }
        let id = self.request("initialize", json!({"processId": null, "rootUri": self.root, "capabilities": caps, "workspaceFolders": [{"uri": self.root, "name": "w"}]}));
        let Some(r) = self.wait(id, 30) else { return false };
        self.utf = match r["result"]["capabilities"]["positionEncoding"].as_str() {
            Some("utf-8") => 8,
            Some("utf-32") => 32,
            _ => 16,
        };
        self.caps = r["result"]["capabilities"].clone();
        self.notify("initialized", json!({}));
        if wait {
            std::thread::sleep(Duration::from_millis(30));
        }
        true
    }
    pub fn send_raw(&mut self, body: &[u8]) {
        let mut m = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
        m.extend_from_slice(body);
        self.send_bytes(&m);
    }
    pub fn send_bytes(&mut self, m: &[u8]) {
        if let Some(s) = self.stdin.as_mut() {
            if s.write_all(m).and_then(|_| s.flush()).is_err() {
                self.dead = true;
            }
        }
    }
    pub fn send(&mut self, j: &J) {
        self.events += 1;
        self.send_raw(j.to_string().as_bytes());
    }
    pub fn request(&mut self, method: &str, params: J) -> i64 {
        let id = self.next;
        self.next += 1;
        self.open.insert(id, method.to_string());
        self.send(&json!({"jsonrpc":"2.0","id":id,"method":method,"params":params}));
        id
    }
    /// several messages in one write, so that the server finds them waiting together
    pub fn burst(&mut self, ms: &[(Option<&str>, J, &str)]) -> Vec<i64> {
        // (Some("request")|None, params, method)
        let mut out = vec![];
        let mut ids = vec![];
        for (kind, params, method) in ms {
            let j = if kind.is_some() {
                let id = self.next;
                self.next += 1;
                self.open.insert(id, method.to_string());
                ids.push(id);
                json!({"jsonrpc":"2.0","id":id,"method":method,"params":params})
            } else {
                json!({"jsonrpc":"2.0","method":method,"params":params})
            };
            self.events += 1;
            let b = j.to_string();
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n{b}", b.len()).as_bytes());
        }
        self.send_bytes(&out);
        ids
    }
    pub fn notify(&mut self, method: &str, params: J) {
        self.send(&json!({"jsonrpc":"2.0","method":method,"params":params}));
    }
    fn take(&mut self, m: Result<J, String>) {
        self.events += 1;
        let j = match m {
            Ok(j) => j,
            Err(e) => {
                self.broken.push(e);
                return;
            }
        };
        match (j.get("method").and_then(|m| m.as_str()).map(|s| s.to_string()), j.get("id").cloned()) {
            (Some(m), Some(id)) => {
                self.asked_by_server += 1;
                let r = if m == "workspace/workspaceFolders" {
                    json!([{"uri": self.root, "name": "w"}])
                } else if m == "workspace/configuration" {
                    json!(j["params"]["items"].as_array().map(|a| a.iter().map(|_| J::Null).collect::<Vec<_>>()).unwrap_or_default())
                } else {
                    J::Null
                };
                self.send(&json!({"jsonrpc":"2.0","id":id,"result":r}));
            }
            (Some(_), None) => self.notes.push(j),
            (None, Some(id)) => {
                let n = id.as_i64().unwrap_or(-1);
                if j.get("result").is_some() == j.get("error").is_some() {
                    self.broken.push(format!("answer with both or neither of result and error: {}", brief(&j)));
                }
                if self.open.remove(&n).is_none() {
                    if self.answers.contains_key(&n) {
                        self.broken.push(format!("second answer to request {n}: {}", brief(&j)));
                    } else if n >= 0 {
                        self.broken.push(format!("answer to a request never made: {}", brief(&j)));
                    }
                }
                self.answers.insert(n, j);
            }
            (None, None) => self.broken.push(format!("neither request, notification nor answer: {}", brief(&j))),
        }
    }
    /// handles what has arrived until `done` or the time is up; true when `done`
    pub fn pump(&mut self, secs: f64, done: impl Fn(&Lsp) -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs_f64(secs);
        loop {
            if done(self) {
                return true;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            match self.rx.recv_timeout(left) {
                Ok(m) => self.take(m),
                Err(RecvTimeoutError::Timeout) => return done(self),
                Err(RecvTimeoutError::Disconnected) => {
                    self.dead = true;
                    return done(self);
                }
            }
        }
    }
    /// only what is there already
    pub fn drain(&mut self) {
        while let Ok(m) = self.rx.try_recv() {
            self.take(m);
        }
    }
    pub fn wait(&mut self, id: i64, secs: u64) -> Option<J> {
        self.pump(secs as f64, |l| l.answers.contains_key(&id) || l.dead);
        self.answers.get(&id).cloned()
    }
    pub fn call(&mut self, method: &str, params: J) -> Option<J> {
        let id = self.request(method, params);
        self.wait(id, 60)
    }
    pub fn stderr(&self) -> String {
        plain(&String::from_utf8_lossy(&self.err.lock().unwrap()))
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn panicked(&self) -> Option<String> {
        let e = self.stderr();
        e.find("panicked at ").map(|i| e[i..].lines().take(2).collect::<Vec<_>>().join(" "))
    }
    pub fn exited(&mut self) -> Option<std::process::ExitStatus> {
        self.child.try_wait().ok().flatten()
    }
    /// shutdown and exit as the protocol has it; the exit code, or why there is none
    pub fn stop(&mut self) -> Result<i32, String> {
        let r = self.call("shutdown", J::Null);
        if r.is_none() {
            return Err("no answer to shutdown".into());
        }
        self.notify("exit", J::Null);
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(30) {
            self.drain();
            if let Some(s) = self.exited() {
                use std::os::unix::process::ExitStatusExt;
                return Ok(s.code().unwrap_or_else(|| -s.signal().unwrap_or(999)));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        Err("did not exit within 30 s after exit".into())
    }
    pub fn close_stdin(&mut self) {
        self.stdin = None;
    }
}

impl Drop for Lsp {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn brief(j: &J) -> String {
    j.to_string().chars().take(400).collect()
}

// ---------------------------------------------------------------------------------------------- positions
/// lines as the protocol has them, without their ends (a lone CR is not an end for this server, and no document here has one)
pub fn lines(t: &str) -> Vec<&str> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}
pub fn units(s: &str, utf: u8) -> u32 {
    match utf {
        8 => s.len() as u32,
        32 => s.chars().count() as u32,
        _ => s.encode_utf16().count() as u32,
    }
}
/// byte offset of a position; None when it lies outside the text or inside a character
pub fn offset(t: &str, line: u64, ch: u64, utf: u8) -> Option<usize> {
    let mut start = 0;
    for (i, l) in t.split('\n').enumerate() {
        if i as u64 == line {
            let body = l.strip_suffix('\r').unwrap_or(l);
            let mut u = 0u64;
            for (o, c) in body.char_indices() {
                if u == ch {
                    return Some(start + o);
                }
                let mut b = [0; 4];
                u += units(c.encode_utf8(&mut b), utf) as u64;
                if u > ch {
                    return None;
                }
            }
            return if u == ch { Some(start + body.len()) } else { None };
        }
        start += l.len() + 1;
    }
    None
}
pub fn position(t: &str, off: usize, utf: u8) -> (u32, u32) {
    let before = &t[..off];
    let line = before.matches('\n').count() as u32;
    let ls = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, units(&t[ls..off], utf))
}
pub fn pos_of(j: &J) -> Option<(u64, u64)> {
    Some((j["line"].as_u64()?, j["character"].as_u64()?))
}
pub fn range_of(t: &str, j: &J, utf: u8) -> Option<(usize, usize)> {
    let (a, b) = (pos_of(&j["start"])?, pos_of(&j["end"])?);
    let s = offset(t, a.0, a.1, utf)?;
    let e = offset(t, b.0, b.1, utf)?;
    if s <= e { Some((s, e)) } else { None }
}
/// applies text edits the way a client does: all relative to the same text, none overlapping
pub fn apply(t: &str, edits: &[J], utf: u8) -> Result<String, String> {
    let mut es = vec![];
    for (i, e) in edits.iter().enumerate() {
        let Some((s, x)) = range_of(t, &e["range"], utf) else { return Err(format!("the range of edit {} is not within the text", brief(e))) };
        es.push((s, x, i, e["newText"].as_str().ok_or("edit without newText")?));
    }
    es.sort();
    for w in es.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("edits overlap: {}", brief(&json!(edits))));
        }
    }
    let mut o = String::new();
    let mut at = 0;
    for (s, x, _, n) in es {
        o.push_str(&t[at..s]);
        o.push_str(n);
        at = x;
    }
    o.push_str(&t[at..]);
    Ok(o)
}
