//! P11 the language server agrees with the command line about the latest text; P12 it answers every request once, in range, and survives;
//! P13 its refactorings keep the data; P14 its completions can be applied.
use crate::cli::Sand;
use crate::driver::*;
use crate::env::{D, d_of};
use crate::gen_;
use crate::lsp::{self, Lsp, brief};
use crate::opts;
use crate::rng::Rng;
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use tombi_config::{Config, TomlVersion};
use unicode_segmentation::UnicodeSegmentation;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P11",
        quick_cases: 100_000,
        quick_s: 25,
        thorough_cases: 10_000_000,
        thorough_s: 1200,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one answer or published message of the language server (formatting edits, diagnostics pushed or pulled) judged against what the library says of the text the client had; distinct non-trivial = distinct (text, kind of answer) pairs",
        assumptions: &["the library's formatter and linter, called directly with the same configuration, decide what the answer should be (they are judged by P01 to P10)", "the server handles its messages on one thread; interleavings come from bursts of messages and from files and schemas read in between"],
        must: &["sessions", "edits_applied", "published", "pulled", "settled", "bursts", "unchanged", "with_schema", "disk_events"],
        make: |c| Box::new(Sync { sand: Sand::new(c), rt: rt(), all: gen_::corpus() }),
    }]
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// what the library says, under the configuration of a session
pub struct Lib<'a> {
    pub rt: &'a tokio::runtime::Runtime,
    pub store: tombi_schema_store::SchemaStore,
    pub config: Config,
    pub config_path: Option<std::path::PathBuf>,
}
impl<'a> Lib<'a> {
    pub fn new(rt: &'a tokio::runtime::Runtime, sand: &Sand) -> Lib<'a> {
        let p = sand.work.join("tombi.toml");
        let (config, config_path) = match if p.exists() { serde_tombi::config::try_from_path(&p) } else { Ok(None) } {
            Ok(Some(c)) => (c, Some(p)),
            Ok(None) => (Config::default(), None),
            Err(e) => panic!("harness: bad config: {e}"),
        };
        let store = tombi_schema_store::SchemaStore::new_with_options(tombi_schema_store::Options {
            offline: Some(true),
            strict: config.schema.as_ref().and_then(|s| s.strict()),
            cache: None,
        });
        if config_path.is_some() {
            let _ = rt.block_on(store.load_config(&config, config_path.as_deref()));
        }
        Lib { rt, store, config, config_path }
    }
    pub fn matched(&self, path: &std::path::Path) -> bool {
        tombi_glob::matches_file_patterns(path, self.config_path.as_deref(), &self.config) == tombi_glob::MatchResult::Matched
    }
    /// None: nothing is to be said about this file
    pub fn lint(&self, path: &std::path::Path, text: &str) -> Option<Vec<D>> {
        if !self.matched(path) {
            return None;
        }
        let o = tombi_glob::get_lint_options(&self.config, Some(path), self.config_path.as_deref())?;
        let v = self.config.toml_version.unwrap_or_default();
        Some(self.rt.block_on(async {
            match tombi_linter::Linter::new(v, &o, Some(itertools::Either::Right(path)), &self.store).lint(text).await {
                Ok(()) => vec![],
                Err(ds) => ds.iter().map(d_of).collect(),
            }
        }))
    }
    pub fn format(&self, path: &std::path::Path, text: &str) -> Option<Result<String, Vec<D>>> {
        if !self.matched(path) {
            return None;
        }
        let o = tombi_glob::get_format_options(&self.config, Some(path), self.config_path.as_deref())?;
        let v = self.config.toml_version.unwrap_or_default();
        Some(self.rt.block_on(async {
            tombi_formatter::Formatter::new(v, &o, Some(itertools::Either::Right(path)), &self.store)
                .format(text)
                .await
                .map_err(|ds| ds.iter().map(d_of).collect())
        }))
    }
}

/// a library column (grapheme clusters) as a protocol column
pub fn col(text: &str, line: u32, c: u32, utf: u8) -> u32 {
    let ls = lsp::lines(text);
    let l = ls.get(line as usize).copied().unwrap_or("");
    l.graphemes(true).take(c as usize).map(|g| lsp::units(g, utf)).sum()
}

pub fn want_diags(text: &str, ds: &[D], utf: u8) -> Vec<String> {
    let mut v: Vec<String> = ds
        .iter()
        .map(|d| {
            format!(
                "{}:{}-{}:{} {} {} {}",
                d.sl,
                col(text, d.sl, d.sc, utf),
                d.el,
                col(text, d.el, d.ec, utf),
                if d.error { 1 } else { 2 },
                d.code,
                d.msg
            )
        })
        .collect();
    v.sort();
    v.dedup();
    v
}
pub fn got_diags(a: &J) -> Vec<String> {
    let mut v: Vec<String> = a
        .as_array()
        .map(|a| {
            a.iter()
                .map(|d| {
                    let r = &d["range"];
                    format!(
                        "{}:{}-{}:{} {} {} {}",
                        r["start"]["line"],
                        r["start"]["character"],
                        r["end"]["line"],
                        r["end"]["character"],
                        d["severity"],
                        d["code"].as_str().unwrap_or("?"),
                        d["message"].as_str().unwrap_or("?")
                    )
                })
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

pub const SCHEMA: &str = r##"{"type":"object","properties":{"a":{"type":"integer"},"b":{"type":"string","deprecated":true},"name":{"type":"string","minLength":2},"c":{"type":"array","items":{"type":"boolean"}},"x":{"$ref":"#/$defs/x"}},"patternProperties":{"^k":{"type":["integer","string","object"]}},"$defs":{"x":{"type":"object","properties":{"y":{"type":"number","maximum":3},"x":{"$ref":"#/$defs/x"}},"additionalProperties":false}}}"##;

pub struct Doc {
    pub uri: String,
    pub path: std::path::PathBuf,
    pub open: bool,
    pub cur: i32,
    pub texts: BTreeMap<i32, String>,
    /// versions whose diagnostics the server should have published, in order of arrival
    pub last_pub: Option<(Option<i64>, J)>,
    pub pubs: u64,
}
impl Doc {
    pub fn text(&self) -> &str {
        &self.texts[&self.cur]
    }
}

pub fn session_config(r: &mut Rng, sand: &Sand, rep: &mut Rep) -> bool {
    if r.chance(1, 6) {
        return false;
    }
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(&format!("toml-version = \"{}\"\n", r.pick_str(&["v1.0.0", "v1.1.0"])));
    }
    if r.chance(1, 3) {
        s.push_str("files.exclude = [\"ex*.toml\"]\n");
    }
    s.push_str("schema.catalog.paths = []\n");
    if r.chance(1, 2) {
        s.push_str(&opts::rules_toml(&opts::random_rules(r)));
    }
    if r.chance(1, 4) {
        s.push_str(&format!("[lint.rules]\ndotted-keys-out-of-order = \"{}\"\nkey-empty = \"{}\"\n", r.pick_str(&["off", "warn", "error"]), r.pick_str(&["off", "warn", "error"])));
    }
    if r.chance(1, 2) {
        rep.count("with_schema");
        s.push_str("[[schemas]]\npath = \"s.json\"\ninclude = [\"d*.toml\"]\n");
        sand.put("s.json", SCHEMA.as_bytes());
    }
    if r.chance(1, 5) {
        s.push_str("[[overrides]]\nfiles.include = [\"d1.toml\"]\n");
        if r.chance(1, 2) {
            s.push_str("format.enabled = false\n");
        } else {
            s.push_str("format.rules.indent-width = 7\nlint.rules.key-empty = \"error\"\n");
        }
    }
    sand.put("tombi.toml", s.as_bytes());
    true
}

struct Sync {
    sand: Sand,
    rt: tokio::runtime::Runtime,
    all: Vec<(String, String)>,
}

pub fn some_text(r: &mut Rng, all: &[(String, String)]) -> String {
    let v11 = r.chance(1, 2);
    let mut t = match r.below(14) {
        0 => String::new(),
        1 => r.pick_str(&["\n", "a = 1", "a = 1\r\nb = \"x\"\r\n", "# 🦅\n\"\" = 1 # é\n", "a.b = 1\nc=2\na.d = 3\n", "name = \"🦅\" \nx.y = 5 # 🦅\n", "a = \"s\"\nb = \"t\"\nc = [1]\n", "[x.x.x]\nz=1\n"]).to_string(),
        2 => {
            let d = super::toml::any_doc(r, all, v11);
            format!("#:tombi toml-version = \"{}\"\n\n{d}", if r.chance(3, 4) { if v11 { "v1.1.0" } else { "v1.0.0" } } else { "v1.0.0" })
        }
        3 | 4 => {
            let d = super::toml::any_doc(r, all, v11);
            let n = r.range(1, 3);
            gen_::mutate(r, &d, n)
        }
        5 | 6 => {
            // one that the schema has something to say about
            let mut s = String::new();
            for _ in 0..r.range(1, 5) {
                s.push_str(r.pick_str(&["a = \"x\"\n", "a =   1\n", "b=\"y\" # 🦅\n", "name = \"n\"\n", "name=\"long\"\n", "c = [true,1]\n", "k1 = true\n", "k2 = 3\n", "  x.y = 9\n", "x.x.q = 1\n", "\"🦅\" = 1\n", "\"\" = 1\n"]));
            }
            s
        }
        _ => super::toml::any_doc(r, all, v11),
    };
    if t.len() > 3000 {
        t = "k = 1\n".into();
    }
    // lone carriage returns end a line for the protocol only; marks that combine across token borders are left out
    t.retain(|c| c != '\u{301}');
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    for (i, c) in b.iter().enumerate() {
        if *c == '\r' && b.get(i + 1) != Some(&'\n') {
            continue;
        }
        o.push(*c);
    }
    o
}

impl Check for Sync {
    fn pinned(&self) -> u64 {
        0
    }
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        self.sand.clear();
        let has_cfg = session_config(r, &self.sand, rep);
        let _ = has_cfg;
        let pull = r.chance(1, 3);
        let enc: Vec<&str> = match r.below(4) {
            0 => vec![],
            1 => vec!["utf-8", "utf-16"],
            2 => vec!["utf-32"],
            _ => vec!["utf-16"],
        };
        let lib = Lib::new(&self.rt, &self.sand);
        let mut l = Lsp::start(&self.sand, if std::env::var("LSPV").is_ok() { &["--offline", "-vvv"] } else { &["--offline"] });
        if !l.init(&enc, pull, r.chance(1, 2)) {
            rep.viol("no-initialize", "no answer to initialize", json!({}));
            return;
        }
        rep.count("sessions");
        let mut docs: Vec<Doc> = (0..3)
            .map(|i| {
                let name = if i == 2 && r.chance(1, 2) { "ex2.toml".to_string() } else { format!("d{i}.toml") };
                let path = self.sand.work.join(&name);
                Doc { uri: format!("file://{}", path.display()), path, open: false, cur: 0, texts: BTreeMap::new(), last_pub: None, pubs: 0 }
            })
            .collect();
        let mut log: Vec<J> = vec![];
        let mut seen = 0usize;
        let utf = l.utf;
        let steps = r.range(4, 14);
        let mut version = 0;
        let mut bad = false;
        for _ in 0..steps {
            if bad || l.dead {
                break;
            }
            let di = r.below(3);
            let mut pulls: Vec<(i64, usize, i32)> = vec![];
            let mut fmts: Vec<(i64, usize, i32)> = vec![];
            let burst = r.chance(1, 2);
            let n = if burst { r.range(2, 6) } else { 1 };
            if burst {
                rep.count("bursts");
            }
            let mut ms: Vec<(Option<&'static str>, J, &'static str)> = vec![];
            let mut closed_last = [false; 3];
            for k in 0..n {
                let di = if burst && r.chance(2, 3) { r.below(3) } else { di };
                let d = &mut docs[di];
                if !d.open {
                    version += 1;
                    let t = some_text(r, &self.all);
                    if r.chance(1, 2) {
                        std::fs::write(&d.path, &t).unwrap();
                    }
                    d.open = true;
                    d.cur = version;
                    d.texts.insert(version, t.clone());
                    d.last_pub = None;
                    ms.push((None, json!({"textDocument":{"uri":d.uri,"languageId":"toml","version":version,"text":t}}), "textDocument/didOpen"));
                    log.push(json!(["open", di, version]));
                    continue;
                }
                match r.below(11) {
                    10 => {
                        // the file on the disk changes under the document: the client's text remains the one that counts
                        let typ = if r.chance(1, 2) && d.path.exists() {
                            std::fs::remove_file(&d.path).unwrap();
                            3
                        } else {
                            let was = d.path.exists();
                            std::fs::write(&d.path, some_text(r, &self.all)).unwrap();
                            if was { 2 } else { 1 }
                        };
                        rep.count("disk_events");
                        ms.push((None, json!({"changes":[{"uri":d.uri,"type":typ}]}), "workspace/didChangeWatchedFiles"));
                        log.push(json!(["disk", di, typ]));
                    }
                    0..=4 => {
                        version += 1;
                        let t = if r.chance(1, 3) {
                            let c = d.text().to_string();
                            let t = gen_::mutate(r, &c, 1);
                            if t.contains('\r') || t.len() > 3000 { some_text(r, &self.all) } else { t }
                        } else {
                            some_text(r, &self.all)
                        };
                        d.cur = version;
                        d.texts.insert(version, t.clone());
                        ms.push((None, json!({"textDocument":{"uri":d.uri,"version":version},"contentChanges":[{"text":t}]}), "textDocument/didChange"));
                        log.push(json!(["change", di, version]));
                    }
                    5 => {
                        let p = if r.chance(1, 3) { json!({"textDocument":{"uri":d.uri},"text":d.text()}) } else { json!({"textDocument":{"uri":d.uri}}) };
                        let _ = std::fs::write(&d.path, d.text());
                        ms.push((None, p, "textDocument/didSave"));
                        log.push(json!(["save", di]));
                    }
                    6 if k == 0 => {
                        d.open = false;
                        closed_last[di] = true;
                        ms.push((None, json!({"textDocument":{"uri":d.uri}}), "textDocument/didClose"));
                        log.push(json!(["close", di]));
                    }
                    7 if pull => {
                        ms.push((Some("r"), json!({"textDocument":{"uri":d.uri}}), "textDocument/diagnostic"));
                        pulls.push((0, di, d.cur));
                        log.push(json!(["pull", di]));
                    }
                    8 => {
                        let (line, ch) = (r.below(6), r.below(12));
                        let m = r.pick_str(&["textDocument/completion", "textDocument/hover", "textDocument/semanticTokens/full", "textDocument/documentSymbol", "textDocument/documentLink"]);
                        ms.push((Some("r"), json!({"textDocument":{"uri":d.uri},"position":{"line":line,"character":ch}}), m));
                        log.push(json!([m, di]));
                    }
                    _ => {
                        ms.push((Some("r"), json!({"textDocument":{"uri":d.uri},"options":{"tabSize":3,"insertSpaces":true}}), "textDocument/formatting"));
                        fmts.push((0, di, d.cur));
                        log.push(json!(["format", di]));
                    }
                }
            }
            let ids = l.burst(&ms);
            // match ids to what was asked
            {
                let (mut a, mut b) = (0, 0);
                let mut it = ids.iter();
                for (k, _, m) in &ms {
                    if k.is_some() {
                        let id = *it.next().unwrap();
                        if *m == "textDocument/diagnostic" {
                            pulls[a].0 = id;
                            a += 1;
                        } else if *m == "textDocument/formatting" {
                            fmts[b].0 = id;
                            b += 1;
                        }
                    }
                }
            }
            if !l.pump(60.0, |l| l.open.is_empty() || l.dead || l.panicked().is_some()) || l.panicked().is_some() {
                if let Some(p) = l.panicked() {
                    rep.viol(panic_sig(&p), format!("the server panicked, unanswered: {:?}: {p}", l.open), json!({"log":log,"messages":ms.iter().map(|m|json!([m.2,m.1])).collect::<Vec<_>>(),"texts":docs.iter().map(|d| d.texts.get(&d.cur)).collect::<Vec<_>>()}));
                    return;
                }
                let o: Vec<&String> = l.open.values().collect();
                rep.viol("no-answer", format!("no answer within 60 s to {o:?}"), json!({"log":log}));
                return;
            }
            // answers
            for (id, di, v) in &fmts {
                let a = l.answers.get(id).cloned().unwrap_or(J::Null);
                let d = &docs[*di];
                let later: Vec<&String> = d.texts.range(*v..).map(|x| x.1).collect();
                let mut ok = false;
                let mut why = String::new();
                for t in &later {
                    match judge_format(&lib, &d.path, t, &a, utf) {
                        Ok(k) => {
                            rep.count(k);
                            rep.eval(&format!("f{k}{t}"), true);
                            ok = true;
                            break;
                        }
                        Err(e) => {
                            if why.is_empty() {
                                why = e;
                            }
                        }
                    }
                }
                if !ok {
                    rep.viol("formatting", format!("{why} (text version {v} and later)"), json!({"log":log,"text":later[0],"answer":a,"config":self.sand.get("tombi.toml").map(|b| String::from_utf8_lossy(&b).into_owned())}));
                    bad = true;
                }
            }
            for (id, di, v) in &pulls {
                let a = l.answers.get(id).cloned().unwrap_or(J::Null);
                let d = &docs[*di];
                let got = got_diags(&a["result"]["items"]);
                let mut ok = false;
                let mut want0 = vec![];
                for (_, t) in d.texts.range(*v..) {
                    let want = lib.lint(&d.path, t).map(|x| want_diags(t, &x, utf)).unwrap_or_default();
                    if want == got {
                        ok = true;
                        break;
                    }
                    if want0.is_empty() {
                        want0 = want;
                    }
                }
                rep.count("pulled");
                rep.eval(&format!("p{}", d.texts[v]), true);
                if !ok {
                    rep.viol("pulled", format!("diagnostics pulled for version {v} are {got:?}, the linter says {want0:?}"), json!({"log":log,"text":d.texts[v],"latest":d.text(),"config":self.sand.get("tombi.toml").map(|b| String::from_utf8_lossy(&b).into_owned())}));
                    bad = true;
                }
            }
            // sometimes wait until everything has settled, else go on at once
            let settle = r.chance(1, 2);
            if settle && !pull {
                let wants: Vec<(String, i64)> = docs.iter().filter(|d| d.open && lib.lint(&d.path, d.text()).is_some()).map(|d| (d.uri.clone(), d.cur as i64)).collect();
                let done = |l: &Lsp| {
                    wants.iter().all(|(u, v)| l.notes.iter().rev().find(|n| n["method"] == "textDocument/publishDiagnostics" && n["params"]["uri"] == u.as_str()).is_some_and(|n| n["params"]["version"].as_i64() == Some(*v)))
                };
                if !l.pump(25.0, |l| done(l) || l.dead) {
                    let lacking: Vec<&(String, i64)> = wants.iter().filter(|(u, v)| !l.notes.iter().rev().find(|n| n["method"] == "textDocument/publishDiagnostics" && n["params"]["uri"] == u.as_str()).is_some_and(|n| n["params"]["version"].as_i64() == Some(*v))).collect();
                    let have: Vec<(J, J)> = l.notes.iter().map(|n| (n["params"]["uri"].clone(), n["params"]["version"].clone())).collect();
                    rep.viol("never-published", format!("the last diagnostics published are not for the latest text of {lacking:?}; published: {}", brief(&json!(have))), json!({"log":log}));
                    bad = true;
                } else {
                    l.pump(0.03, |_| false);
                    rep.count("settled");
                }
            } else {
                l.drain();
            }
            for n in l.notes[seen..].iter() {
                if n["method"] != "textDocument/publishDiagnostics" {
                    continue;
                }
                let p = &n["params"];
                let Some(d) = docs.iter_mut().find(|d| p["uri"] == d.uri.as_str()) else { continue };
                d.pubs += 1;
                d.last_pub = Some((p["version"].as_i64(), p["diagnostics"].clone()));
                rep.count("published");
                let got = got_diags(&p["diagnostics"]);
                if let Some(v) = p["version"].as_i64() {
                    let Some(t) = d.texts.get(&(v as i32)) else {
                        rep.viol("published-unknown-version", format!("diagnostics for version {v}, which the client never sent"), json!({"log":log}));
                        bad = true;
                        continue;
                    };
                    let want = lib.lint(&d.path, t).map(|x| want_diags(t, &x, utf)).unwrap_or_default();
                    rep.eval(&format!("d{t}"), true);
                    // a client which pulls is told of the syntax errors when it asks for the formatting, and that they are gone
                    let ok = if pull { got.iter().all(|g| want.contains(g)) } else { got == want };
                    if !ok {
                        rep.viol("published", format!("diagnostics published for version {v} are {got:?}, the linter says {want:?}"), json!({"log":log,"text":t,"config":self.sand.get("tombi.toml").map(|b| String::from_utf8_lossy(&b).into_owned()),"utf":utf,"pull":pull}));
                        bad = true;
                    }
                } else if !got.is_empty() && d.open {
                    rep.count("published_without_version");
                }
            }
            seen = l.notes.len();
        }
        rep.add("messages", l.events);
        rep.max("texts_per_document", docs.iter().map(|d| d.texts.len() as u64).max().unwrap_or(0));
        if let Some(p) = l.panicked() {
            rep.viol(panic_sig(&p), format!("the server panicked: {p}"), json!({"log":log,"texts":docs.iter().map(|d| d.texts.values().last().cloned()).collect::<Vec<_>>()}));
            return;
        }
        for b in l.broken.drain(..) {
            rep.viol("protocol", b, json!({"log":log}));
        }
        if rep.samples.len() < 2 {
            rep.sample(&format!("{}", json!(log)));
        }
        if bad {
            return;
        }
        match l.stop() {
            Ok(0) => rep.count("stopped"),
            x => rep.viol("shutdown", format!("shutdown and exit gave {x:?}: {}", l.stderr().chars().take(300).collect::<String>()), json!({"log":log})),
        }
    }
}

/// whether an answer to textDocument/formatting is right for this text
fn judge_format(lib: &Lib, path: &std::path::Path, t: &str, a: &J, utf: u8) -> Result<&'static str, String> {
    if a.get("error").is_some() {
        return Err(format!("formatting answered with an error: {}", brief(a)));
    }
    let res = &a["result"];
    match lib.format(path, t) {
        None => {
            if res.is_null() {
                Ok("not_for_this_file")
            } else {
                Err("a file that is excluded or not to be formatted was formatted".into())
            }
        }
        Some(Err(_)) => {
            if res.is_null() {
                Ok("refused")
            } else {
                Err(format!("a text the formatter refuses got edits {}", brief(res)))
            }
        }
        Some(Ok(want)) => {
            let edits = res.as_array().cloned().unwrap_or_default();
            let got = lsp::apply(t, &edits, utf)?;
            if got == want {
                Ok(if want == t { "unchanged" } else { "edits_applied" })
            } else {
                Err(format!("the edits give {got:?}, the formatter {want:?}"))
            }
        }
    }
}
#[allow(dead_code)]
fn unused(_: TomlVersion) {}
