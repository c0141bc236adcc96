//! P12 whatever the client sends, the language server answers every request exactly once, within the document, and lives on.
use super::lsp::{SCHEMA, rt, some_text};
use crate::cli::Sand;
use crate::driver::*;
use crate::gen_;
use crate::lsp::{self, Lsp, brief};
use crate::rng::Rng;
use serde_json::{Value as J, json};
use std::collections::BTreeMap;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P12",
        quick_cases: 100_000,
        quick_s: 25,
        thorough_cases: 10_000_000,
        thorough_s: 1200,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one request answered by the language server, the answer judged against the text of the document; distinct non-trivial = distinct (method, text, position) with an answer that is not null",
        assumptions: &["no document has a lone carriage return or a mark that combines with the character before it across a token border"],
        must: &["sessions", "hovers", "completions", "locations", "symbols", "tokens", "folds", "links", "actions", "refused", "hostile", "stopped"],
        make: |c| Box::new(Hard { sand: Sand::new(c), all: gen_::corpus() }),
    }]
}

struct Hard {
    sand: Sand,
    all: Vec<(String, String)>,
}

const CARGO: &[&str] = &[
    "[package]\nname = \"m\"\nversion.workspace = true\nedition = \"2021\"\n",
    "[workspace]\nmembers = [\"m\", \"mem*\"]\nexclude = [\"nope\"]\n",
    "[workspace.package]\nversion = \"1.0.0\"\n",
    "[workspace.dependencies]\nserde = { version = \"1\", features = [\"derive\"] }\nm = { path = \"m\" }\n",
    "[dependencies]\nserde = { workspace = true, features = [\"🦅\"] }\nm.path = \"m\"\nrand = \"0.8\"\nw.workspace = true\n",
    "[dependencies.foo]\nversion = \"1\"\nfeatures = [\"a\", \"b\"]\n",
    "[features]\ndefault = [\"a\", \"serde/derive\"]\na = [\"dep:serde\"]\n",
    "[target.'cfg(unix)'.dependencies]\nlibc = \"0.2\"\n",
    "[[bin]]\nname = \"b\"\npath = \"src/main.rs\"\n",
    "[dev-dependencies]\nx = { git = \"https://example.com/x\" }\n",
    "[build-dependencies]\ny = {}\n",
    "dependencies = 3\n",
    "package = []\n",
    "[dependencies]\nserde = 1\nm = [\"\"]\n\"\" = \"\"\nz.features = [1, {}]\n",
];
const PYPROJECT: &[&str] = &[
    "[project]\nname = \"p\"\nversion = \"0.1\"\ndependencies = [\"requests>=2\", \"🦅\", \"\"]\n",
    "[project]\ndependencies = [\n  \"a[x] == 1\",\n  \"m\",\n]\n",
    "[project.optional-dependencies]\ndev = [\"pytest\"]\n",
    "[dependency-groups]\ndev = [\"pytest>=8\", { include-group = \"test\" }]\ntest = []\n",
    "[tool.uv]\nworkspace = { members = [\"m\"] }\n",
    "[tool.uv.sources]\nm = { workspace = true }\nn = { path = \"m\" }\no = {}\n",
    "[tool.uv.workspace]\nmembers = [\"m\", \"x/*\"]\n",
    "[tool.poetry.dependencies]\npython = \"^3\"\n",
    "[build-system]\nrequires = [\"hatchling\"]\n",
    "[project]\ndependencies = 1\n",
    "[tool.uv.sources]\nm = [{ index = 1 }]\n",
];
const TOMBI: &[&str] = &[
    "toml-version = \"v1.0.0\"\n",
    "[format.rules]\nindent-width = 3\n",
    "[lint.rules]\nkey-empty = \"off\"\n",
    "[[schemas]]\npath = \"s.json\"\ninclude = [\"d*.toml\"]\n",
    "[files]\ninclude = [\"**/*.toml\"]\nexclude = 3\n",
    "[extensions.tombi-toml.lsp.hover]\nenabled = true\n",
    "[[overrides]]\nfiles.include = [\"d0.toml\"]\n",
];
const COMMENTS: &[&str] = &["#:schema ./s.json\n", "#:schema ./nope.json\n", "#:tombi toml-version = \"v1.0.0\"\n", "#:tombi lint.rules.key-empty = \"off\"\n", "#:schema \n", "#:tombi \n", "#:tombi schema.strict = 1\n", "# tombi: format.rules.x = 1\n"];

fn text(r: &mut Rng, name: &str, all: &[(String, String)]) -> String {
    let parts = if name.ends_with("Cargo.toml") {
        CARGO
    } else if name.ends_with("pyproject.toml") {
        PYPROJECT
    } else if name == "tombi.toml" {
        TOMBI
    } else {
        return if r.chance(1, 4) { format!("{}{}", r.pick_str(COMMENTS), some_text(r, all)) } else { some_text(r, all) };
    };
    let mut s = String::new();
    if r.chance(1, 5) {
        s.push_str(r.pick_str(COMMENTS));
    }
    for _ in 0..r.range(1, 5) {
        s.push_str(r.pick_str(parts));
    }
    if r.chance(1, 2) {
        let n = r.range(1, 3);
        s = gen_::mutate(r, &s, n);
        s.retain(|c| c != '\r' && c != '\u{301}');
    }
    s
}

struct Doc {
    name: String,
    uri: String,
    texts: Vec<String>,
    open: bool,
    on_disk: Option<String>,
}

/// a position: in the text, past the end of a line, past the end, inside a surrogate pair or a character
fn position(r: &mut Rng, t: &str, utf: u8) -> J {
    let (l, c) = match r.below(12) {
        0 => (r.below(200) as u64, r.below(200) as u64),
        1 => (*r.pick(&[0u64, u32::MAX as u64, 1 << 31]), *r.pick(&[0u64, u32::MAX as u64, 1 << 31])),
        2 => (t.matches('\n').count() as u64 + r.below(3) as u64, r.below(3) as u64),
        _ => {
            let mut o = r.below(t.len() + 1);
            while !t.is_char_boundary(o) {
                o -= 1;
            }
            // often at a border of a word
            if r.chance(1, 2) {
                while o > 0 && t.as_bytes()[o - 1].is_ascii_alphanumeric() {
                    o -= 1;
                }
            }
            let (l, c) = lsp::position(t, o, utf);
            (l as u64, c as u64 + if r.chance(1, 6) { r.below(4) as u64 } else { 0 })
        }
    };
    json!({"line": l, "character": c})
}

struct Asked {
    id: i64,
    method: &'static str,
    doc: usize,
    at: usize,
    pos: J,
    hostile: bool,
}

impl Check for Hard {
    fn pinned(&self) -> u64 {
        0
    }
    fn case(&mut self, idx: u64, r: &mut Rng, rep: &mut Rep) {
        let _ = idx;
        let _ = rt;
        self.sand.clear();
        self.sand.put("s.json", SCHEMA.as_bytes());
        let mut cfg = String::new();
        if r.chance(3, 4) {
            cfg.push_str("schema.catalog.paths = []\n");
            if r.chance(2, 3) {
                cfg.push_str("[[schemas]]\npath = \"s.json\"\ninclude = [\"d*.toml\"]\n");
            }
            if r.chance(1, 6) {
                cfg.push_str("[lsp]\nworkspace-diagnostic.enabled = true\n");
            }
        } else if r.chance(1, 4) {
            cfg.push_str("broken = = 1\n");
        }
        if !cfg.is_empty() {
            self.sand.put("tombi.toml", cfg.as_bytes());
        }
        let names = ["d0.toml", "Cargo.toml", "pyproject.toml", "m/Cargo.toml", "m/pyproject.toml", "tombi.toml", "other.toml"];
        let mut docs: Vec<Doc> = vec![];
        for n in names {
            let p = self.sand.work.join(n);
            let mut d = Doc { name: n.into(), uri: format!("file://{}", p.display()), texts: vec![], open: false, on_disk: None };
            if n == "tombi.toml" {
                d.on_disk = self.sand.get(n).map(|b| String::from_utf8_lossy(&b).into_owned());
            } else if r.chance(1, 2) {
                let t = text(r, n, &self.all);
                self.sand.put(n, t.as_bytes());
                d.on_disk = Some(t);
            }
            docs.push(d);
        }
        let pull = r.chance(1, 3);
        let enc: Vec<&str> = match r.below(4) {
            0 => vec![],
            1 => vec!["utf-8", "utf-16"],
            2 => vec!["utf-32"],
            _ => vec!["utf-16"],
        };
        let mut l = Lsp::start(&self.sand, if std::env::var("LSPV").is_ok() { &["--offline", "-vvv"] } else { &["--offline"] });
        if !l.init(&enc, pull, r.chance(1, 3)) {
            rep.viol("no-initialize", format!("no answer to initialize: {}", l.stderr().chars().take(300).collect::<String>()), json!({"config":cfg}));
            return;
        }
        rep.count("sessions");
        let utf = l.utf;
        let legend = l.caps["semanticTokensProvider"]["legend"]["tokenTypes"].as_array().map(|a| a.len()).unwrap_or(0) as u64;
        let mut log: Vec<J> = vec![];
        let mut version = 0;
        let rounds = r.range(2, 6);
        for _ in 0..rounds {
            let mut ms: Vec<(Option<&'static str>, J, &'static str)> = vec![];
            let mut asked: Vec<Asked> = vec![];
            let n = r.range(3, 12);
            for _ in 0..n {
                let di = *r.pick(&[0usize, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]);
                if !docs[di].open || r.chance(1, 8) {
                    version += 1;
                    let name = docs[di].name.clone();
                    let t = text(r, &name, &self.all);
                    let d = &mut docs[di];
                    d.texts.push(t.clone());
                    if d.open {
                        ms.push((None, json!({"textDocument":{"uri":d.uri,"version":version},"contentChanges":[{"text":t}]}), "textDocument/didChange"));
                    } else {
                        d.open = true;
                        ms.push((None, json!({"textDocument":{"uri":d.uri,"languageId":"toml","version":version,"text":t}}), "textDocument/didOpen"));
                    }
                    log.push(json!([ms.last().unwrap().2, d.name, t]));
                    continue;
                }
                let d = &mut docs[di];
                let t = d.texts.last().unwrap().clone();
                let pos = position(r, &t, utf);
                let td = json!({"uri": d.uri});
                let hostile = r.chance(1, 12);
                let (m, p): (&'static str, J) = if hostile {
                    rep.count("hostile");
                    match r.below(12) {
                        0 => ("textDocument/hover", json!({"textDocument":td})),
                        1 => ("textDocument/nothing", json!({"textDocument":td,"position":pos})),
                        2 => ("textDocument/completion", json!({"textDocument":td,"position":{"line":-1,"character":0}})),
                        3 => ("textDocument/definition", json!({"textDocument":{"uri":format!("{}x", d.uri)},"position":pos})),
                        4 => ("textDocument/documentSymbol", json!({"textDocument":{"uri":"untitled:Untitled-1"}})),
                        5 => ("textDocument/formatting", json!([1, 2])),
                        6 => ("textDocument/foldingRange", json!({"textDocument":{"uri":"http://localhost:1/x.toml"}})),
                        7 => ("textDocument/semanticTokens/full", json!({"textDocument":{"uri":7}})),
                        8 => ("tombi/getBuiltInSchema", json!({"uri": r.pick_str(&["tombi://www.schemastore.org/tombi.json", "x", "tombi://"])})),
                        9 => ("tombi/getStatus", json!({"uri": "file:///"})),
                        10 => ("workspace/executeCommand", json!({"command":"x"})),
                        _ => ("textDocument/codeAction", json!({"textDocument":td,"range":{"start":pos,"end":{"line":0,"character":0}},"context":{"diagnostics":[]}})),
                    }
                } else {
                    match r.below(24) {
                        0..=3 => ("textDocument/hover", json!({"textDocument":td,"position":pos})),
                        4..=6 => ("textDocument/completion", json!({"textDocument":td,"position":pos})),
                        7 => ("textDocument/definition", json!({"textDocument":td,"position":pos})),
                        8 => ("textDocument/declaration", json!({"textDocument":td,"position":pos})),
                        9 => ("textDocument/typeDefinition", json!({"textDocument":td,"position":pos})),
                        10 => ("textDocument/references", json!({"textDocument":td,"position":pos,"context":{"includeDeclaration":r.chance(1,2)}})),
                        11 => ("textDocument/codeAction", json!({"textDocument":td,"range":{"start":pos,"end":pos},"context":{"diagnostics":[]}})),
                        12 => ("textDocument/inlayHint", json!({"textDocument":td,"range":{"start":{"line":0,"character":0},"end":pos}})),
                        13 => ("textDocument/semanticTokens/full", json!({"textDocument":td})),
                        14 => ("textDocument/documentSymbol", json!({"textDocument":td})),
                        15 => ("textDocument/documentLink", json!({"textDocument":td})),
                        16 => ("textDocument/foldingRange", json!({"textDocument":td})),
                        17 => ("textDocument/formatting", json!({"textDocument":td,"options":{"tabSize":2,"insertSpaces":true}})),
                        18 => ("textDocument/diagnostic", json!({"textDocument":td})),
                        19 => ("tombi/getStatus", td.clone()),
                        20 => ("tombi/getTomlVersion", td.clone()),
                        21 => (r.pick_str(&["tombi/listSchemas", "tombi/refreshCache"]), json!({})),
                        22 => (r.pick_str(&["tombi/updateSchema", "tombi/updateConfig"]), td.clone()),
                        _ => match r.below(6) {
                            0 => {
                                d.open = false;
                                ms.push((None, json!({"textDocument":td}), "textDocument/didClose"));
                                log.push(json!(["close", d.name]));
                                continue;
                            }
                            1 => {
                                ms.push((None, json!({"textDocument":td}), "textDocument/didSave"));
                                continue;
                            }
                            2 => {
                                ms.push((None, json!({"uri":format!("file://{}/s.json", self.sand.work.display()),"fileMatch":["*.toml"],"title":"t","force":r.chance(1,2)}), "tombi/associateSchema"));
                                log.push(json!(["associate"]));
                                continue;
                            }
                            3 => {
                                ms.push((None, json!({"id": 1 + r.below(30)}), "$/cancelRequest"));
                                continue;
                            }
                            4 => {
                                ms.push((None, json!({"changes":[{"uri":d.uri,"type":2}]}), "workspace/didChangeWatchedFiles"));
                                // the text may be read from the file now
                                if let Some(f) = &d.on_disk {
                                    d.texts.push(f.clone());
                                }
                                d.texts.push(t.clone());
                                log.push(json!(["watched", d.name]));
                                continue;
                            }
                            _ => {
                                ms.push((None, json!({"settings":null}), "workspace/didChangeConfiguration"));
                                continue;
                            }
                        },
                    }
                };
                asked.push(Asked { id: 0, method: m, doc: di, at: d.texts.len() - 1, pos: pos.clone(), hostile });
                log.push(json!([m, d.name, pos]));
                ms.push((Some("r"), p, m));
            }
            let cancelled: Vec<i64> = ms.iter().filter(|m| m.2 == "$/cancelRequest").filter_map(|m| m.1["id"].as_i64()).collect();
            let ids = l.burst(&ms);
            for (a, id) in asked.iter_mut().zip(ids) {
                a.id = id;
            }
            if !l.pump(60.0, |l| l.open.is_empty() || l.dead || l.panicked().is_some()) || l.panicked().is_some() {
                if let Some(p) = l.panicked() {
                    rep.viol(panic_sig(&p), format!("the server panicked, unanswered: {:?}: {p}", l.open), json!({"log":log}));
                } else {
                    let o: Vec<&String> = l.open.values().collect();
                    rep.viol("no-answer", format!("no answer within 60 s to {o:?} (process ended: {})", l.dead), json!({"log":log,"open":l.open,"messages":ms.iter().map(|m|json!([m.2,m.1])).collect::<Vec<_>>(),"said":l.stderr().chars().rev().take(2000).collect::<Vec<_>>().into_iter().rev().collect::<String>()}));
                }
                return;
            }
            for a in &asked {
                let Some(ans) = l.answers.get(&a.id) else { continue };
                if let Some(e) = ans.get("error") {
                    let code = e["code"].as_i64().unwrap_or(0);
                    let ok = a.hostile || (code == -32800 && cancelled.contains(&a.id));
                    rep.count("refused");
                    if !ok {
                        rep.viol(format!("error:{}", a.method), format!("{} answered with an error: {}", a.method, brief(e)), json!({"log":log}));
                    }
                    if code == -32603 {
                        rep.viol("internal-error", format!("{} answered with an internal error: {}", a.method, brief(e)), json!({"log":log}));
                    }
                    continue;
                }
                let res = &ans["result"];
                if a.hostile || res.is_null() {
                    rep.eval("", false);
                    continue;
                }
                // the text when it was asked, or one that came while it was worked on
                let mut first = None;
                let mut ok = false;
                let ts = &docs[a.doc].texts;
                for t in &ts[a.at..] {
                    match judge(a.method, t, res, &a.pos, utf, legend, &docs) {
                        Ok(k) => {
                            if !k.is_empty() {
                                rep.count(k);
                            }
                            rep.eval(&format!("{}{}{t}", a.method, a.pos), true);
                            ok = true;
                            break;
                        }
                        Err(e) => {
                            first.get_or_insert(e);
                        }
                    }
                }
                if !ok {
                    let e = first.unwrap();
                    let sig = format!("{}:{}", a.method.rsplit('/').next().unwrap(), e.0);
                    rep.viol(sig, format!("{} on {}: {}", a.method, docs[a.doc].name, e.1), json!({"text":ts[a.at],"position":a.pos,"answer":res,"utf":utf,"config":cfg,"doc":docs[a.doc].name,"log":log}));
                }
            }
        }
        rep.add("messages", l.events);
        if let Some(p) = l.panicked() {
            rep.viol(panic_sig(&p), format!("the server panicked: {p}"), json!({"log":log}));
            return;
        }
        for b in l.broken.drain(..) {
            rep.viol("protocol", b, json!({"log":log}));
        }
        if rep.samples.len() < 2 {
            rep.sample(&json!(log).to_string().chars().take(1500).collect::<String>());
        }
        match l.stop() {
            Ok(0) => rep.count("stopped"),
            x => rep.viol("shutdown", format!("shutdown and exit gave {x:?}: {}", l.stderr().chars().take(300).collect::<String>()), json!({"log":log})),
        }
    }
}

type Bad = (&'static str, String);
fn rng_in(t: &str, j: &J, utf: u8) -> Result<(usize, usize), Bad> {
    lsp::range_of(t, j, utf).ok_or_else(|| ("range", format!("the range {} is not within the text", brief(j))))
}
fn contains(j: &J, p: &J) -> bool {
    let a = lsp::pos_of(&j["start"]).unwrap_or((0, 0));
    let b = lsp::pos_of(&j["end"]).unwrap_or((0, 0));
    let p = lsp::pos_of(p).unwrap_or((0, 0));
    a <= p && p <= b
}

fn symbols(t: &str, a: &[J], parent: Option<(usize, usize)>, utf: u8, n: &mut u64) -> Result<(), Bad> {
    for s in a {
        *n += 1;
        let (rs, re) = rng_in(t, &s["range"], utf)?;
        let (ss, se) = rng_in(t, &s["selectionRange"], utf)?;
        if ss < rs || se > re {
            return Err(("selection", format!("the selection range of symbol {} is not within its range", brief(s))));
        }
        if let Some((ps, pe)) = parent {
            if rs < ps || re > pe {
                return Err(("nesting", format!("symbol {} is not within the range of its parent", brief(s))));
            }
        }
        if let Some(c) = s["children"].as_array() {
            // the tables of a parent may be spread over the document: only what lies within is nested
            symbols(t, c, None, utf, n)?;
        }
    }
    Ok(())
}

fn judge(m: &str, t: &str, res: &J, pos: &J, utf: u8, legend: u64, docs: &[Doc]) -> Result<&'static str, Bad> {
    let list = |j: &J| -> Vec<J> {
        match j {
            J::Array(a) => a.clone(),
            J::Null => vec![],
            x => vec![x.clone()],
        }
    };
    match m {
        "textDocument/hover" => {
            if let Some(rg) = res.get("range").filter(|x| !x.is_null()) {
                rng_in(t, rg, utf)?;
            }
            if res["contents"].is_null() || res["contents"]["value"] == "" {
                return Err(("empty", "nothing to show".into()));
            }
            Ok("hovers")
        }
        "textDocument/completion" => {
            let items = if res.is_array() { list(res) } else { list(&res["items"]) };
            for i in &items {
                if i["label"].as_str().is_none() {
                    return Err(("label", format!("item without label {}", brief(i))));
                }
                if let Some(e) = i.get("textEdit").filter(|e| !e.is_null()) {
                    let rg = if e.get("range").is_some() { &e["range"] } else { &e["insert"] };
                    rng_in(t, rg, utf)?;
                    let mut all = vec![json!({"range": rg, "newText": e["newText"]})];
                    all.extend(i["additionalTextEdits"].as_array().cloned().unwrap_or_default());
                    lsp::apply(t, &all, utf).map_err(|e| ("edits", format!("{e}: {}", brief(i))))?;
                }
            }
            Ok(if items.is_empty() { "" } else { "completions" })
        }
        "textDocument/definition" | "textDocument/declaration" | "textDocument/typeDefinition" | "textDocument/references" => {
            let ls = list(res);
            for x in &ls {
                let u = x["uri"].as_str().or(x["targetUri"].as_str()).unwrap_or("");
                let rg = if x.get("range").is_some() { &x["range"] } else { &x["targetSelectionRange"] };
                if lsp::pos_of(&rg["start"]).is_none() || lsp::pos_of(&rg["start"]) > lsp::pos_of(&rg["end"]) {
                    return Err(("range", format!("bad range {}", brief(x))));
                }
                if let Some(d) = docs.iter().find(|d| d.uri == u) {
                    let mut all: Vec<&String> = d.texts.iter().collect();
                    all.extend(d.on_disk.iter());
                    if !all.iter().any(|t| rng_in(t, rg, utf).is_ok()) && d.open {
                        return Err(("target", format!("the range {} is not within {}", brief(rg), d.name)));
                    }
                } else if u.is_empty() {
                    return Err(("target", format!("no target in {}", brief(x))));
                }
            }
            Ok(if ls.is_empty() { "" } else { "locations" })
        }
        "textDocument/codeAction" => {
            let ls = list(res);
            for x in &ls {
                for e in super::lspr::edits_of(x) {
                    if let Some(d) = docs.iter().find(|d| d.uri == e.0) {
                        if d.uri == docs_uri(docs, t) {
                            lsp::apply(t, &e.1, utf).map_err(|y| ("edits", format!("{y}: {}", brief(x))))?;
                        }
                    }
                }
            }
            Ok(if ls.is_empty() { "" } else { "actions" })
        }
        "textDocument/inlayHint" => {
            let ls = list(res);
            for x in &ls {
                let p = lsp::pos_of(&x["position"]).ok_or(("range", "hint without position".to_string()))?;
                if lsp::offset(t, p.0, p.1, utf).is_none() {
                    return Err(("range", format!("the hint {} is not within the text", brief(x))));
                }
            }
            Ok(if ls.is_empty() { "" } else { "hints" })
        }
        "textDocument/semanticTokens/full" => {
            let d: Vec<u64> = res["data"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
            if d.len() % 5 != 0 {
                return Err(("shape", format!("{} numbers are no semantic tokens", d.len())));
            }
            let ls = lsp::lines(t);
            let (mut line, mut ch) = (0u64, 0u64);
            let mut end = 0u64;
            for (k, x) in d.chunks(5).enumerate() {
                if x[0] > 0 {
                    line += x[0];
                    ch = x[1];
                    end = 0;
                } else {
                    ch += x[1];
                }
                let Some(l) = ls.get(line as usize) else { return Err(("line", format!("token {k} is on line {line} of {}", ls.len()))) };
                if k > 0 && x[0] == 0 && ch < end {
                    return Err(("overlap", format!("token {k} at {line}:{ch} overlaps the one before, which ends at {end}")));
                }
                if ch + x[2] > lsp::units(l, utf) as u64 {
                    return Err(("length", format!("token {k} at {line}:{ch} of length {} passes the end of the line {l:?}", x[2])));
                }
                if lsp::offset(t, line, ch, utf).is_none() || lsp::offset(t, line, ch + x[2], utf).is_none() {
                    return Err(("inside", format!("token {k} at {line}:{ch} of length {} begins or ends within a character of {l:?}", x[2])));
                }
                if x[2] == 0 {
                    return Err(("zero", format!("token {k} at {line}:{ch} has no length")));
                }
                if x[3] >= legend {
                    return Err(("legend", format!("token {k} has type {} of {legend}", x[3])));
                }
                end = ch + x[2];
            }
            Ok(if d.is_empty() { "" } else { "tokens" })
        }
        "textDocument/documentSymbol" => {
            let ls = list(res);
            let mut n = 0;
            symbols(t, &ls, None, utf, &mut n)?;
            Ok(if ls.is_empty() { "" } else { "symbols" })
        }
        "textDocument/documentLink" => {
            let ls = list(res);
            for x in &ls {
                rng_in(t, &x["range"], utf)?;
                if x["target"].as_str().is_none_or(|u| u.is_empty()) {
                    return Err(("target", format!("link without target {}", brief(x))));
                }
            }
            Ok(if ls.is_empty() { "" } else { "links" })
        }
        "textDocument/foldingRange" => {
            let ls = list(res);
            for x in &ls {
                let j = json!({"start":{"line":x["startLine"],"character":x["startCharacter"]},"end":{"line":x["endLine"],"character":x["endCharacter"]}});
                rng_in(t, &j, utf)?;
            }
            Ok(if ls.is_empty() { "" } else { "folds" })
        }
        "textDocument/formatting" => {
            lsp::apply(t, &list(res), utf).map_err(|e| ("edits", e))?;
            Ok("formats")
        }
        "textDocument/diagnostic" => {
            for x in list(&res["items"]) {
                rng_in(t, &x["range"], utf)?;
            }
            Ok("diagnostics")
        }
        _ => Ok("other"),
    }
}

fn docs_uri<'a>(docs: &'a [Doc], t: &str) -> &'a str {
    docs.iter().find(|d| d.texts.iter().any(|x| x == t)).map(|d| d.uri.as_str()).unwrap_or("")
}

/// the edits of a code action: (document, edits)
pub fn edits_of(a: &J) -> Vec<(String, Vec<J>)> {
    let mut out: BTreeMap<String, Vec<J>> = BTreeMap::new();
    let e = &a["edit"];
    if let Some(c) = e["changes"].as_object() {
        for (u, v) in c {
            out.entry(u.clone()).or_default().extend(v.as_array().cloned().unwrap_or_default());
        }
    }
    if let Some(c) = e["documentChanges"].as_array() {
        for x in c {
            if let Some(u) = x["textDocument"]["uri"].as_str() {
                out.entry(u.into()).or_default().extend(x["edits"].as_array().cloned().unwrap_or_default());
            }
        }
    }
    out.into_iter().collect()
}
