//! P13 a refactoring of the language server does to the data what its title says, and nothing else.
use super::lsp::{rt, some_text};
use crate::cli::Sand;
use crate::driver::*;
use crate::gen_;
use crate::lsp::{self, Lsp, brief};
use crate::rng::Rng;
use crate::scan;
use crate::val::{self, V};
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P13",
        quick_cases: 100_000,
        quick_s: 25,
        thorough_cases: 10_000_000,
        thorough_s: 1200,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one refactoring offered by the language server at one place, its edits applied and the data before and after read by an independent TOML reader; distinct non-trivial = distinct (title, text, edits)",
        assumptions: &["the documents are valid TOML of the version in force", "a workspace manifest is the same on disk and in the editor"],
        must: &["sessions", "to_inline", "to_dotted", "inherit", "inherit_dep", "to_table", "add_to_workspace", "use_workspace", "py_add", "stopped"],
        make: |c| Box::new(Act { sand: Sand::new(c), all: gen_::corpus() }),
    }]
}

struct Act {
    sand: Sand,
    all: Vec<(String, String)>,
}

struct Doc {
    uri: String,
    text: String,
    data: Option<V>,
}

const KEYS: &[&str] = &["a", "b", "c", "d", "x-y", "\"q\"", "'l'", "\"a.b\"", "\"\"", "\"🦅\"", "\"k\\\"q\"", "'it\"s'", "1", "\"é\"", "\"a b\""];
const VALS: &[&str] = &["1", "\"s\"", "'s'", "true", "[1, 2]", "[]", "1.5", "1979-05-27", "\"\"\"x\ny\"\"\"", "\"🦅\"", "{}", "'''l'''", "[[1], {a = 1}]"];

fn dotted(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick_str(&[".", ".", ".", " . ", ". "]));
        }
        s.push_str(r.pick_str(KEYS));
    }
    s
}
fn value(r: &mut Rng, v11: bool, depth: usize) -> String {
    if depth > 0 && r.chance(1, 2) {
        let n = *r.pick(&[1usize, 1, 1, 1, 2, 0]);
        let mut items = vec![];
        for _ in 0..n {
            let k = r.range(1, 2);
            items.push(format!("{}{}{}", dotted(r, k), r.pick_str(&[" = ", "=", "  =  "]), value(r, v11, depth - 1)));
        }
        let body = items.join(r.pick_str(&[", ", ",", " , "]));
        if v11 && r.chance(1, 3) {
            return match r.below(4) {
                0 => format!("{{\n  {body}\n}}"),
                1 => format!("{{ {body}{} }}", if n > 0 { "," } else { "" }),
                2 => format!("{{ # c1\n  {body} # c2\n}}"),
                _ => format!("{{\n  # c1\n  {body}{}\n  # c2\n}}", if n > 0 { ", # c3" } else { "" }),
            };
        }
        return r.pick_str(&["{ @ }", "{@}", "{  @ }"]).replace('@', &body);
    }
    if depth > 0 && r.chance(1, 6) {
        return format!("[{}, {}]", value(r, v11, depth - 1), value(r, v11, depth - 1));
    }
    r.pick_str(VALS).to_string()
}
fn refactorable(r: &mut Rng, v11: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 8) {
        match r.below(9) {
            0 => {
                let n = r.range(1, 3);
                s.push_str(&format!("[{}]{}\n", dotted(r, n), r.pick_str(&["", " # h"])));
            }
            1 => {
                let n = r.range(1, 2);
                s.push_str(&format!("[[{}]]\n", dotted(r, n)));
            }
            2 => s.push_str(r.pick_str(&["# comment\n", "\n", "  # 🦅\n"])),
            _ => {
                let n = r.range(1, 3);
                s.push_str(&format!("{}{}{}{}{}\n", r.pick_str(&["", "", "  "]), dotted(r, n), r.pick_str(&[" = ", "=", "  = "]), value(r, v11, 2), r.pick_str(&["", "", " # t", "# 🦅"])));
            }
        }
    }
    s
}

const CRATES: &[&str] = &["serde", "rand", "tokio", "a", "zed", "x10", "x9", "\"q-r\"", "'lit'"];
fn q(r: &mut Rng, s: &str) -> String {
    match r.below(6) {
        0 => format!("'{s}'"),
        1 => format!("\"\"\"{s}\"\"\""),
        _ => format!("\"{s}\""),
    }
}
fn dep_value(r: &mut Rng, v11: bool) -> String {
    let v = r.pick_str(&["1", "0.8.5", ">=1, <2", "=1.0.0-é", "*"]);
    let v = q(r, v);
    match r.below(6) {
        0 | 1 => v,
        2 => format!("{{ version = {v} }}"),
        3 => format!("{{ version = {v}, features = [\"derive\", 'x \"y\"'], default-features = false }}"),
        4 => format!("{{ features = [\"a\"], \"package\" = 'p\\q', version={v}, optional = true }}"),
        _ => {
            if v11 {
                format!("{{\n  version = {v}, # v\n  features = [\n    \"a\", # f\n  ],\n}}")
            } else {
                format!("{{ package = \"x\\ty\", version = {v}, extra = {{ n = 1, \"a b\" = \"2\" }} }}")
            }
        }
    }
}
fn deps(r: &mut Rng, head: &str, v11: bool, sub: bool) -> String {
    let mut names: Vec<&str> = CRATES.to_vec();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    names.truncate(r.range(0, 5));
    if r.chance(2, 3) {
        names.sort();
    }
    let mut s = String::new();
    let mut later = String::new();
    match r.below(if sub { 4 } else { 3 }) {
        0 | 1 => {
            s.push_str(&format!("[{head}]{}\n", r.pick_str(&["", " # deps"])));
            for n in names {
                match r.below(7) {
                    0 => later.push_str(&format!("[{head}.{n}]\nversion = \"1\" # v\nfeatures = [\"z\"]\n\n")),
                    1 => s.push_str(&format!("{n}.version = \"1\"{}\n", r.pick_str(&["", "\n", " # v"]))),
                    2 => s.push_str(&format!("# about\n{n}.version = '2'\n{n}.features = [\"f\"]\n")),
                    _ => s.push_str(&format!("{}{n}{}{}{}\n", r.pick_str(&["", "", "# lead\n"]), r.pick_str(&[" = ", "="]), dep_value(r, v11), r.pick_str(&["", "", " # t", "\n"]))),
                }
            }
            s.push_str(&later);
        }
        2 => {
            for n in names {
                s.push_str(&format!("[{head}.{n}]{}version = {}\n", r.pick_str(&["\n", " # h\n", "\n# in\n"]), q(r, "1.2")));
                if r.chance(1, 2) {
                    s.push_str("optional = true # o\n");
                }
            }
        }
        _ => {
            let body: Vec<String> = names.iter().map(|n| format!("{n} = \"1\"")).collect();
            let (parent, last) = head.rsplit_once('.').unwrap_or(("", head));
            if !parent.is_empty() {
                s.push_str(&format!("[{parent}]\n"));
            }
            if v11 && r.chance(1, 2) {
                s.push_str(&format!("{last} = {{\n{}}}\n", body.iter().map(|b| format!("  {b},{}\n", r.pick_str(&["", " # i"]))).collect::<String>()));
            } else {
                s.push_str(&format!("{last} = {{ {} }}\n", body.join(", ")));
            }
        }
    }
    s
}
fn cargo_member(r: &mut Rng, v11: bool) -> String {
    let mut s = String::new();
    if r.chance(1, 5) {
        s.push_str(&format!("package.version = {}\npackage.name = \"m\"\n", q(r, "1")));
    } else if r.chance(4, 5) {
        s.push_str("[package]\nname = \"m\"\n");
        for k in ["version", "edition", "authors", "license", "publish", "readme"] {
            if r.chance(1, 3) {
                let v = match k {
                    "authors" => "[\"a\", \"🦅\"]".to_string(),
                    "publish" => "false".to_string(),
                    _ => r.pick_str(&["\"1\"", "'2021'", "{ workspace = true }", "{workspace=true}", "\"\"\"\nx\"\"\""]).to_string(),
                };
                s.push_str(&format!("{}{}{}{}\n", if r.chance(1, 8) { format!("\"{k}\"") } else { k.to_string() }, r.pick_str(&[" = ", "="]), v, r.pick_str(&["", " # t"])));
            }
        }
        s.push('\n');
    }
    for h in ["dependencies", "dev-dependencies", "build-dependencies", "target.'cfg(unix)'.dependencies"] {
        if r.chance(1, 2) {
            s.push_str(&deps(r, h, v11, !s.contains("[target]") && !h.starts_with("target")));
        }
    }
    s
}
fn cargo_root(r: &mut Rng, v11: bool) -> String {
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push_str("# the workspace\n");
    }
    s.push_str("[workspace]\nmembers = [\"m\"]\n");
    if r.chance(3, 4) {
        s.push_str("\n[workspace.package]\nversion = \"9\"\nedition = '2024'\nauthors = [\"x\"]\nlicense = \"MIT\"\n");
    }
    if r.chance(5, 6) {
        // [workspace] is written already, so no second header for it
        let d = deps(r, "workspace.dependencies", v11, true);
        if d.contains("[workspace]\n") {
            s = s.replacen("members = [\"m\"]\n", &format!("members = [\"m\"]\n{}", d.replacen("[workspace]\n", "", 1)), 1);
        } else {
            s.push('\n');
            s.push_str(&d);
        }
    }
    if r.chance(1, 3) {
        s.push_str("\n# end\n[profile.release]\nlto = true\n");
    }
    s
}
fn reqs(r: &mut Rng, v11: bool) -> String {
    let _ = v11;
    let mut items = vec![];
    for _ in 0..r.range(0, 4) {
        let q1 = r.pick_str(&["requests>=2", "pytest", "a[x] == 1", "zed[a,b]>=1,<2", "numpy ~= 1.0", "x10==1", "x9>=2", "requests[s,t] >=2 ; python_version<'3.13'", "numpy == 2;os_name == \"posix\"", "x11 ; os_name == 'nt'", "pydantic>=2.10,<3.0"]);
        items.push(q(r, q1));
    }
    match r.below(5) {
        0 | 1 => format!("[{}]", items.join(", ")),
        2 => format!("[{}{}]", items.join(","), if items.is_empty() { "" } else { "," }),
        3 => format!("[\n{}]", items.iter().map(|i| format!("  {i}, # c\n")).collect::<String>()),
        _ => format!("[\n  # lead\n{}\n  # end\n]", items.iter().map(|i| format!("  {i}")).collect::<Vec<_>>().join(",\n")),
    }
}
fn pyproject(r: &mut Rng, v11: bool, root: bool) -> String {
    let mut s = String::new();
    if r.chance(5, 6) {
        s.push_str("[project]\nname = \"m\"\n");
        if r.chance(5, 6) {
            s.push_str(&format!("dependencies = {}{}\n", reqs(r, v11), r.pick_str(&["", " # d"])));
        }
    }
    if r.chance(1, 2) {
        s.push_str(&format!("[project.optional-dependencies]\ndev = {}\n", reqs(r, v11)));
    }
    if r.chance(1, 2) {
        s.push_str(&format!("[dependency-groups]\ndev = {}\n", reqs(r, v11)));
        if r.chance(1, 3) {
            s.push_str("more = [{ include-group = \"dev\" }, \"alpha>=1\", \"zz>=3\"]\n");
        }
    }
    if root {
        s.push_str("[tool.uv.workspace]\nmembers = [\"p\"]\n");
    } else if r.chance(1, 4) {
        s.push_str(&format!("[tool.uv]\ndev-dependencies = {}\n", reqs(r, v11)));
    }
    s
}

fn tab(v: &V) -> Option<&Vec<(String, V)>> {
    if let V::Tab(t) = v { Some(t) } else { None }
}
/// all results of changing one element of the data at the place f accepts
fn each(v: &V, path: &mut Vec<String>, f: &mut dyn FnMut(&[String], &V) -> Option<V>, out: &mut Vec<V>, build: &dyn Fn(V) -> V) {
    if let Some(n) = f(path, v) {
        out.push(build(n));
    }
    match v {
        V::Tab(t) => {
            for (i, (k, x)) in t.iter().enumerate() {
                path.push(k.clone());
                each(x, path, f, out, &|n| {
                    let mut t2 = t.clone();
                    t2[i].1 = n;
                    build(V::Tab(t2))
                });
                path.pop();
            }
        }
        V::Arr(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(format!("#{i}"));
                each(x, path, f, out, &|n| {
                    let mut a2 = a.clone();
                    a2[i] = n;
                    build(V::Arr(a2))
                });
                path.pop();
            }
        }
        _ => {}
    }
}
fn changed(v: &V, f: &mut dyn FnMut(&[String], &V) -> Option<V>) -> Vec<V> {
    let mut out = vec![];
    each(v, &mut vec![], f, &mut out, &|n| n);
    out
}
fn is_dep(p: &[String]) -> bool {
    let d = |s: &str| ["dependencies", "dev-dependencies", "build-dependencies"].contains(&s);
    (p.len() == 2 && d(&p[0])) || (p.len() == 4 && p[0] == "target" && d(&p[2]))
}
fn inherited(v: &V) -> Option<V> {
    match v {
        V::Str(_) => Some(V::Tab(vec![("workspace".into(), V::Bool(true))])),
        V::Tab(t) => {
            let mut n: Vec<(String, V)> = t.iter().filter(|(k, _)| k != "version").cloned().collect();
            n.push(("workspace".into(), V::Bool(true)));
            Some(V::Tab(n))
        }
        _ => None,
    }
}
fn comments(t: &str) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for k in scan::scan(t) {
        if k.k == scan::K::Comment {
            *m.entry(k.text.trim_end().to_string()).or_insert(0) += 1;
        }
    }
    m
}
/// the edits of an action by document
fn edits_of(a: &J) -> Result<BTreeMap<String, Vec<J>>, String> {
    let mut m: BTreeMap<String, Vec<J>> = BTreeMap::new();
    let e = &a["edit"];
    if let Some(c) = e["changes"].as_object() {
        for (u, x) in c {
            m.entry(u.clone()).or_default().extend(x.as_array().cloned().unwrap_or_default());
        }
    }
    if let Some(c) = e["documentChanges"].as_array() {
        for x in c {
            let u = x["textDocument"]["uri"].as_str().ok_or("a change that is no edit of a document")?;
            m.entry(u.into()).or_default().extend(x["edits"].as_array().cloned().unwrap_or_default());
        }
    }
    Ok(m)
}

fn judge(title: &str, member: &V, new_member: &V, ws: Option<(&V, &V)>, ws_same: bool) -> Result<&'static str, (&'static str, String)> {
    let c = |v: &V| v.canon(false);
    let got = c(new_member);
    let one_of = |vs: Vec<V>, k: &'static str, what: &str| -> Result<&'static str, (&'static str, String)> {
        if vs.iter().any(|v| c(v) == got) {
            Ok(k)
        } else {
            Err((k, format!("{what}: {} became {}", c(member), got)))
        }
    };
    match title {
        "Convert Dotted Keys to Inline Table" | "Convert Inline Table to Dotted Keys" => {
            let k = if title.starts_with("Convert D") { "to_inline" } else { "to_dotted" };
            if !ws_same {
                return Err((k, "another document was changed".into()));
            }
            one_of(vec![member.clone()], k, "the data changed")
        }
        "Inherit from Workspace" => one_of(
            changed(member, &mut |p, v| (p.len() == 2 && p[0] == "package" && v.get("workspace").is_none()).then(|| V::Tab(vec![("workspace".into(), V::Bool(true))]))),
            "inherit",
            "not one field of the package inherits now, all else as before",
        ),
        "Inherit Dependency from Workspace" => one_of(
            changed(member, &mut |p, v| (is_dep(p) && v.get("workspace").is_none()).then(|| inherited(v)).flatten()),
            "inherit_dep",
            "not one dependency inherits now, all else as before",
        ),
        "Convert Dependency to Table Format" => one_of(
            changed(member, &mut |p, v| {
                let ok = is_dep(p) || (p.len() == 3 && p[0] == "workspace" && p[1] == "dependencies") ;
                (ok && matches!(v, V::Str(_))).then(|| V::Tab(vec![("version".into(), v.clone())]))
            }),
            "to_table",
            "not one dependency is a table now, all else as before",
        ),
        "Add to Workspace and Inherit Dependency" => {
            let mut moved = vec![];
            let vs = changed(member, &mut |p, v| {
                let n = (is_dep(p) && v.get("workspace").is_none()).then(|| inherited(v)).flatten()?;
                moved.push((p.last().unwrap().clone(), v.clone()));
                Some(n)
            });
            let Some(i) = vs.iter().position(|v| c(v) == got) else {
                return Err(("add_to_workspace", format!("the member {} became {got}", c(member))));
            };
            let Some((w0, w1)) = ws else { return Err(("add_to_workspace", "no workspace was changed".into())) };
            let w = c(w1);
            let _ = i;
            // several members of the data may give the same result; any of them will do
            for (j, (name, val)) in moved.iter().enumerate() {
                if c(&vs[j]) != got {
                    continue;
                }
                let want = changed(w0, &mut |p, v| {
                    if p.len() == 2 && p[0] == "workspace" && p[1] == "dependencies" {
                        let mut t = tab(v)?.clone();
                        t.push((name.clone(), val.clone()));
                        Some(V::Tab(t))
                    } else {
                        None
                    }
                });
                if want.iter().any(|x| c(x) == w) {
                    return Ok("add_to_workspace");
                }
            }
            Err(("add_to_workspace:ws", format!("the workspace {} became {w}", c(w0))))
        }
        "Use Workspace Dependency" | "Add to Workspace and Use Workspace Dependency" => {
            let k = if title.starts_with("Use") { "use_workspace" } else { "py_add" };
            let mut moved = vec![];
            let vs = changed(member, &mut |p, v| {
                let V::Str(s) = v else { return None };
                if !p.last().is_some_and(|x| x.starts_with('#')) {
                    return None;
                }
                let s0: String = s.chars().filter(|c| !c.is_whitespace()).collect();
                let mut n = s0.find(|c| "<>=!~@;".contains(c)).filter(|i| &s0[*i..*i + 1] != ";").map(|i| s0[..i].to_string())?;
                if let Some(i) = s0.find(';') {
                    n.push_str(&s0[i..]);
                }
                moved.push((p.to_vec(), v.clone()));
                Some(V::Str(n))
            });
            let gotw = strs(new_member, &squeeze).canon(false);
            let eq = |a: &V| strs(a, &squeeze).canon(false) == gotw;
            if !vs.iter().any(|v| eq(v)) {
                return Err((k, format!("not one requirement lost its version, all else as before: {} became {got}", c(member))));
            }
            if k == "use_workspace" {
                return if ws_same { Ok(k) } else { Err((k, "another document was changed".into())) };
            }
            let Some((w0, w1)) = ws else { return Err((k, "no workspace was changed".into())) };
            let w = c(w1);
            for (j, (_, val)) in moved.iter().enumerate() {
                if !eq(&vs[j]) {
                    continue;
                }
                // one more element in one of the lists
                let mut want = vec![];
                for at in 0..12 {
                    want.extend(changed(w0, &mut |_, v| {
                        let V::Arr(a) = v else { return None };
                        if at > a.len() {
                            return None;
                        }
                        let mut a = a.clone();
                        a.insert(at, val.clone());
                        Some(V::Arr(a))
                    }));
                }
                if want.iter().any(|x| c(x) == w) {
                    return Ok(k);
                }
            }
            Err(("py_add:ws", format!("the workspace {} became {w}", c(w0))))
        }
        _ => Ok("other_title"),
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).map(|c| if c == '"' { '\'' } else { c }).collect()
}
/// The value with `f` on all of its strings.
fn strs(v: &V, f: &dyn Fn(&str) -> String) -> V {
    match v {
        V::Str(s) => V::Str(f(s)),
        V::Arr(a) => V::Arr(a.iter().map(|x| strs(x, f)).collect()),
        V::Tab(t) => V::Tab(t.iter().map(|(k, x)| (k.clone(), strs(x, f))).collect()),
        x => x.clone(),
    }
}

impl Check for Act {
    fn pinned(&self) -> u64 {
        0
    }
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        let _ = rt;
        self.sand.clear();
        let v11 = r.chance(1, 2);
        self.sand.put("tombi.toml", format!("toml-version = \"{}\"\nschema.enabled = false\n", if v11 { "v1.1.0" } else { "v1.0.0" }).as_bytes());
        let enc: Vec<&str> = match r.below(3) {
            0 => vec!["utf-8"],
            1 => vec!["utf-32"],
            _ => vec!["utf-16"],
        };
        let mut docs: BTreeMap<String, Doc> = BTreeMap::new();
        let mut ask: Vec<(String, &'static str)> = vec![];
        let mut add = |name: &str, text: String, disk: bool, ws: &'static str, sand: &Sand| {
            let mut text = text;
            text.retain(|c| c != '\u{301}');
            let Ok(data) = val::reference(&text, v11) else { return false };
            if disk {
                sand.put(name, text.as_bytes());
            }
            let uri = format!("file://{}", sand.work.join(name).display());
            docs.insert(name.into(), Doc { uri, text, data: Some(data) });
            ask.push((name.into(), ws));
            true
        };
        for i in 0..3 {
            let t = if r.chance(3, 4) { refactorable(r, v11) } else { some_text(r, &self.all) };
            if !add(&format!("d{i}.toml"), t, false, "", &self.sand) {
                rep.count("invalid_generated");
            }
        }
        let t = cargo_root(r, v11);
        if add("Cargo.toml", t, true, "", &self.sand) {
            self.sand.put("m/src/lib.rs", b"");
            let t = cargo_member(r, v11);
            if !add("m/Cargo.toml", t, true, "Cargo.toml", &self.sand) {
                rep.count("invalid_generated");
            }
        } else {
            rep.count("invalid_generated");
        }
        let t = pyproject(r, v11, true);
        if add("pyproject.toml", t, true, "", &self.sand) {
            let t = pyproject(r, v11, false);
            if !add("p/pyproject.toml", t, true, "pyproject.toml", &self.sand) {
                rep.count("invalid_generated");
            }
        } else {
            rep.count("invalid_generated");
        }
        let mut l = Lsp::start(&self.sand, if std::env::var("LSPV").is_ok() { &["--offline", "-vvv"] } else { &["--offline"] });
        if !l.init(&enc, true, true) {
            rep.viol("no-initialize", "no answer to initialize", json!({}));
            return;
        }
        rep.count("sessions");
        let utf = l.utf;
        for (n, _) in &ask {
            let d = &docs[n];
            l.notify("textDocument/didOpen", json!({"textDocument":{"uri":d.uri,"languageId":"toml","version":1,"text":d.text}}));
        }
        for (n, wsn) in &ask {
            let d = &docs[n];
            // every border and the middle of every token
            let mut offs: BTreeSet<usize> = BTreeSet::new();
            for k in scan::scan(&d.text) {
                offs.extend([k.start, k.start + k.text.len()]);
                let m = k.start + k.text.len() / 2;
                if d.text.is_char_boundary(m) {
                    offs.insert(m);
                }
            }
            let mut offs: Vec<usize> = offs.into_iter().filter(|o| *o <= d.text.len()).collect();
            while offs.len() > 60 {
                let i = r.below(offs.len());
                offs.swap_remove(i);
            }
            let ms: Vec<(Option<&'static str>, J, &'static str)> = offs
                .iter()
                .map(|o| {
                    let (line, ch) = lsp::position(&d.text, *o, utf);
                    let p = json!({"line":line,"character":ch});
                    (Some("r"), json!({"textDocument":{"uri":d.uri},"range":{"start":p,"end":p},"context":{"diagnostics":[]}}), "textDocument/codeAction")
                })
                .collect();
            let ids = l.burst(&ms);
            if !l.pump(60.0, |l| l.open.is_empty() || l.dead || l.panicked().is_some()) || l.panicked().is_some() {
                match l.panicked() {
                    Some(p) => rep.viol(panic_sig(&p), format!("the server panicked: {p}"), json!({"text":d.text})),
                    None => rep.viol("no-answer", "no answer within 60 s to textDocument/codeAction", json!({"text":d.text})),
                }
                return;
            }
            rep.add("asked", ids.len() as u64);
            let mut seen = BTreeSet::new();
            for (id, o) in ids.iter().zip(&offs) {
                let ans = l.answers.get(id).cloned().unwrap_or(J::Null);
                for a in ans["result"].as_array().cloned().unwrap_or_default() {
                    let title = a["title"].as_str().unwrap_or("").to_string();
                    if !a["disabled"].is_null() || !seen.insert(a["edit"].to_string()) {
                        continue;
                    }
                    let ctx = |new: &str| json!({"title":title,"text":d.text,"at":lsp::position(&d.text, *o, utf),"action":a,"after":new,"workspace":docs.get(*wsn).map(|w| w.text.clone()),"v11":v11});
                    let es = match edits_of(&a) {
                        Ok(e) => e,
                        Err(e) => {
                            rep.viol("edits", format!("{title}: {e}"), ctx(""));
                            continue;
                        }
                    };
                    let mut new: BTreeMap<String, (String, V)> = BTreeMap::new();
                    let mut bad = false;
                    for (u, e) in &es {
                        let Some((dn, dd)) = docs.iter().find(|(_, x)| x.uri == *u) else {
                            rep.viol("edits:where", format!("{title} edits {u}, which it has nothing to do with"), ctx(""));
                            bad = true;
                            continue;
                        };
                        match lsp::apply(&dd.text, e, utf) {
                            Err(m) => {
                                rep.viol("edits:apply", format!("{title}: {m}"), ctx(""));
                                bad = true;
                            }
                            Ok(t) => match val::reference(&t, v11) {
                                Err(m) => {
                                    rep.viol(format!("invalid:{title}{}", if dn == n { "" } else { ":ws" }), format!("{title} at {:?} makes {dn} invalid: {}", lsp::position(&d.text, *o, utf), m.lines().next().unwrap_or("")), ctx(&t));
                                    bad = true;
                                }
                                Ok(v) => {
                                    let (c0, c1) = (comments(&dd.text), comments(&t));
                                    // a comment within what is replaced goes with it
                                    let gone: Vec<&String> = c0.iter().filter(|(k, n)| c1.get(*k).copied().unwrap_or(0) < **n).map(|x| x.0).collect();
                                    let within = e.iter().any(|x| lsp::range_of(&dd.text, &x["range"], utf).is_some_and(|(s, z)| dd.text[s..z].contains('#')));
                                    if !gone.is_empty() && (!within || title.starts_with("Convert")) {
                                        rep.viol(format!("comment:{title}"), format!("{title} loses the comments {gone:?}"), ctx(&t));
                                        bad = true;
                                    }
                                    new.insert(dn.clone(), (t, v));
                                }
                            },
                        }
                    }
                    if bad {
                        continue;
                    }
                    let old = d.data.as_ref().unwrap();
                    let nm = new.get(n).map(|x| x.1.clone()).unwrap_or(old.clone());
                    let ws = docs.get(*wsn).and_then(|w| new.get(*wsn).map(|x| (w.data.as_ref().unwrap(), &x.1)));
                    let others = new.keys().all(|k| k == n);
                    rep.eval(&format!("{title}{}{}", d.text, a["edit"]), true);
                    match judge(&title, old, &nm, ws, others) {
                        Ok(k) => rep.count(k),
                        Err((k, m)) => {
                            rep.count(k.split(':').next().unwrap());
                            let t = new.get(n).map(|x| x.0.clone()).unwrap_or_default();
                            rep.viol(format!("data:{k}"), format!("{title} at {:?}: {}", lsp::position(&d.text, *o, utf), brief(&json!(m))), ctx(&t));
                        }
                    }
                }
            }
        }
        if rep.samples.len() < 2 {
            if let Some((n, d)) = docs.iter().next() {
                rep.sample(&format!("{n}: {}", d.text));
            }
        }
        for b in l.broken.drain(..) {
            rep.viol("protocol", b, json!({}));
        }
        match l.stop() {
            Ok(0) => rep.count("stopped"),
            x => rep.viol("shutdown", format!("shutdown and exit gave {x:?}"), json!({})),
        }
    }
}
