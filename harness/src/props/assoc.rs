//! P18: which schema judges which part of which file, under which settings.
use crate::cli::Sand;
use crate::driver::*;
use crate::rng::Rng;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P18",
        quick_cases: 4000,
        quick_s: 45,
        thorough_cases: 100_000_000,
        thorough_s: 1200,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one document of a generated project, linted and formatted by the command line tool in one run over all of them, whose diagnostics and key order were compared with the ones that follow from the schema that the configuration, the catalogs and the document's own directive assign to each of its tables; distinct non-trivial = distinct (configuration, document) pairs in which some schema applies or a directive is given",
        assumptions: &["`*` in a file pattern is only used where it makes no difference whether it crosses a directory", "no two entries that apply to one document name the same schema file", "a `#:schema` directive that cannot be loaded leaves the formatter free to use no schema"],
        must: &["entry_root", "entry_sub", "entry_catalog", "directive", "directive_bad", "unloadable_skipped", "excluded", "fragment", "strict_off", "strict_on", "dep_off", "dep_error", "dep_override", "order_override", "order_disabled", "sorted", "version_docs", "disabled", "cached"],
        make: |c| Box::new(Assoc { sand: Sand::new(c) }),
    }]
}

struct Assoc {
    sand: Sand,
}

const N: usize = 7;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Load {
    Ok,
    Missing,
    BadJson,
    NotSchema,
    /// a remote schema that is in the cache
    Cached,
    /// one that is not, while working offline
    Offline,
}
#[derive(Clone, Debug)]
struct Sch {
    file: String,
    load: Load,
    order: Option<bool>,
    addl: Option<bool>,
    v11: Option<bool>,
}
#[derive(Clone, Debug, Default)]
struct Over {
    targets: Vec<&'static str>,
    dep: Option<&'static str>,
    order: Option<Option<bool>>, // Some(None): disabled
}
#[derive(Clone, Debug)]
struct Entry {
    k: usize,
    frag: bool,
    catalog: bool,
    root: Option<&'static str>,
    include: Vec<String>,
    exclude: Vec<String>,
    strict: Option<bool>,
    dep: Option<&'static str>,
    sort: Option<bool>,
    over: Vec<Over>,
    v11: Option<bool>,
    /// how the path is written
    path: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Top,
    Tool,
    Arr,
    Nested,
    X,
}
const SECTIONS: &[(&str, &[&str])] = &[("", &[]), ("[t]", &["t"]), ("[tool.a]", &["tool", "a"]), ("[tool.b]", &["tool", "b"]), ("[[arr]]", &["arr", "0"]), ("[[arr]]", &["arr", "1"])];

/// a pattern like `tool.*`, `arr[*].d`; None: no match, Some(n): n segments named exactly
fn score(pat: &str, path: &[&str]) -> Option<usize> {
    let p = pat.replace('[', ".").replace(']', "");
    let segs: Vec<&str> = p.split('.').filter(|s| !s.is_empty()).collect();
    if segs.len() != path.len() {
        return None;
    }
    let mut n = 0;
    for (a, b) in segs.iter().zip(path) {
        let a = a.trim_matches(|c| c == '"' || c == '\'');
        if a == *b {
            n += 1;
        } else if a != "*" {
            return None;
        }
    }
    Some(n)
}
fn best<'a, T>(v: impl Iterator<Item = (&'a str, T)>, path: &[&str]) -> Option<T> {
    let mut b: Option<(usize, T)> = None;
    for (p, x) in v {
        if let Some(s) = score(p, path)
            && b.as_ref().is_none_or(|b| s > b.0)
        {
            b = Some((s, x));
        }
    }
    b.map(|b| b.1)
}
/// the file patterns this check writes
fn file_match(pat: &str, rel: &str, base: &str) -> bool {
    if let Some(p) = pat.strip_prefix('/') {
        return format!("{base}/{rel}") == format!("/{p}");
    }
    if pat == "**/*.toml" {
        return true;
    }
    if let Some((dir, rest)) = pat.split_once("/**/") {
        let rest = rest.strip_prefix('*').unwrap_or(rest);
        return rel.starts_with(&format!("{dir}/")) && rel.ends_with(rest);
    }
    let p = pat.strip_prefix("**/").unwrap_or(pat);
    let (p, r): (Vec<&str>, Vec<&str>) = (p.split('/').collect(), rel.split('/').collect());
    p.len() <= r.len() && p.iter().zip(&r[r.len() - p.len()..]).all(|(p, r)| p == r || (p.len() == r.len() && p.contains('?') && p.chars().zip(r.chars()).all(|(a, b)| a == b || a == '?')) || (*p == "[ab].toml" && (*r == "a.toml" || *r == "b.toml")))
}

fn body(k: usize, mark: &str, s: &Sch, deep: bool, x: bool) -> J {
    let mut o = json!({"type": "object", "properties": {"d": {"deprecated": true}}});
    let ps = o["properties"].as_object_mut().unwrap();
    for c in ["p", "q", "r"] {
        for j in 0..N {
            ps.insert(format!("{c}{j}"), if c == mark && j == k { json!({"type": "string"}) } else { json!({}) });
        }
    }
    if deep {
        let t = body(k, "q", s, false, false);
        for n in ["t", "a", "b"] {
            ps.insert(n.into(), t.clone());
        }
        ps.insert("tool".into(), json!({"type": "object", "properties": {"a": t, "b": t}}));
        ps.insert("arr".into(), json!({"type": "array", "items": t}));
    }
    if x {
        for n in ["t", "a", "b", "tool", "arr"] {
            ps.insert(n.into(), json!(true));
        }
    }
    if let Some(a) = s.addl {
        o["additionalProperties"] = json!(a);
    }
    if let Some(a) = s.order {
        o["x-tombi-table-keys-order"] = json!(if a { "ascending" } else { "descending" });
    }
    o
}

struct Proj {
    schemas: Vec<Sch>,
    entries: Vec<Entry>,
    enabled: bool,
    strict: Option<bool>,
    v11: Option<bool>,
    base: String,
}
/// what applies to a document
struct Applied<'a> {
    root: Option<(usize, bool)>,
    root_entry: Option<&'a Entry>,
    /// the root schema comes from the entry and not from the document
    own: bool,
    subs: Vec<&'a Entry>,
}
impl Proj {
    fn loads(&self, k: usize) -> bool {
        matches!(self.schemas[k].load, Load::Ok | Load::Cached)
    }
    fn by_path(&self, rel: &str) -> Applied<'_> {
        let mut a = Applied { root: None, root_entry: None, own: true, subs: vec![] };
        if !self.enabled {
            return a;
        }
        for e in self.entries.iter().filter(|e| !e.catalog).chain(self.entries.iter().filter(|e| e.catalog)) {
            if !e.include.iter().any(|p| file_match(p, rel, &self.base)) || e.exclude.iter().any(|p| file_match(p, rel, &self.base)) || !self.loads(e.k) {
                continue;
            }
            match e.root {
                None if a.root.is_none() => {
                    a.root = Some((e.k, e.frag));
                    a.root_entry = Some(e);
                }
                Some(p) if !a.subs.iter().any(|s| s.root.unwrap().replace('"', "") == p.replace('"', "")) => a.subs.push(e),
                _ => {}
            }
        }
        a
    }
}
/// the schema in force at a place
#[derive(Clone)]
struct At<'a> {
    k: usize,
    mode: Mode,
    entry: Option<&'a Entry>,
    sub: bool,
}
fn at<'a>(a: &Applied<'a>, path: &[&str]) -> Option<At<'a>> {
    let mut cur = a.root.map(|(k, f)| At { k, mode: if f { Mode::X } else { Mode::Top }, entry: if a.own { a.root_entry } else { None }, sub: false });
    for i in 0..path.len() {
        if let Some(c) = &mut cur {
            let m = match (c.mode, path[i]) {
                (Mode::Top, "t" | "a" | "b") => Some(Mode::Nested),
                (Mode::Top, "tool") => Some(Mode::Tool),
                (Mode::Top, "arr") => Some(Mode::Arr),
                (Mode::Tool, _) | (Mode::Arr, _) => Some(Mode::Nested),
                _ => None,
            };
            match m {
                Some(m) => c.mode = m,
                None => cur = None,
            }
        }
        if let Some(e) = best(a.subs.iter().map(|e| (e.root.unwrap(), *e)), &path[..=i]) {
            cur = Some(At { k: e.k, mode: if e.frag { Mode::X } else { Mode::Top }, entry: Some(e), sub: true });
        }
    }
    cur
}

struct Doc {
    rel: String,
    text: String,
    /// (line, error?) of what must be reported; lines in `either` are left open
    want: BTreeSet<(usize, bool)>,
    either: BTreeSet<usize>,
    /// section -> keys in the order they must be in after formatting
    order: Vec<(usize, Vec<String>)>,
    kind: &'static str,
}

impl Assoc {
    fn schema_uri(&self, s: &Sch) -> String {
        match s.load {
            Load::Cached | Load::Offline => format!("https://example.com/{}", s.file),
            _ => format!("file://{}", self.sand.work.join(&s.file).display()),
        }
    }
    fn project(&mut self, r: &mut Rng, cfg_dir: &str) -> Proj {
        let mut schemas = vec![];
        for k in 0..N {
            let load = *r.pick(&[Load::Ok, Load::Ok, Load::Ok, Load::Ok, Load::Ok, Load::Ok, Load::Missing, Load::BadJson, Load::NotSchema, Load::Cached, Load::Cached, Load::Offline]);
            let s = Sch {
                file: format!("{}s{k}.json", r.pick_str(&["", "schemas/", "schemas/", "sub/sch/"])),
                load,
                order: *r.pick(&[None, Some(true), Some(false)]),
                addl: *r.pick(&[None, None, None, Some(true), Some(false)]),
                v11: *r.pick(&[None, None, None, Some(true), Some(false)]),
            };
            let mut j = body(k, "p", &s, true, false);
            j["definitions"] = json!({"X": body(k, "r", &s, false, true)});
            if let Some(v) = s.v11 {
                j["x-tombi-toml-version"] = json!(if v { "v1.1.0" } else { "v1.0.0" });
            }
            let t = j.to_string();
            match s.load {
                Load::Ok => drop(self.sand.put(&s.file, t.as_bytes())),
                Load::BadJson => drop(self.sand.put(&s.file, &t.as_bytes()[..t.len() - 1])),
                Load::NotSchema => drop(self.sand.put(&s.file, b"[1]")),
                Load::Cached => {
                    let p = self.sand.base.join("cache/https/example.com").join(&s.file);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, t).unwrap();
                }
                Load::Missing | Load::Offline => {}
            }
            schemas.push(s);
        }
        let base = self.sand.work.join(cfg_dir.trim_end_matches('/')).display().to_string().trim_end_matches('/').to_string();
        let mut p = Proj { schemas, entries: vec![], enabled: !r.chance(1, 15), strict: *r.pick(&[None, None, Some(true), Some(false)]), v11: *r.pick(&[None, None, Some(true), Some(false)]), base: base.clone() };
        // the last schema is kept for directives alone
        let mut ks: Vec<usize> = (0..N - 1).collect();
        r.shuffle(&mut ks);
        let n = r.below(ks.len() + 1);
        for &k in &ks[..n] {
            let mut inc = vec![];
            for _ in 0..r.range(1, 2) {
                inc.push(match r.below(12) {
                    0 => "**/*.toml".to_string(),
                    1 => "sub/**/*.toml".into(),
                    2 => "**/a.toml".into(),
                    3 => "sub/a.toml".into(),
                    4 => "deep/c.toml".into(),
                    5 => "?1.toml".into(),
                    6 => "[ab].toml".into(),
                    7 => format!("{base}/a.toml"),
                    8 => "sub/**/a.toml".into(),
                    9 => "b.toml".into(),
                    _ => "a.toml".into(),
                });
            }
            let exc = if r.chance(1, 4) { vec![r.pick_str(&["a.toml", "sub/**/*.toml", "**/b.toml", "deep/c.toml"]).to_string()] } else { vec![] };
            let catalog = r.chance(1, 4);
            let root = if !catalog && r.chance(2, 5) { Some(r.pick_str(&["t", "tool", "tool.a", "tool.*", "tool.\"b\"", "arr[*]", "arr[0]", "arr[1]", "'t'"])) } else { None };
            let mut over = vec![];
            if !catalog && r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    over.push(Over {
                        targets: (0..r.range(1, 3)).map(|_| r.pick_str(&["", "t", "tool.a", "tool.*", "arr[*]", "arr[1]", "d", "t.d", "*.d", "tool.*.d", "tool.b.d", "tool.*.*", "arr[*].d", "arr[0].d"])).collect(),
                        dep: if r.chance(1, 2) { Some(r.pick_str(&["off", "warn", "error"])) } else { None },
                        order: *r.pick(&[None, None, Some(None), Some(Some(true)), Some(Some(false))]),
                    });
                }
            }
            let frag = r.chance(1, 5);
            let s = &p.schemas[k];
            let uri = matches!(s.load, Load::Cached | Load::Offline) || frag || catalog || r.chance(1, 4);
            let path = if uri {
                format!("{}{}", self.schema_uri(s), if frag { "#/definitions/X" } else { "" })
            } else if r.chance(1, 5) {
                self.sand.work.join(&s.file).display().to_string()
            } else {
                let up = "../".repeat(cfg_dir.matches('/').count());
                format!("{}{up}{}", if r.chance(1, 4) { "./" } else { "" }, s.file)
            };
            p.entries.push(Entry {
                k,
                frag,
                catalog,
                root,
                include: inc,
                exclude: if catalog { vec![] } else { exc },
                strict: if catalog { None } else { *r.pick(&[None, None, Some(true), Some(false)]) },
                dep: if !catalog && r.chance(1, 2) { Some(r.pick_str(&["off", "warn", "error"])) } else { None },
                sort: if catalog { None } else { *r.pick(&[None, None, Some(true), Some(false)]) },
                over,
                v11: if catalog || root.is_some() { None } else { *r.pick(&[None, None, None, Some(true), Some(false)]) },
                path,
            });
        }
        p
    }
    fn config(&mut self, r: &mut Rng, p: &Proj, cfg_dir: &str) -> String {
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
        let mut s = String::new();
        if let Some(v) = p.v11 {
            s += &format!("toml-version = \"v1.{}.0\"\n", v as u8);
        }
        let cat: Vec<&Entry> = p.entries.iter().filter(|e| e.catalog).collect();
        let mut paths = vec![];
        let cut = r.below(cat.len() + 1);
        for (i, part) in [&cat[..cut], &cat[cut..]].iter().enumerate() {
            let mut list: Vec<J> = vec![];
            if r.chance(1, 2) {
                list.push(json!({"name": "json", "description": "", "url": "file:///nowhere/x.json", "fileMatch": ["*.json"]}));
            }
            list.extend(part.iter().map(|e| json!({"name": format!("s{}", e.k), "description": "x", "url": e.path, "fileMatch": e.include})));
            if part.is_empty() && r.chance(1, 2) {
                continue;
            }
            let f = format!("cat/c{i}.json");
            let at = self.sand.put(&f, json!({"schemas": list}).to_string().as_bytes());
            paths.push(match r.below(3) {
                0 => format!("file://{}", at.display()),
                1 => at.display().to_string(),
                _ => format!("{}{f}", "../".repeat(cfg_dir.matches('/').count())),
            });
        }
        s += "[schema]\n";
        if !p.enabled || r.chance(1, 5) {
            s += &format!("enabled = {}\n", p.enabled);
        }
        if let Some(b) = p.strict {
            s += &format!("strict = {b}\n");
        }
        s += &format!("catalog.paths = {}\n", list(&paths));
        for e in p.entries.iter().filter(|e| !e.catalog) {
            s += &format!("[[schemas]]\npath = {:?}\ninclude = {}\n", e.path, list(&e.include));
            if !e.exclude.is_empty() {
                s += &format!("exclude = {}\n", list(&e.exclude));
            }
            if let Some(x) = e.root {
                s += &if x.contains('\'') { format!("root = {x:?}\n") } else { format!("root = '{x}'\n") };
            }
            if let Some(b) = e.strict {
                s += &format!("strict = {b}\n");
            }
            if let Some(v) = e.v11 {
                s += &format!("toml-version = \"v1.{}.0\"\n", v as u8);
            }
            if let Some(d) = e.dep {
                s += &format!("lint.rules.deprecated = {d:?}\n");
            }
            if let Some(b) = e.sort {
                s += &format!("format.rules.table-keys-order.enabled = {b}\n");
            }
            for o in &e.over {
                s += "[[schemas.overrides]]\n";
                s += &format!("targets = {}\n", list(&o.targets.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
                if let Some(d) = o.dep {
                    s += &format!("lint.rules.deprecated = {d:?}\n");
                }
                match o.order {
                    None => {}
                    Some(None) => s += "format.rules.table-keys-order.enabled = false\n",
                    Some(Some(a)) => s += &format!("format.rules.table-keys-order = \"{}\"\n", if a { "ascending" } else { "descending" }),
                }
            }
        }
        s
    }
    fn doc(&mut self, r: &mut Rng, p: &Proj, rel: &str, cfg_dir: &str, rep: &mut Rep) -> Doc {
        let in_cfg = rel.strip_prefix(cfg_dir).unwrap();
        let mut d = Doc { rel: rel.into(), text: String::new(), want: BTreeSet::new(), either: BTreeSet::new(), order: vec![], kind: "" };
        let mut a = p.by_path(in_cfg);
        let version = r.chance(1, 5);
        let mut dir: Option<usize> = None;
        let mut line = 0;
        let mut free_order = false;
        let mut free = false;
        // ---------------------------------------------------------------- the document's own schema
        if r.chance(1, 3) {
            let k = if r.chance(1, 2) {
                N - 1
            } else {
                // a schema of which no entry that applies here makes use
                let used: Vec<usize> = p.entries.iter().map(|e| e.k).collect();
                (0..N).find(|k| !used.contains(k)).unwrap_or(N - 1)
            };
            let s = &p.schemas[k];
            let abs = self.sand.work.join(&s.file);
            let up = "../".repeat(rel.matches('/').count());
            let mut frag = false;
            let uri = match s.load {
                Load::Cached | Load::Offline => self.schema_uri(s),
                _ => match r.below(6) {
                    0 => abs.display().to_string(),
                    1 => format!("file://{}", abs.display()),
                    2 => {
                        frag = r.chance(1, 2);
                        format!("file://./{up}{}{}", s.file, if frag { "#/definitions/X" } else { "" })
                    }
                    3 if up.is_empty() => format!("./{}", s.file),
                    4 if !up.is_empty() => format!("file://{up}{}", s.file),
                    _ => format!("{up}{}", s.file),
                },
            };
            d.text += &format!("#:schema {uri}\n");
            dir = Some(k);
            if !p.enabled {
                // whether validation that is switched off covers the document's own schema too is not said
                free = true;
            }
            match s.load {
                Load::Ok | Load::Cached => {
                    rep.count("directive");
                    if frag {
                        rep.count("fragment");
                    }
                    a.root = Some((k, frag));
                    a.own = false;
                }
                Load::Offline => rep.count("directive_offline"),
                _ => {
                    rep.count("directive_bad");
                    d.want.insert((0, false));
                    free_order = true;
                }
            }
            line += 1;
        }
        let mut strict_dir = None;
        if r.chance(1, 6) {
            let b = r.chance(1, 2);
            strict_dir = Some(b);
            d.text += &format!("#:tombi schema.strict = {b}\n");
            line += 1;
        }
        if line > 0 {
            d.text += "\n";
            line += 1;
        }
        if version {
            // ------------------------------------------------------------ which version of TOML is spoken
            rep.count("version_docs");
            d.kind = "version";
            d.text += "p0 = \"\\e\"\n";
            let v = a.root_entry.and_then(|e| e.v11).or(a.root.and_then(|(k, _)| p.schemas[k].v11)).or(p.v11).unwrap_or(false);
            // an entry's version is for its own schema; what it means when the document brings another one is not said
            if free || (!a.own && a.root_entry.is_some_and(|e| e.v11.is_some())) {
                d.either.insert(line);
            } else if !v {
                d.want.insert((line, true));
            }
            return d;
        }
        d.kind = "sections";
        for (si, (head, path)) in SECTIONS.iter().enumerate() {
            if si > 0 && r.chance(1, 4) && *head != "[[arr]]" {
                continue;
            }
            if si > 0 {
                d.text += &format!("{head}\n");
                line += 1;
            }
            let mut keys: Vec<String> = vec!["d".into(), "zz".into()];
            for c in ["p", "q", "r"] {
                for j in 0..N {
                    keys.push(format!("{c}{j}"));
                }
            }
            r.shuffle(&mut keys);
            let st = at(&a, path);
            let mark = st.as_ref().map(|s| format!("{}{}", match s.mode { Mode::Top => "p", Mode::X => "r", _ => "q" }, s.k));
            for k in &keys {
                d.text += &format!("{k} = 1\n");
                if free {
                    d.either.insert(line);
                }
                if let Some(st) = &st {
                    if Some(k) == mark.as_ref() {
                        d.want.insert((line, true));
                    }
                    if k == "zz" {
                        let strict = strict_dir
                            .or(if st.sub { st.entry.and_then(|e| e.strict) } else { None })
                            .or(a.root_entry.and_then(|e| e.strict))
                            .or(p.strict)
                            .unwrap_or(true);
                        rep.count(if strict { "strict_on" } else { "strict_off" });
                        match p.schemas[st.k].addl {
                            Some(true) => {}
                            Some(false) => drop(d.want.insert((line, true))),
                            None => {
                                if strict {
                                    d.want.insert((line, false));
                                }
                            }
                        }
                    }
                    if k == "d" {
                        let mut dp = path.to_vec();
                        dp.push("d");
                        let o = st.entry.and_then(|e| best(e.over.iter().filter(|o| o.dep.is_some()).flat_map(|o| o.targets.iter().map(move |t| (*t, o.dep))), &dp)).flatten();
                        if o.is_some() {
                            rep.count("dep_override");
                        }
                        let lv = o.or(st.entry.and_then(|e| e.dep)).or(a.root_entry.and_then(|e| e.dep)).unwrap_or("warn");
                        match lv {
                            "off" => rep.count("dep_off"),
                            l => {
                                if l == "error" {
                                    rep.count("dep_error");
                                }
                                d.want.insert((line, l == "error"));
                            }
                        }
                    }
                }
                line += 1;
            }
            // ------------------------------------------------------------ the order the formatter must give
            let over = |e: Option<&Entry>| e.and_then(|e| best(e.over.iter().filter(|o| o.order.is_some()).flat_map(|o| o.targets.iter().map(move |t| (*t, o.order))), path)).flatten();
            let o = match &st {
                Some(st) => over(st.entry).or_else(|| if a.own { over(a.root_entry) } else { None }),
                None => None,
            };
            // an override for a place its schema says nothing about is left open
            let root_over_here = st.is_none() && (a.own && over(a.root_entry).is_some() || a.subs.iter().any(|e| over(Some(e)).is_some()));
            let order = match (o, &st) {
                (Some(None), _) => {
                    rep.count("order_disabled");
                    None
                }
                (Some(Some(x)), _) => {
                    rep.count("order_override");
                    Some(x)
                }
                (None, Some(st)) if st.mode != Mode::Tool => {
                    // a sub schema without a rule of its own goes by the root's
                    let on = st.entry.and_then(|e| e.sort).or(if a.own { a.root_entry.and_then(|e| e.sort) } else { None }).unwrap_or(true);
                    if on { p.schemas[st.k].order } else { None }
                }
                _ => None,
            };
            if let Some(up) = order {
                keys.sort();
                if !up {
                    keys.reverse();
                }
                rep.count("sorted");
            }
            if !(free_order || free || root_over_here) {
                d.order.push((si, keys));
            }
        }
        if let Some(e) = a.root_entry {
            rep.count(if e.catalog { "entry_catalog" } else { "entry_root" });
            if e.frag {
                rep.count("fragment");
            }
        }
        if !a.subs.is_empty() {
            rep.count("entry_sub");
        }
        if a.root_entry.into_iter().chain(a.subs.iter().copied()).any(|e| p.schemas[e.k].load == Load::Cached) {
            rep.count("cached");
        }
        if p.enabled {
            for e in &p.entries {
                let inc = e.include.iter().any(|x| file_match(x, in_cfg, &p.base));
                if inc && e.exclude.iter().any(|x| file_match(x, in_cfg, &p.base)) {
                    rep.count("excluded");
                } else if inc && !p.loads(e.k) {
                    rep.count("unloadable_skipped");
                }
            }
        } else {
            rep.count("disabled");
        }
        let _ = dir;
        d
    }
}

fn parse_lint(out: &str) -> Option<BTreeMap<String, BTreeSet<(usize, bool)>>> {
    let mut m: BTreeMap<String, BTreeSet<(usize, bool)>> = BTreeMap::new();
    let mut lv: Option<bool> = None;
    for l in out.lines() {
        let t = l.trim_start();
        if t.starts_with("Error:") {
            lv = Some(true);
        } else if t.starts_with("Warning:") {
            lv = Some(false);
        } else if let Some(x) = l.strip_prefix("    at ") {
            let mut it = x.rsplitn(3, ':');
            let _col = it.next()?;
            let line: usize = it.next()?.parse().ok()?;
            m.entry(it.next()?.to_string()).or_default().insert((line - 1, lv?));
        }
    }
    Some(m)
}

impl Check for Assoc {
    fn case(&mut self, idx: u64, r: &mut Rng, rep: &mut Rep) {
        self.sand.clear();
        let cfg_dir = r.pick_str(&["", "", "proj/", "x y/"]);
        let p = self.project(r, cfg_dir);
        let cfg = self.config(r, &p, cfg_dir);
        let name = r.pick_str(&["tombi.toml", "tombi.toml", ".tombi.toml", ".config/tombi.toml"]);
        self.sand.put(&format!("{cfg_dir}{name}"), cfg.as_bytes());
        let mut docs = vec![];
        for rel in ["a.toml", "b.toml", "sub/a.toml", "sub/deep/c.toml", "o ther/d1.toml", "deep/sub/a.toml"] {
            let rel = format!("{cfg_dir}{rel}");
            let d = self.doc(r, &p, &rel, cfg_dir, rep);
            self.sand.put(&rel, d.text.as_bytes());
            docs.push(d);
        }
        // from where the tool is run
        let cwd = r.pick_str(&["", "", "sub/", "deep/sub/"]);
        let up = "../".repeat(cwd.matches('/').count());
        let names: Vec<String> = docs.iter().map(|d| format!("{up}{}", d.rel.strip_prefix(cfg_dir).unwrap())).collect();
        let wd = self.sand.work.join(format!("{cfg_dir}{cwd}"));
        let mut args: Vec<String> = vec!["lint".into(), "--offline".into()];
        args.extend(names.iter().cloned());
        let input = |d: Option<&Doc>, run: &crate::cli::Run| json!({"case": idx, "config": cfg, "config_dir": cfg_dir, "cwd": cwd, "args": args, "document": d.map(|d| json!({"path": d.rel, "text": d.text})), "schemas": p.schemas.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "run": run.brief()});
        let run = self.sand.run_full(&args, None, &wd, &[]);
        if let Some(c) = run.crashed() {
            rep.viol("crash", format!("tombi lint: {c}"), input(None, &run));
            return;
        }
        let all = format!("{}{}", String::from_utf8_lossy(&run.out), run.err);
        let Some(got) = parse_lint(&all) else {
            rep.viol("unreadable-output", "the diagnostics cannot be read", input(None, &run));
            return;
        };
        if !all.contains("linted") {
            rep.viol("refused", "the configuration was not accepted", input(None, &run));
            return;
        }
        let none = BTreeSet::new();
        for (d, n) in docs.iter().zip(&names) {
            let g = got.get(n).unwrap_or(&none);
            let applied = !d.want.is_empty() || d.text.starts_with("#:");
            rep.eval(&format!("{cfg}\n{}\n{}", d.rel, d.text), applied);
            if idx % 400 == 0 {
                rep.sample(&format!("{}: {} of {} lines reported", d.rel, d.want.len(), d.text.lines().count()));
            }
            let open = |x: &&(usize, bool)| !d.either.contains(&x.0);
            let (gf, wf): (BTreeSet<_>, BTreeSet<_>) = (g.iter().filter(open).cloned().collect(), d.want.iter().filter(open).cloned().collect());
            if gf != wf {
                let what = if d.kind == "version" {
                    format!("version:{}", if gf.len() > wf.len() { "refused" } else { "accepted" })
                } else {
                    let ls: Vec<&str> = d.text.lines().collect();
                    let x = gf.symmetric_difference(&wf).next().unwrap();
                    let l = ls.get(x.0).copied().unwrap_or("");
                    let k = if l.starts_with("d ") { "deprecated" } else if l.starts_with("zz") { "strict" } else if l.starts_with('#') { "directive" } else { "which-schema" };
                    format!("lint:{k}:{}", if gf.contains(x) { "extra" } else { "missing" })
                };
                let ls: Vec<&str> = d.text.lines().collect();
                let name = |x: &(usize, bool)| {
                    let sec = ls[..=x.0.min(ls.len() - 1)].iter().rev().find(|l| l.starts_with('[')).copied().unwrap_or("");
                    let said = all.lines().collect::<Vec<_>>().windows(2).find(|w| w[1].contains(&format!("at {n}:{}:", x.0 + 1))).map(|w| w[0].trim().chars().take(90).collect::<String>()).unwrap_or_default();
                    format!("{}:{sec} {} {} {said:?}", x.0 + 1, ls.get(x.0).unwrap_or(&""), if x.1 { "error" } else { "warning" })
                };
                let show = |a: &BTreeSet<_>, b: &BTreeSet<_>| a.difference(b).take(4).map(name).collect::<Vec<_>>().join("; ");
                let more = if std::env::var("VH_ALL").is_ok() {
                    format!("\n{cfg}\ncfg {cfg_dir:?} {name:?} cwd {cwd:?}\n{}\n{}", p.schemas.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join("\n"), ls.iter().take_while(|l| l.starts_with('#')).copied().collect::<Vec<_>>().join("\n"), name = d.rel)
                } else {
                    String::new()
                };
                rep.viol(what, format!("{n}: reported but not expected [{}], expected but not reported [{}]{more}", show(&gf, &wf), show(&wf, &gf)), input(Some(d), &run));
            }
        }
        // ------------------------------------------------------------------------------------------- format
        if r.chance(1, 2) {
            return;
        }
        args[0] = "format".into();
        let run = self.sand.run_full(&args, None, &wd, &[]);
        if let Some(c) = run.crashed() {
            rep.viol("crash", format!("tombi format: {c}"), json!({"case": idx, "config": cfg, "run": run.brief()}));
            return;
        }
        for d in &docs {
            let t = String::from_utf8(self.sand.get(&d.rel).unwrap_or_default()).unwrap_or_default();
            if d.kind != "sections" {
                continue;
            }
            let mut secs: BTreeMap<usize, Vec<String>> = BTreeMap::new();
            let mut cur = 0;
            let mut arrs = 0;
            for l in t.lines() {
                if l.starts_with('[') {
                    cur = SECTIONS.iter().position(|s| s.0 == l).unwrap_or(99);
                    if l == "[[arr]]" {
                        cur += arrs;
                        arrs += 1;
                    }
                } else if let Some((k, _)) = l.split_once(" = ")
                    && !l.starts_with('#')
                {
                    secs.entry(cur).or_default().push(k.to_string());
                }
            }
            for (si, keys) in &d.order {
                rep.count("tables_ordered");
                let g = secs.get(si).cloned().unwrap_or_default();
                if &g != keys {
                    let mut s = g.clone();
                    s.sort();
                    let mut rv = s.clone();
                    rv.reverse();
                    let how = if g == s { "ascending" } else if g == rv { "descending" } else { "unsorted" };
                    rep.viol(
                        format!("format:{how}"),
                        format!("{} {:?}: keys are {how}: {g:?}, expected {keys:?}", d.rel, SECTIONS[*si].0),
                        json!({"case": idx, "config": cfg, "config_dir": cfg_dir, "args": args, "document": {"path": d.rel, "text": d.text}, "schemas": p.schemas.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "result": t, "run": run.brief()}),
                    );
                    break;
                }
            }
        }
    }
}
