//! P14: sorting by schema or comment directive, checked against what the documentation says it does.
use crate::driver::*;
use crate::env::*;
use crate::jschema::I;
use crate::opts;
use crate::rng::Rng;
use crate::scan::{K, Tok, decode_key, marker, scan};
use crate::tomlw;
use crate::val::V;
use serde_json::{Map, Value as J, json};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P14",
        quick_cases: 20_000,
        quick_s: 25,
        thorough_cases: 100_000_000,
        thorough_s: 1500,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one document formatted under a schema (or comment directives) that asks for sorting, and the order, groups, data and comments of the result checked; distinct non-trivial = distinct (schema, document) pairs in which the format moved something",
        assumptions: &["keys and strings compared by version sort are made of letters, digits and dots, where all readings of the style guide agree", "date-times in sorted arrays share one offset"],
        must: &["moved", "order_ascending", "order_descending", "order_version-sort", "order_schema", "order_groups", "array_sorted", "array_by", "array_groups", "headers_sorted", "dotted", "directive", "multi_groups", "comments", "wrap_ref", "wrap_anyOf", "wrap_oneOf", "wrap_allOf", "quoted_parent"],
        make: |c| Box::new(Sort { env: Env::new(), dir: c.scratch.join(format!("sort{}", c.worker)), n: 0 }),
    }]
}

struct Sort {
    env: Env,
    dir: PathBuf,
    n: u64,
}

// ------------------------------------------------------------------------------------------------- schema
#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Asc,
    Desc,
    Ver,
    Schema,
}
impl O {
    fn name(self) -> &'static str {
        match self {
            O::Asc => "ascending",
            O::Desc => "descending",
            O::Ver => "version-sort",
            O::Schema => "schema",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Grp {
    Props,
    Pat,
    Add,
}
#[derive(Clone, Debug)]
enum TO {
    No,
    All(O),
    Groups(Vec<(Grp, O)>),
}
#[derive(Clone, Debug)]
enum AO {
    No,
    All(O),
    /// of `oneOf`/`anyOf` [string, integer]
    Groups(&'static str, O, O),
}
#[derive(Clone, Debug)]
struct T {
    props: Vec<(String, S)>,
    /// keys matching ^p
    pat: Option<Box<S>>,
    add: Option<Box<S>>,
    order: TO,
    by: Option<String>,
}
#[derive(Clone, Debug)]
enum S {
    Str,
    Int,
    Bool,
    Float,
    Date(u8),
    Arr(Box<S>, AO),
    /// items that are strings or integers
    StrInt(&'static str),
    Tab(Box<T>),
    Wrap(&'static str, Box<S>),
}
impl S {
    fn peel(&self) -> &S {
        match self {
            S::Wrap(_, s) => s.peel(),
            s => s,
        }
    }
    fn tab(&self) -> Option<&T> {
        match self.peel() {
            S::Tab(t) => Some(t),
            _ => None,
        }
    }
    fn json(&self, defs: &mut Map<String, J>) -> J {
        match self {
            S::Str => json!({"type": "string"}),
            S::Int => json!({"type": "integer"}),
            S::Bool => json!({"type": "boolean"}),
            S::Float => json!({"type": "number"}),
            S::Date(f) => {
                let f = ["date", "time-local", "date-time-local", "date-time"][*f as usize];
                json!({"type": "string", "format": f})
            }
            S::StrInt(kw) => json!({*kw: [{"type": "string"}, {"type": "integer"}]}),
            S::Arr(i, o) => {
                let mut m = Map::new();
                m.insert("type".into(), json!("array"));
                m.insert("items".into(), i.json(defs));
                match o {
                    AO::No => {}
                    AO::All(o) => {
                        m.insert("x-tombi-array-values-order".into(), json!(o.name()));
                    }
                    AO::Groups(kw, a, b) => {
                        m.insert("x-tombi-array-values-order".into(), json!({*kw: [a.name(), b.name()]}));
                    }
                }
                J::Object(m)
            }
            S::Tab(t) => {
                let mut m = Map::new();
                m.insert("type".into(), json!("object"));
                let mut p = Map::new();
                for (k, s) in &t.props {
                    p.insert(k.clone(), s.json(defs));
                }
                m.insert("properties".into(), J::Object(p));
                if let Some(s) = &t.pat {
                    let j = s.json(defs);
                    m.insert("patternProperties".into(), json!({"^p": j}));
                }
                let a = t.add.as_ref().map(|s| s.json(defs)).unwrap_or(json!(false));
                m.insert("additionalProperties".into(), a);
                match &t.order {
                    TO::No => {}
                    TO::All(o) => {
                        m.insert("x-tombi-table-keys-order".into(), json!(o.name()));
                    }
                    TO::Groups(g) => {
                        let mut x = Map::new();
                        for (k, o) in g {
                            let k = match k {
                                Grp::Props => "properties",
                                Grp::Pat => "patternProperties",
                                Grp::Add => "additionalProperties",
                            };
                            x.insert(k.into(), json!(o.name()));
                        }
                        m.insert("x-tombi-table-keys-order".into(), J::Object(x));
                    }
                }
                if let Some(b) = &t.by {
                    m.insert("x-tombi-array-values-order-by".into(), json!(b));
                }
                J::Object(m)
            }
            S::Wrap(kw, s) => {
                let j = s.json(defs);
                let other = match s.peel() {
                    S::Bool => json!({"type": "integer"}),
                    _ => json!({"type": "boolean"}),
                };
                match *kw {
                    "$ref" => {
                        let n = format!("d{}", defs.len());
                        defs.insert(n.clone(), j);
                        json!({"$ref": format!("#/definitions/{n}")})
                    }
                    "allOf" => json!({"allOf": [j]}),
                    kw => {
                        if defs.len() % 2 == 0 {
                            json!({kw: [other, j]})
                        } else {
                            json!({kw: [j, other]})
                        }
                    }
                }
            }
        }
    }
    fn child(&self, k: &str) -> Option<&S> {
        let t = self.tab()?;
        match t.class(k) {
            Grp::Props => t.props.iter().find(|p| p.0 == k).map(|p| &p.1),
            Grp::Pat => t.pat.as_deref(),
            Grp::Add => t.add.as_deref(),
        }
    }
}
impl T {
    fn class(&self, k: &str) -> Grp {
        if self.props.iter().any(|p| p.0 == k) {
            Grp::Props
        } else if self.pat.is_some() && k.starts_with('p') {
            Grp::Pat
        } else {
            Grp::Add
        }
    }
}

const KEYS: &[&str] = &["a", "b", "c", "aa", "B", "v1", "v2", "v10", "v09", "zeta", "mid", "x.y", "1.10", "1.9", "pb", "q", "é", "k8", "k16", "k99999999999999999999999"];
const PATK: &[&str] = &["p1", "p2", "p10", "pz", "p.q", "pa"];
const ADDK: &[&str] = &["n1", "n2", "n10", "o", "m.m", "r", "Z"];
const STRS: &[&str] = &["a", "b", "B", "c", "v1", "v2", "v10", "1.10.0", "1.2.0", "1.9", "zz", "foo", "bar", "x8", "x16", "x128", "v009", "v010", "Ab", "n99999999999999999999999", "n8"];

struct G<'a> {
    big: usize,
    r: &'a mut Rng,
    rep: &'a mut Rep,
}
impl G<'_> {
    fn ord(&mut self, schema: bool) -> O {
        let n = if schema { 4 } else { 3 };
        [O::Asc, O::Desc, O::Ver, O::Schema][self.r.below(n)]
    }
    fn scalar(&mut self) -> S {
        match self.r.below(8) {
            0 => S::Bool,
            1 => S::Float,
            2 | 3 => S::Int,
            4 => S::Date(self.r.below(4) as u8),
            _ => S::Str,
        }
    }
    fn wrap(&mut self, s: S) -> S {
        if self.r.chance(1, 4) {
            let kw = self.r.pick_str(&["$ref", "anyOf", "oneOf", "allOf"]);
            if kw == "anyOf" || kw == "oneOf" || kw == "allOf" {
                // (nested composites are documented as unsupported for arrays of them; one layer here)
                if matches!(s, S::StrInt(_)) {
                    return s;
                }
            }
            self.rep.count(&format!("wrap_{}", kw.trim_start_matches('$')));
            return S::Wrap(kw, Box::new(s));
        }
        s
    }
    fn schema(&mut self, d: usize) -> S {
        let s = match self.r.below(if d > 0 { 8 } else { 3 }) {
            0 | 1 => self.scalar(),
            2 => {
                if self.r.chance(1, 5) {
                    let kw = self.r.pick_str(&["oneOf", "anyOf"]);
                    S::Arr(Box::new(S::StrInt(kw)), AO::Groups(kw, self.ord(false), self.ord(false)))
                } else {
                    let i = self.scalar();
                    let i = self.wrap(i);
                    S::Arr(Box::new(i), if self.r.chance(3, 4) { AO::All(self.ord(false)) } else { AO::No })
                }
            }
            3 => {
                let mut t = self.table(d - 1);
                let by = self.r.pick_str(&["name", "a", "id"]).to_string();
                t.props.retain(|p| p.0 != by);
                t.props.push((by.clone(), if self.r.chance(1, 3) { S::Int } else { S::Str }));
                if self.r.chance(5, 6) {
                    t.by = Some(by);
                }
                let s = S::Tab(Box::new(t));
                let s = self.wrap(s);
                S::Arr(Box::new(s), if self.r.chance(3, 4) { AO::All(self.ord(false)) } else { AO::No })
            }
            _ => S::Tab(Box::new(self.table(d - 1))),
        };
        self.wrap(s)
    }
    fn table(&mut self, d: usize) -> T {
        let mut keys: Vec<&str> = KEYS.to_vec();
        self.r.shuffle(&mut keys);
        let n = self.r.range(1, 2 + 2 * self.big);
        let mut props: Vec<(String, S)> = keys[..n].iter().map(|k| (k.to_string(), self.schema(d))).collect();
        let pat = if self.r.chance(1, 4) { Some(Box::new(self.schema(d))) } else { None };
        if pat.is_some() {
            // both the property and the pattern would apply to them
            props.retain(|p| !p.0.starts_with('p'));
        }
        let add = if self.r.chance(1, 3) { Some(Box::new(self.schema(d))) } else { None };
        let order = match self.r.below(8) {
            0 => TO::No,
            1 | 2 => {
                let mut g = vec![(Grp::Props, self.ord(true)), (Grp::Pat, self.ord(false)), (Grp::Add, self.ord(false))];
                self.r.shuffle(&mut g);
                TO::Groups(g)
            }
            _ => TO::All(self.ord(true)),
        };
        match &order {
            TO::All(o) => self.rep.count(&format!("order_{}", o.name())),
            TO::Groups(_) => self.rep.count("order_groups"),
            TO::No => {}
        }
        T { props, pat, add, order, by: None }
    }
    fn inst(&mut self, s: &S) -> I {
        match s {
            S::Wrap(_, s) => self.inst(s),
            S::Str => I::Str(self.r.pick_str(STRS).to_string()),
            S::Int => I::Int(self.r.below(300) as i64 - 100),
            S::Bool => I::Bool(self.r.chance(1, 2)),
            S::Float => I::Float(self.r.below(50) as f64 / 4.0 + 0.25),
            S::StrInt(_) => {
                if self.r.chance(1, 2) {
                    self.inst(&S::Str)
                } else {
                    self.inst(&S::Int)
                }
            }
            S::Date(f) => {
                let d = format!("{}-{:02}-{:02}", self.r.range(1990, 2030), self.r.range(1, 12), self.r.range(1, 28));
                let t = format!("{:02}:{:02}:{:02}", self.r.below(24), self.r.below(60), self.r.below(60));
                let sep = self.r.pick_str(&["T", "T", " ", "t"]);
                I::Date(match f {
                    0 => d,
                    1 => t,
                    2 => format!("{d}{sep}{t}"),
                    _ => format!("{d}{sep}{t}Z"),
                })
            }
            S::Arr(i, _) => {
                let n = self.r.below(7);
                let mut v: Vec<I> = vec![];
                for _ in 0..n {
                    let x = self.inst(i);
                    if !v.iter().any(|y| canon_i(y) == canon_i(&x)) {
                        v.push(x);
                    }
                }
                I::Arr(v)
            }
            S::Tab(t) => {
                let mut o: Vec<(String, I)> = vec![];
                for (k, s) in &t.props {
                    if t.by.as_deref() == Some(k) || self.r.chance(3, 4) {
                        o.push((k.clone(), self.inst(s)));
                    }
                }
                for (s, keys, n) in [(&t.pat, PATK, 4), (&t.add, ADDK, 4)] {
                    if let Some(s) = s {
                        for k in keys {
                            if self.r.chance(n, 10) && !o.iter().any(|x| x.0 == *k) && (keys[0] == "p1" || t.class(k) == Grp::Add) {
                                o.push((k.to_string(), self.inst(s)));
                            }
                        }
                    }
                }
                self.r.shuffle(&mut o);
                I::Obj(o)
            }
        }
    }
}
fn canon_i(i: &I) -> String {
    match i {
        I::Date(s) => s.to_uppercase().replace(' ', "T"),
        I::Arr(a) => format!("{:?}", a.iter().map(canon_i).collect::<Vec<_>>()),
        I::Obj(o) => {
            let mut v: Vec<String> = o.iter().map(|(k, x)| format!("{k:?}={}", canon_i(x))).collect();
            v.sort();
            format!("{v:?}")
        }
        x => format!("{x:?}"),
    }
}

// ------------------------------------------------------------------------------------------------- writing documents
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dir {
    Order(O),
    Disabled,
}
struct Em<'a> {
    r: &'a mut Rng,
    rep: &'a mut Rep,
    n: u32,
    v11: bool,
    /// how often comments, blank lines and directives are put in: 0 never
    dens: usize,
    dirs: HashMap<String, Dir>,
    ndir: usize,
    ooo: bool,
}
fn pjoin(p: &str, k: &str) -> String {
    format!("{p}/{k:?}")
}
impl Em<'_> {
    fn odds(&mut self, n: usize) -> bool {
        self.dens > 0 && self.r.chance(self.dens, n)
    }
    fn mark(&mut self) -> String {
        self.n += 1;
        self.rep.count("comments");
        format!("# {} q{}q", self.r.pick_str(&["note", "todo:", "= 1", "[x]"]), self.n)
    }
    fn lead(&mut self, ind: &str, out: &mut String) {
        if self.odds(8) {
            for _ in 0..self.r.range(1, 2) {
                let c = self.mark();
                out.push_str(&format!("{ind}{c}\n"));
            }
        }
    }
    fn trail(&mut self) -> String {
        if self.odds(8) { format!(" {}", self.mark()) } else { String::new() }
    }
    /// between two items, or before the first
    fn gap(&mut self, ind: &str, first: bool, out: &mut String) {
        if self.odds(7) {
            self.rep.count("multi_groups");
            if !first {
                for _ in 0..self.r.range(1, 2) {
                    out.push('\n');
                }
            }
            while self.odds(8) {
                self.lead_block(ind, out);
                out.push('\n');
            }
        }
    }
    fn lead_block(&mut self, ind: &str, out: &mut String) {
        for _ in 0..self.r.range(1, 2) {
            let c = self.mark();
            out.push_str(&format!("{ind}{c}\n"));
        }
    }
    /// a directive for the container at `path`, or nothing
    fn directive(&mut self, path: &str, array: bool) -> Option<String> {
        if self.ndir == 0 || !self.r.chance(self.ndir, 10) {
            return None;
        }
        self.rep.count("directive");
        let kw = if array { "array-values-order" } else { "table-keys-order" };
        if self.r.chance(1, 4) {
            self.dirs.insert(path.into(), Dir::Disabled);
            return Some(format!("# tombi: format.rules.{kw}.disabled = true"));
        }
        let o = [O::Asc, O::Desc, O::Ver][self.r.below(3)];
        self.dirs.insert(path.into(), Dir::Order(o));
        Some(format!("# tombi: format.rules.{kw} = {:?}", o.name()))
    }
    fn value(&mut self, i: &I, path: &str, ind: &str, multi: bool) -> String {
        match i {
            I::Arr(a) if multi && !a.is_empty() && self.r.chance(1, 2) => {
                let inner = format!("{ind}  ");
                let mut s = String::from("[");
                if self.odds(12) {
                    s.push_str(&format!(" {}", self.mark()));
                }
                s.push('\n');
                if !self.dirs.contains_key(path)
                    && let Some(d) = self.directive(path, true)
                {
                    s.push_str(&format!("{inner}{d}\n\n"));
                }
                for (n, x) in a.iter().enumerate() {
                    self.gap(&inner, n == 0, &mut s);
                    self.lead(&inner, &mut s);
                    let v = self.value(x, &format!("{path}/#{n}"), &inner, true);
                    s.push_str(&format!("{inner}{v}"));
                    if n + 1 < a.len() || self.r.chance(1, 2) {
                        if self.odds(14) {
                            s.push_str(&format!(" {}\n{inner}", self.mark()));
                        }
                        s.push(',');
                    }
                    s.push_str(&self.trail());
                    s.push('\n');
                }
                if self.odds(10) {
                    if self.r.chance(1, 2) {
                        s.push('\n');
                    }
                    self.lead_block(&inner, &mut s);
                }
                s.push_str(ind);
                s.push(']');
                s
            }
            I::Arr(a) => {
                let v: Vec<String> = a.iter().enumerate().map(|(n, x)| self.value(x, &format!("{path}/#{n}"), ind, multi)).collect();
                format!("[{}{}]", v.join(", "), if !v.is_empty() && self.r.chance(1, 6) { "," } else { "" })
            }
            I::Obj(o) if o.is_empty() => "{}".into(),
            I::Obj(o) if multi && self.v11 && self.r.chance(1, 2) => {
                let inner = format!("{ind}  ");
                let mut s = String::from("{");
                if self.odds(12) {
                    s.push_str(&format!(" {}", self.mark()));
                }
                s.push('\n');
                if !self.dirs.contains_key(path)
                    && let Some(d) = self.directive(path, false)
                {
                    s.push_str(&format!("{inner}{d}\n\n"));
                }
                let kvs = self.flat(o, path);
                let len = kvs.len();
                for (n, (k, x, p)) in kvs.into_iter().enumerate() {
                    self.gap(&inner, n == 0, &mut s);
                    self.lead(&inner, &mut s);
                    let v = self.value(&x, &p, &inner, true);
                    s.push_str(&format!("{inner}{k} = {v}"));
                    if n + 1 < len || self.r.chance(1, 2) {
                        if self.odds(14) {
                            s.push_str(&format!(" {}\n{inner}", self.mark()));
                        }
                        s.push(',');
                    }
                    s.push_str(&self.trail());
                    s.push('\n');
                }
                if self.odds(10) {
                    self.lead_block(&inner, &mut s);
                }
                s.push_str(ind);
                s.push('}');
                s
            }
            I::Obj(o) => {
                let kvs = self.flat(o, path);
                let v: Vec<String> = kvs.into_iter().map(|(k, x, p)| format!("{k} = {}", self.value(&x, &p, ind, multi))).collect();
                format!("{{ {} }}", v.join(", "))
            }
            _ => tomlw::scalar(i, self.r),
        }
    }
    /// keys of an inline table, some of them dotted
    fn flat(&mut self, o: &[(String, I)], path: &str) -> Vec<(String, I, String)> {
        let mut v = vec![];
        let in_array = path.rsplit('/').next().is_some_and(|x| x.starts_with('#'));
        for (k, x) in o {
            let p = pjoin(path, k);
            match x {
                I::Obj(y) if !y.is_empty() && !in_array && self.r.chance(1, 5) => self.dotted(&tomlw::key(k), y, &p, &mut v),
                _ => v.push((tomlw::key(k), x.clone(), p)),
            }
        }
        v
    }
    fn dotted(&mut self, prefix: &str, o: &[(String, I)], path: &str, v: &mut Vec<(String, I, String)>) {
        self.rep.count("dotted");
        for (k, x) in o {
            let p = pjoin(path, k);
            let kk = format!("{prefix}.{}", tomlw::key(k));
            match x {
                I::Obj(y) if !y.is_empty() && self.r.chance(1, 2) => self.dotted(&kk, y, &p, v),
                _ => v.push((kk, x.clone(), p)),
            }
        }
    }
    fn kvs(&mut self, kvs: Vec<(String, I, String)>, out: &mut String) {
        for (n, (k, x, p)) in kvs.into_iter().enumerate() {
            self.gap("", n == 0, out);
            self.lead("", out);
            if matches!(x, I::Arr(_) | I::Obj(_))
                && let Some(d) = self.directive(&p, matches!(x, I::Arr(_)))
            {
                out.push_str(&format!("{d}\n"));
            }
            let v = self.value(&x, &p, "", true);
            let t = self.trail();
            out.push_str(&format!("{k} = {v}{t}\n"));
        }
    }
    /// `hdr`: the header's keys as written; sections are (contains an array of tables, text)
    fn table(&mut self, hdr: &[String], o: &[(String, I)], path: &str, out: &mut String) {
        let mut kvs = vec![];
        let mut later: Vec<(&String, &I)> = vec![];
        for (k, v) in o {
            let p = pjoin(path, k);
            match v {
                I::Obj(x) => match self.r.below(4) {
                    0 => kvs.push((tomlw::key(k), v.clone(), p)),
                    1 if !x.is_empty() => self.dotted(&tomlw::key(k), x, &p, &mut kvs),
                    _ => later.push((k, v)),
                },
                I::Arr(a) if !a.is_empty() && a.iter().all(|x| matches!(x, I::Obj(_))) && self.r.chance(1, 2) => later.push((k, v)),
                _ => kvs.push((tomlw::key(k), v.clone(), p)),
            }
        }
        if self.ooo {
            self.r.shuffle(&mut kvs);
        }
        self.kvs(kvs, out);
        let mut chunks: Vec<Vec<(bool, String)>> = vec![];
        for (k, v) in later {
            let mut h = hdr.to_vec();
            h.push(tomlw::key(k));
            let p = pjoin(path, k);
            let mut mine = vec![];
            match v {
                I::Obj(x) => {
                    let mut body = String::new();
                    self.header(&format!("[{}]", h.join(".")), &p, &mut body);
                    let mut t = String::new();
                    self.table(&h, x, &p, &mut t);
                    mine.push((true, format!("{body}{t}")));
                }
                I::Arr(a) => {
                    for (n, x) in a.iter().enumerate() {
                        let I::Obj(x) = x else { unreachable!() };
                        let p = format!("{p}/#{n}");
                        let mut body = String::new();
                        self.header(&format!("[[{}]]", h.join(".")), &p, &mut body);
                        self.table(&h, x, &p, &mut body);
                        mine.push((false, body));
                    }
                }
                _ => unreachable!(),
            }
            chunks.push(mine);
        }
        self.r.shuffle(&mut chunks);
        for (_, t) in chunks.into_iter().flatten() {
            for _ in 0..self.r.range(if out.is_empty() { 0 } else { 1 }, 2) {
                out.push('\n');
            }
            while self.odds(12) {
                self.lead_block("", out);
                out.push('\n');
            }
            out.push_str(&t);
        }
    }
    fn header(&mut self, h: &str, path: &str, out: &mut String) {
        self.lead("", out);
        let d = self.directive(path, false);
        let inside = self.r.chance(1, 2);
        if let (Some(d), false) = (&d, inside) {
            out.push_str(&format!("{d}\n"));
        }
        let t = self.trail();
        out.push_str(&format!("{h}{t}\n"));
        if let (Some(d), true) = (&d, inside) {
            out.push_str(&format!("{d}\n\n"));
        }
    }
}

// ------------------------------------------------------------------------------------------------- reading documents
#[derive(Debug)]
enum Node {
    Sc(V),
    Arr(Cont),
    Inl(Cont),
}
#[derive(Debug)]
struct Item {
    keys: Vec<String>,
    val: Node,
    group: usize,
}
#[derive(Clone, Copy, Debug)]
enum Place {
    Item(usize),
    Loose(usize),
    Open,
}
#[derive(Debug, Default)]
struct Cont {
    items: Vec<Item>,
    comments: Vec<(u32, Place)>,
}
impl Cont {
    fn groups(&self) -> Vec<Vec<&Item>> {
        let mut v: Vec<Vec<&Item>> = vec![];
        for i in &self.items {
            if v.len() <= i.group {
                v.push(vec![]);
            }
            v[i.group].push(i);
        }
        v
    }
}
#[derive(Debug)]
struct Sec {
    /// keys and indices ("#0")
    path: Vec<String>,
    comments: Vec<u32>,
    body: Cont,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Table,
    Arr,
    Inl,
}
struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
fn end_line(t: &Tok) -> usize {
    t.line + t.text.matches('\n').count()
}
impl P<'_> {
    fn cont(&mut self, kind: Kind, open_line: Option<usize>) -> Option<(Cont, Vec<u32>)> {
        let mut c = Cont::default();
        let mut last = open_line;
        let mut pending: Vec<u32> = vec![];
        let mut gap = false;
        let mut group = 0;
        loop {
            while self.t.get(self.i).is_some_and(|t| t.k == K::Nl) {
                self.i += 1;
            }
            let cur = if c.items.is_empty() { 0 } else { group + 1 };
            let tok = self.t.get(self.i);
            let blank = tok.is_some_and(|t| last.is_some_and(|l| t.line >= l + 2));
            let end = match tok {
                None => true,
                Some(t) => match kind {
                    Kind::Table => t.k == K::Punct && t.text == "[",
                    Kind::Arr => t.k == K::Punct && t.text == "]",
                    Kind::Inl => t.k == K::Punct && t.text == "}",
                },
            };
            if end {
                let lead = kind == Kind::Table && tok.is_some() && !blank;
                if !lead {
                    c.comments.extend(pending.drain(..).map(|m| (m, Place::Loose(cur))));
                }
                return Some((c, pending));
            }
            let t = tok.unwrap();
            if t.k == K::Comment {
                let m = marker(&t.text, 'q');
                if last == Some(t.line) && pending.is_empty() {
                    if let Some(m) = m {
                        c.comments.push((m, if c.items.is_empty() { Place::Open } else { Place::Item(c.items.len() - 1) }));
                    }
                } else {
                    if blank {
                        c.comments.extend(pending.drain(..).map(|m| (m, Place::Loose(cur))));
                        gap = true;
                    }
                    if let Some(m) = m {
                        pending.push(m);
                    }
                }
                last = Some(t.line);
                self.i += 1;
                continue;
            }
            if t.text == "," && t.k == K::Punct {
                let n = c.items.len().checked_sub(1)?;
                c.comments.extend(pending.drain(..).map(|m| (m, Place::Item(n))));
                last = Some(t.line);
                self.i += 1;
                continue;
            }
            if blank {
                c.comments.extend(pending.drain(..).map(|m| (m, Place::Loose(cur))));
                gap = true;
            }
            if gap && !c.items.is_empty() {
                group += 1;
            }
            gap = false;
            let n = c.items.len();
            c.comments.extend(pending.drain(..).map(|m| (m, Place::Item(n))));
            let mut keys = vec![];
            if kind != Kind::Arr {
                while self.t.get(self.i)?.text != "=" {
                    keys.extend(decode_key(&self.t[self.i])?);
                    self.i += 1;
                }
                self.i += 1;
            }
            let val = self.value()?;
            c.items.push(Item { keys, val, group });
            last = Some(end_line(&self.t[self.i - 1]));
        }
    }
    fn value(&mut self) -> Option<Node> {
        let t = self.t.get(self.i)?;
        if t.k == K::Punct && (t.text == "[" || t.text == "{") {
            let arr = t.text == "[";
            self.i += 1;
            let (c, _) = self.cont(if arr { Kind::Arr } else { Kind::Inl }, Some(t.line))?;
            self.t.get(self.i)?;
            self.i += 1;
            return Some(if arr { Node::Arr(c) } else { Node::Inl(c) });
        }
        let mut text = t.text.clone();
        self.i += 1;
        if t.k == K::Word && t.text.len() == 10 && t.text.as_bytes()[4] == b'-' {
            if let Some(u) = self.t.get(self.i) {
                if u.k == K::Word && u.start == t.start + 11 && u.text.as_bytes().get(2) == Some(&b':') {
                    text.push(' ');
                    text.push_str(&u.text);
                    self.i += 1;
                }
            }
        }
        Some(Node::Sc(crate::val::ref11(&format!("x={text}")).ok()?.get("x")?.clone()))
    }
}
fn read(src: &str) -> Option<Vec<Sec>> {
    let toks = scan(src);
    let mut p = P { t: &toks, i: 0 };
    let (body, mut lead) = p.cont(Kind::Table, None)?;
    let mut v = vec![Sec { path: vec![], comments: vec![], body }];
    let mut idx: HashMap<Vec<String>, usize> = HashMap::new();
    while p.i < toks.len() {
        let aot = toks.get(p.i + 1)?.text == "[";
        p.i += if aot { 2 } else { 1 };
        let mut keys = vec![];
        while toks.get(p.i)?.text != "]" {
            keys.extend(decode_key(&toks[p.i])?);
            p.i += 1;
        }
        p.i += if aot { 2 } else { 1 };
        let line = toks.get(p.i - 1)?.line;
        let mut path: Vec<String> = vec![];
        let n = keys.len();
        for (j, k) in keys.into_iter().enumerate() {
            path.push(k);
            if aot && j + 1 == n {
                let e = idx.entry(path.clone()).or_default();
                path.push(format!("#{e}"));
                *e += 1;
            } else if let Some(e) = idx.get(&path) {
                let e = e - 1;
                path.push(format!("#{e}"));
            }
        }
        let mut comments = std::mem::take(&mut lead);
        while toks.get(p.i).is_some_and(|t| t.k == K::Comment && t.line == line) {
            comments.extend(marker(&toks[p.i].text, 'q'));
            p.i += 1;
        }
        let (body, l) = p.cont(Kind::Table, Some(line))?;
        lead = l;
        v.push(Sec { path, comments, body });
    }
    Some(v)
}
/// the value with arrays read as bags
fn bag(n: &Node) -> String {
    match n {
        Node::Sc(v) => v.canon(false),
        Node::Arr(c) => {
            let mut v: Vec<String> = c.items.iter().map(|i| bag(&i.val)).collect();
            v.sort();
            format!("[{}]", v.join(","))
        }
        Node::Inl(c) => {
            let mut v: Vec<String> = c.items.iter().map(|i| format!("{:?}={}", i.keys, bag(&i.val))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
    }
}
fn owners(secs: &[Sec]) -> Option<BTreeMap<u32, String>> {
    fn cont(c: &Cont, at: &str, out: &mut Vec<(u32, String)>) {
        let names: Vec<String> = c.items.iter().map(|i| if i.keys.is_empty() { bag(&i.val) } else { format!("{:?}", i.keys) }).collect();
        for (m, p) in &c.comments {
            out.push((
                *m,
                match p {
                    Place::Item(n) => format!("of {at} {}", names[*n]),
                    Place::Loose(g) => format!("loose in {at} after group {g}"),
                    Place::Open => format!("at the start of {at}"),
                },
            ));
        }
        for (i, n) in c.items.iter().zip(&names) {
            match &i.val {
                Node::Arr(c) | Node::Inl(c) => cont(c, &format!("{at} {n}"), out),
                _ => {}
            }
        }
    }
    let mut v = vec![];
    for s in secs {
        let at = format!("{:?}", s.path);
        v.extend(s.comments.iter().map(|m| (*m, format!("header {at}"))));
        cont(&s.body, &at, &mut v);
    }
    let mut o = BTreeMap::new();
    for (m, s) in v {
        if o.insert(m, s).is_some() {
            return None;
        }
    }
    Some(o)
}

// ------------------------------------------------------------------------------------------------- orders
/// the Rust style guide's version sort, for texts of letters, digits and dots
fn vsort(a: &str, b: &str) -> Ordering {
    fn chunks(s: &str) -> Vec<&str> {
        let mut v = vec![];
        let b = s.as_bytes();
        let mut st = 0;
        for i in 1..=b.len() {
            if i == b.len() || b[i].is_ascii_digit() != b[i - 1].is_ascii_digit() {
                v.push(&s[st..i]);
                st = i;
            }
        }
        v
    }
    let (x, y) = (chunks(a), chunks(b));
    let mut zeros = Ordering::Equal;
    for (p, q) in x.iter().zip(&y) {
        let num = |s: &str| s.as_bytes()[0].is_ascii_digit();
        if num(p) && num(q) {
            let (u, w) = (p.trim_start_matches('0'), q.trim_start_matches('0'));
            match u.len().cmp(&w.len()).then(u.cmp(w)) {
                Ordering::Equal => {
                    if zeros == Ordering::Equal {
                        zeros = (q.len() - w.len()).cmp(&(p.len() - u.len()));
                    }
                }
                o => return o,
            }
        } else {
            match p.cmp(q) {
                Ordering::Equal => {}
                o => return o,
            }
        }
    }
    x.len().cmp(&y.len()).then(zeros)
}
fn cmp_key(o: O, a: &str, b: &str, t: Option<&T>) -> Ordering {
    match o {
        O::Asc => a.cmp(b),
        O::Desc => b.cmp(a),
        O::Ver => vsort(a, b),
        O::Schema => {
            let n = |k: &str| t.and_then(|t| t.props.iter().position(|p| p.0 == k)).unwrap_or(usize::MAX);
            n(a).cmp(&n(b))
        }
    }
}
fn sorted<X>(v: &[X], f: impl Fn(&X, &X) -> Ordering) -> bool {
    v.windows(2).all(|w| f(&w[0], &w[1]) != Ordering::Greater)
}
/// a comparable form of a scalar
#[derive(Clone, Debug, PartialEq, PartialOrd)]
enum Key {
    B(bool),
    N(i64),
    S(String),
    D(String),
}
fn key_of(v: &V) -> Option<(u8, Key)> {
    match v {
        V::Bool(b) => Some((0, Key::B(*b))),
        V::Int(n) => Some((1, Key::N(*n))),
        V::Str(s) => Some((2, Key::S(s.clone()))),
        V::Dt(s) => Some((if s.contains('Z') { 3 } else if s.contains('T') { 4 } else if s.contains('-') { 5 } else { 6 }, Key::D(s.clone()))),
        _ => None,
    }
}
fn cmp_val(o: O, a: &Key, b: &Key) -> Ordering {
    match (o, a, b) {
        (O::Ver, Key::S(a), Key::S(b)) => vsort(a, b),
        (O::Desc, ..) => b.partial_cmp(a).unwrap_or(Ordering::Equal),
        _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
    }
}

struct Ck<'a> {
    dirs: &'a HashMap<String, Dir>,
    counts: BTreeMap<&'static str, u64>,
    moved: bool,
    bad: Vec<(String, String)>,
}
fn firsts(l: &[&[String]]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in l {
        if let Some(k) = x.first() {
            if !v.contains(k) {
                v.push(k.clone());
            }
        }
    }
    v
}
impl Ck<'_> {
    fn fail(&mut self, sig: &str, msg: String) {
        self.bad.push((sig.into(), msg));
    }
    /// order of items by their key paths below a table of schema `s`; `dir`: a directive for this very table
    fn keys(&mut self, sin: &[&[String]], out: &[&[String]], s: Option<&S>, dir: Option<Dir>, at: &str, headers: bool) {
        if sin != out {
            self.moved = true;
        }
        if dir == Some(Dir::Disabled) {
            if sin != out && !headers {
                self.fail("disabled-sorted", format!("{at}: sorting is disabled, but {sin:?} became {out:?}"));
            }
            return;
        }
        let t = s.and_then(|s| s.tab());
        let f = firsts(out);
        let f0 = firsts(sin);
        // a table comes before what is below it
        if let Some(n) = out.iter().position(|x| x.is_empty()) {
            if n != 0 && s.is_some() && headers {
                self.fail("table-after-its-children", format!("{at}: {out:?}"));
            }
        }
        let order = match (dir, t.map(|t| &t.order)) {
            (Some(Dir::Order(o)), _) => TO::All(o),
            (_, Some(o)) => o.clone(),
            _ => TO::No,
        };
        let mut runs = vec![];
        for x in out.iter().filter(|x| !x.is_empty()) {
            if runs.last() != Some(&&x[0]) {
                runs.push(&x[0]);
            }
        }
        match &order {
            TO::No => {
                if f != f0 {
                    self.fail("sorted-unasked", format!("{at}: no order asked for, but {f0:?} became {f:?}"));
                }
            }
            TO::All(o) => {
                if runs.len() != f.len() {
                    self.fail("same-key-apart", format!("{at}: {out:?}"));
                }
                if !sorted(&f, |a, b| cmp_key(*o, a, b, t)) {
                    self.fail(&format!("order-{}", o.name()), format!("{at}: {f:?} is not in {} order", o.name()));
                } else if *o == O::Schema {
                    // the rest keeps its order
                    let rest = |v: &[String]| v.iter().filter(|k| t.is_some_and(|t| t.class(k) != Grp::Props)).cloned().collect::<Vec<_>>();
                    if rest(&f) != rest(&f0) {
                        self.fail("order-schema-rest", format!("{at}: {f0:?} became {f:?}"));
                    }
                }
            }
            TO::Groups(g) => {
                if runs.len() != f.len() {
                    self.fail("same-key-apart", format!("{at}: {out:?}"));
                }
                let t = t.unwrap();
                let rank = |k: &String| g.iter().position(|x| x.0 == t.class(k)).unwrap();
                if !sorted(&f, |a, b| rank(a).cmp(&rank(b)).then_with(|| cmp_key(g[rank(a)].1, a, b, Some(t)))) {
                    self.fail("order-groups", format!("{at}: {f:?} is not in the order of the groups {g:?}"));
                }
            }
        }
        if f.len() > 1 && headers && !matches!(order, TO::No) {
            *self.counts.entry("headers_sorted").or_default() += 1;
        }
        if dir.is_some() {
            return; // whether a directive reaches further down is not documented
        }
        for k in &f {
            let sub = |l: &[&[String]]| -> Vec<Vec<String>> { l.iter().filter(|x| x.first() == Some(k)).map(|x| x[1..].to_vec()).collect() };
            let (a, b) = (sub(sin), sub(out));
            if b.iter().all(|x| x.is_empty()) {
                continue;
            }
            let mut c = s.and_then(|s| s.child(k));
            let p = if k.starts_with('#') { format!("{at}/{k}") } else { pjoin(at, k) };
            if k.starts_with('#') {
                c = match s.map(|s| s.peel()) {
                    Some(S::Arr(i, _)) => Some(i),
                    _ => None,
                };
            }
            if headers && self.dirs.contains_key(&p) {
                continue;
            }
            if (k.contains(['.', 'é'])) && c.is_some() {
                *self.counts.entry("quoted_parent").or_default() += 1;
            }
            let (a, b): (Vec<&[String]>, Vec<&[String]>) = (a.iter().map(|x| &x[..]).collect(), b.iter().map(|x| &x[..]).collect());
            self.keys(&a, &b, c, None, &p, headers);
        }
    }
    fn same_bags(&mut self, a: &Cont, b: &Cont, at: &str) -> bool {
        let g = |c: &Cont| -> Vec<Vec<String>> {
            c.groups()
                .iter()
                .map(|v| {
                    let mut x: Vec<String> = v.iter().map(|i| format!("{:?}={}", i.keys, bag(&i.val))).collect();
                    x.sort();
                    x
                })
                .collect()
        };
        let (x, y) = (g(a), g(b));
        if x != y {
            self.fail("groups-mixed", format!("{at}: the groups {x:?} became {y:?}"));
            return false;
        }
        true
    }
    fn table(&mut self, a: &Cont, b: &Cont, s: Option<&S>, at: &str) {
        if !self.same_bags(a, b, at) {
            return;
        }
        let dir = self.dirs.get(at).copied();
        for (x, y) in a.groups().iter().zip(b.groups()) {
            let k = |v: &[&Item]| -> Vec<Vec<String>> { v.iter().map(|i| i.keys.clone()).collect() };
            let (kx, ky) = (k(x), k(&y));
            let (kx, ky): (Vec<&[String]>, Vec<&[String]>) = (kx.iter().map(|x| &x[..]).collect(), ky.iter().map(|x| &x[..]).collect());
            self.keys(&kx, &ky, s, dir, at, false);
            for i in &y {
                let j = x.iter().find(|j| j.keys == i.keys).unwrap();
                let mut c = s;
                let mut p = at.to_string();
                for k in &i.keys {
                    c = c.and_then(|c| c.child(k));
                    p = pjoin(&p, k);
                }
                self.value(&j.val, &i.val, c, &p);
            }
        }
    }
    fn value(&mut self, a: &Node, b: &Node, s: Option<&S>, at: &str) {
        match (a, b) {
            (Node::Inl(a), Node::Inl(b)) => self.table(a, b, s, at),
            (Node::Arr(a), Node::Arr(b)) => {
                if !self.same_bags(a, b, at) {
                    return;
                }
                let (item, ord) = match s.map(|s| s.peel()) {
                    Some(S::Arr(i, o)) => (Some(&**i), o.clone()),
                    _ => (None, AO::No),
                };
                let dir = self.dirs.get(at).copied();
                let ord = match dir {
                    Some(Dir::Disabled) => AO::No,
                    Some(Dir::Order(o)) => AO::All(o),
                    None => ord,
                };
                let mut base = 0;
                for (x, y) in a.groups().iter().zip(b.groups()) {
                    let bags = |v: &[&Item]| -> Vec<String> { v.iter().map(|i| bag(&i.val)).collect() };
                    let (bx, by) = (bags(x), bags(&y));
                    if bx != by {
                        self.moved = true;
                    }
                    let by_key = item.and_then(|i| i.tab()).and_then(|t| t.by.clone());
                    let keys: Option<Vec<(u8, Key)>> = y
                        .iter()
                        .map(|i| match &i.val {
                            Node::Sc(v) => key_of(v),
                            Node::Inl(c) => {
                                let k = by_key.as_ref()?;
                                let it = c.items.iter().find(|i| i.keys.len() == 1 && &i.keys[0] == k)?;
                                match &it.val {
                                    Node::Sc(v) => key_of(v),
                                    _ => None,
                                }
                            }
                            _ => None,
                        })
                        .collect();
                    let keys = keys.unwrap_or_default();
                    let uniform = keys.windows(2).all(|w| w[0].0 == w[1].0) && !keys.is_empty();
                    match ord {
                        AO::All(o) if uniform => {
                            *self.counts.entry("array_sorted").or_default() += 1;
                            if by_key.is_some() {
                                *self.counts.entry("array_by").or_default() += 1;
                            }
                            if !sorted(&keys, |a, b| cmp_val(o, &a.1, &b.1)) {
                                let kind = if by_key.is_some() { "by" } else { "values" };
                                self.fail(&format!("array-{kind}-{}", o.name()), format!("{at}: {by:?} is not in {} order", o.name()));
                            }
                        }
                        AO::Groups(_, p, q) if !keys.is_empty() => {
                            *self.counts.entry("array_groups").or_default() += 1;
                            let r = |k: &(u8, Key)| if k.0 == 2 { 0 } else { 1 };
                            if !sorted(&keys, |a, b| r(a).cmp(&r(b)).then_with(|| cmp_val(if r(a) == 0 { p } else { q }, &a.1, &b.1))) {
                                self.fail("array-groups", format!("{at}: {by:?} is not in the order of the groups"));
                            }
                        }
                        _ => {
                            if bx != by {
                                self.fail("array-sorted-unasked", format!("{at}: {bx:?} became {by:?}"));
                            }
                        }
                    }
                    for (n, i) in y.iter().enumerate() {
                        let Some(m) = x.iter().position(|j| bag(&j.val) == by[n]) else { continue };
                        self.value(&x[m].val, &i.val, item, &format!("{at}/#{}", base + m));
                    }
                    base += x.len();
                }
            }
            _ => {}
        }
    }
}

fn subschema<'a>(s: &'a S, path: &[String]) -> Option<&'a S> {
    let mut c = s;
    for k in path {
        c = if k.starts_with('#') {
            match c.peel() {
                S::Arr(i, _) => i,
                _ => return None,
            }
        } else {
            c.child(k)?
        };
    }
    Some(c)
}

impl Check for Sort {
    fn case(&mut self, _idx: u64, r: &mut Rng, rep: &mut Rep) {
        self.n += 1;
        let _ = std::fs::create_dir_all(&self.dir);
        let with_schema = r.chance(7, 8);
        let big = r.below(3);
        let root = S::Tab(Box::new(G { r, rep, big }.table(big)));
        let data = G { r, rep, big }.inst(&root);
        let I::Obj(o) = &data else { unreachable!() };
        let mut defs = Map::new();
        let mut j = root.json(&mut defs);
        j["$schema"] = json!("http://json-schema.org/draft-07/schema#");
        j["definitions"] = J::Object(defs);
        std::fs::write(self.dir.join("s.json"), j.to_string()).unwrap();
        let v11 = r.chance(1, 2);
        let dens = *r.pick(&[0, 1, 1, 2]);
        let ndir = if with_schema { *r.pick(&[0, 0, 0, 3]) } else { 5 };
        let ooo = r.chance(1, 4);
        let mut em = Em { r, rep, n: 0, v11, dens, dirs: HashMap::new(), ndir, ooo };
        let mut doc = String::new();
        if with_schema {
            doc.push_str("#:schema ./s.json\n");
        }
        if let Some(d) = em.directive("", false) {
            if with_schema && em.r.chance(1, 2) {
                doc.push('\n');
            }
            doc.push_str(&d);
            doc.push('\n');
        }
        if !doc.is_empty() {
            doc.push('\n');
        }
        em.table(&[], o, "", &mut doc);
        let dirs = std::mem::take(&mut em.dirs);
        let rules = if r.chance(1, 2) { opts::random_rules(r) } else { Map::new() };
        let fo = opts::options(&rules);
        let ver = opts::toml_version(v11);
        let path = self.dir.join("d.toml");
        let input = json!({"schema": j, "doc": doc, "v11": v11, "rules": rules, "doc_lines": doc.lines().collect::<Vec<_>>()});
        // the document must be what was meant
        let Ok(before) = crate::val::reference(&doc, v11) else {
            rep.count("skipped_invalid");
            return;
        };
        let Some(sin) = read(&doc) else {
            rep.count("skipped_unread");
            return;
        };
        let Some(own_in) = owners(&sin) else {
            rep.count("skipped_owner");
            return;
        };
        let got = guard(|| self.env.format_at(&doc, ver, &fo, Some(&path)));
        let out = match got {
            Err(p) => return rep.viol(panic_sig(&p), format!("formatting panics: {p}"), input),
            Ok(Err(ds)) => return rep.viol("refused", format!("valid document refused: {ds:?}"), input),
            Ok(Ok(t)) => t,
        };
        let with = |x: &str| {
            let mut i = input.clone();
            i["out"] = json!(x.lines().collect::<Vec<_>>());
            i
        };
        match crate::val::reference(&out, v11) {
            Err(e) => return rep.viol("invalid-output", format!("the result is not valid TOML: {e}"), with(&out)),
            Ok(after) => {
                if bag_v(&before.lf()) != bag_v(&after.lf()) {
                    return rep.viol("data", "the data changed by more than order", with(&out));
                }
                if aots(&sin).is_some() {
                    rep.count("documents");
                }
            }
        }
        let Some(sout) = read(&out) else {
            return rep.viol("unreadable", "the result cannot be read", with(&out));
        };
        let own_out = owners(&sout).unwrap_or_default();
        let s = if with_schema { Some(&root) } else { None };
        let mut ck = Ck { dirs: &dirs, counts: BTreeMap::new(), moved: false, bad: vec![] };
        // headers
        let hd = |v: &[Sec]| -> Vec<Vec<String>> { v.iter().skip(1).map(|s| s.path.clone()).collect() };
        let (hi, ho) = (hd(&sin), hd(&sout));
        let (hi2, ho2): (Vec<&[String]>, Vec<&[String]>) = (hi.iter().map(|x| &x[..]).collect(), ho.iter().map(|x| &x[..]).collect());
        ck.keys(&hi2, &ho2, s, dirs.get("").copied(), "", true);
        for b in &sout {
            let Some(a) = sin.iter().find(|a| a.path == b.path) else {
                ck.fail("sections", format!("{:?} is new", b.path));
                continue;
            };
            let at = b.path.iter().fold(String::new(), |p, k| if k.starts_with('#') { format!("{p}/{k}") } else { pjoin(&p, k) });
            ck.table(&a.body, &b.body, s.and_then(|s| subschema(s, &b.path)), &at);
        }
        for (k, n) in &ck.counts {
            rep.add(k, *n);
        }
        if ck.moved {
            rep.count("moved");
        }
        rep.eval(&format!("{j}|{doc}"), ck.moved);
        if self.n % 400 == 1 {
            rep.sample(&format!("{j}\n{doc}"));
        }
        let bad = std::mem::take(&mut ck.bad);
        if let Some((sig, msg)) = bad.first() {
            rep.viol(sig.clone(), msg.clone(), with(&out));
        }
        if own_in != own_out {
            let d: Vec<String> = own_in
                .iter()
                .filter(|(m, o)| own_out.get(m) != Some(o))
                .map(|(m, o)| format!("q{m}q: {o} -> {}", own_out.get(m).map(|s| s.as_str()).unwrap_or("gone")))
                .take(3)
                .collect();
            let sig = if d.iter().any(|x| x.ends_with("gone")) { "comment-lost" } else { "comment-moved" };
            if bad.is_empty() || sig == "comment-lost" {
                rep.viol(sig, d.join("; "), with(&out));
            }
        }
        match guard(|| self.env.format_at(&out, ver, &fo, Some(&path))) {
            Err(p) => rep.viol(panic_sig(&p), format!("formatting the result panics: {p}"), with(&out)),
            Ok(Err(ds)) => rep.viol("result-refused", format!("{ds:?}"), with(&out)),
            Ok(Ok(again)) => {
                if again != out {
                    let d = out.lines().zip(again.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} -> {b:?}")).unwrap_or_default();
                    rep.viol("not-idempotent", format!("formatting the result changes it: {d}"), with(&format!("{out}\n-----\n{again}")));
                }
            }
        }
    }
}
fn aots(s: &[Sec]) -> Option<usize> {
    s.iter().position(|s| !s.path.is_empty())
}
/// data with arrays as bags (their order is judged apart)
fn bag_v(v: &V) -> String {
    match v {
        V::Arr(a) => {
            let mut x: Vec<String> = a.iter().map(bag_v).collect();
            x.sort();
            format!("[{}]", x.join(","))
        }
        V::Tab(t) => {
            let mut x: Vec<String> = t.iter().map(|(k, v)| format!("{k:?}:{}", bag_v(v))).collect();
            x.sort();
            format!("{{{}}}", x.join(","))
        }
        x => x.canon(false),
    }
}
