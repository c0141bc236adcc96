//! An independent evaluator of JSON Schema (draft-07, 2019-09, 2020-12) over TOML data.
use serde_json::{Map, Value as J};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum I {
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    /// a TOML date or time, as written
    Date(String),
    Arr(Vec<I>),
    Obj(Vec<(String, I)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Draft {
    D7,
    D19,
    D20,
}

impl Draft {
    pub fn uri(self) -> &'static str {
        match self {
            Draft::D7 => "http://json-schema.org/draft-07/schema#",
            Draft::D19 => "https://json-schema.org/draft/2019-09/schema",
            Draft::D20 => "https://json-schema.org/draft/2020-12/schema",
        }
    }
}

impl I {
    pub fn json(&self) -> J {
        match self {
            I::Bool(b) => J::Bool(*b),
            I::Int(n) => J::from(*n),
            I::Float(f) => J::from(*f),
            I::Str(s) | I::Date(s) => J::String(s.clone()),
            I::Arr(a) => J::Array(a.iter().map(|x| x.json()).collect()),
            I::Obj(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            I::Bool(_) => "boolean",
            I::Int(_) => "integer",
            I::Float(_) => "number",
            I::Str(_) | I::Date(_) => "string",
            I::Arr(_) => "array",
            I::Obj(_) => "object",
        }
    }
    pub fn get(&self, k: &str) -> Option<&I> {
        match self {
            I::Obj(o) => o.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn num(&self) -> Option<f64> {
        match self {
            I::Int(n) => Some(*n as f64),
            I::Float(f) => Some(*f),
            _ => None,
        }
    }
}

/// deep equality with 1 == 1.0 and objects unordered
pub fn jeq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(x), Some(y)) => x == y,
            _ => x.as_f64() == y.as_f64(),
        },
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| jeq(p, q)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| jeq(v, w))),
        _ => a == b,
    }
}

/// the regular expressions the generator uses, each with its meaning written out
pub const PATTERNS: &[(&str, fn(&str) -> bool)] = &[
    ("^a", |s| s.starts_with('a')),
    ("b$", |s| s.ends_with('b')),
    ("^[a-c]+$", |s| !s.is_empty() && s.chars().all(|c| ('a'..='c').contains(&c))),
    ("^x-", |s| s.starts_with("x-")),
    ("[0-9]", |s| s.chars().any(|c| c.is_ascii_digit())),
    ("^.{3}$", |s| s.chars().count() == 3 && !s.contains('\n')),
    ("^$", |s| s.is_empty()),
    ("a|é", |s| s.contains('a') || s.contains('é')),
    ("^(foo|bar)$", |s| s == "foo" || s == "bar"),
    (".", |s| s.chars().any(|c| c != '\n')),
    ("\\.", |s| s.contains('.')),
];

pub fn pattern(p: &str, s: &str) -> bool {
    PATTERNS.iter().find(|x| x.0 == p).map(|x| (x.1)(s)).unwrap_or_else(|| panic!("pattern {p}"))
}

#[derive(Default, Clone, Debug)]
pub struct Ann {
    props: BTreeSet<String>,
    items: BTreeSet<usize>,
}

impl Ann {
    fn merge(&mut self, o: Ann) {
        self.props.extend(o.props);
        self.items.extend(o.items);
    }
}

pub struct Eval<'a> {
    pub root: &'a J,
    pub draft: Draft,
    /// places (pointer into the data, keyword) where an assertion failed; reliable only without applicators that try alternatives
    pub errs: Vec<(String, String)>,
    pub strict: bool,
    depth: usize,
}

impl<'a> Eval<'a> {
    pub fn new(root: &'a J, draft: Draft) -> Self {
        Eval { root, draft, errs: vec![], strict: false, depth: 0 }
    }
    pub fn valid(&mut self, i: &I) -> bool {
        let root = self.root;
        self.eval(root, i, "").is_some()
    }
    fn quiet(&mut self, s: &'a J, i: &I, at: &str) -> Option<Ann> {
        let n = self.errs.len();
        let r = self.eval(s, i, at);
        self.errs.truncate(n);
        r
    }
    fn resolve(&self, r: &str) -> Option<&'a J> {
        if r == "#" {
            return Some(self.root);
        }
        if let Some(p) = r.strip_prefix("#/") {
            let mut cur = self.root;
            for t in p.split('/') {
                let t = t.replace("%25", "%").replace("~1", "/").replace("~0", "~");
                cur = match cur {
                    J::Object(o) => o.get(&t)?,
                    J::Array(a) => a.get(t.parse::<usize>().ok()?)?,
                    _ => return None,
                };
            }
            return Some(cur);
        }
        fn find<'b>(j: &'b J, a: &str) -> Option<&'b J> {
            match j {
                J::Object(o) => {
                    if o.get("$anchor").and_then(|x| x.as_str()) == Some(a) {
                        return Some(j);
                    }
                    o.values().find_map(|x| find(x, a))
                }
                J::Array(v) => v.iter().find_map(|x| find(x, a)),
                _ => None,
            }
        }
        find(self.root, r.strip_prefix('#')?)
    }
    fn bad(&mut self, ok: &mut bool, at: &str, kw: &str) {
        *ok = false;
        self.errs.push((at.to_string(), kw.to_string()));
    }
    /// `None`: the instance does not satisfy the schema
    pub fn eval(&mut self, s: &'a J, i: &I, at: &str) -> Option<Ann> {
        self.depth += 1;
        if self.depth > 200 {
            panic!("oracle: schema recursion");
        }
        let r = self.eval0(s, i, at);
        self.depth -= 1;
        r
    }
    fn eval0(&mut self, s: &'a J, i: &I, at: &str) -> Option<Ann> {
        let o: &'a Map<String, J> = match s {
            J::Bool(true) => return Some(Ann::default()),
            J::Bool(false) => {
                self.errs.push((at.to_string(), "false".into()));
                return None;
            }
            J::Object(o) => o,
            _ => panic!("schema {s}"),
        };
        let d = self.draft;
        let new = d != Draft::D7;
        let mut ann = Ann::default();
        let mut ok = true;
        if let Some(r) = o.get("$ref") {
            let t = self.resolve(r.as_str().unwrap()).unwrap_or_else(|| panic!("oracle: ref {r}"));
            match self.eval(t, i, at) {
                Some(a) => ann.merge(a),
                None => ok = false,
            }
            if d == Draft::D7 {
                return ok.then_some(ann);
            }
        }
        if let Some(t) = o.get("type") {
            let is = |t: &str| match t {
                "number" => matches!(i, I::Int(_) | I::Float(_)),
                t => t == i.kind() && !(t == "number"),
            };
            let m = match t {
                J::String(t) => is(t),
                J::Array(a) => a.iter().any(|t| is(t.as_str().unwrap())),
                _ => true,
            };
            if !m {
                self.bad(&mut ok, at, "type");
            }
        }
        let ij = i.json();
        if let Some(e) = o.get("enum") {
            if !e.as_array().unwrap().iter().any(|x| jeq(x, &ij)) {
                self.bad(&mut ok, at, "enum");
            }
        }
        if let Some(c) = o.get("const") {
            if !jeq(c, &ij) {
                self.bad(&mut ok, at, "const");
            }
        }
        if let Some(n) = i.num() {
            let cmp = |lim: &J| -> std::cmp::Ordering {
                match (i, lim.as_i64()) {
                    (I::Int(x), Some(l)) => x.cmp(&l),
                    _ => n.partial_cmp(&lim.as_f64().unwrap()).unwrap(),
                }
            };
            use std::cmp::Ordering::*;
            for (k, good) in [("minimum", vec![Greater, Equal]), ("maximum", vec![Less, Equal]), ("exclusiveMinimum", vec![Greater]), ("exclusiveMaximum", vec![Less])] {
                if let Some(l) = o.get(k) {
                    if !good.contains(&cmp(l)) {
                        self.bad(&mut ok, at, k);
                    }
                }
            }
            if let Some(m) = o.get("multipleOf") {
                let m = m.as_f64().unwrap();
                let q = n / m;
                if (q - q.round()).abs() > 1e-9 {
                    self.bad(&mut ok, at, "multipleOf");
                }
            }
        }
        if let I::Str(t) = i {
            let n = t.chars().count() as u64;
            if o.get("minLength").is_some_and(|m| n < m.as_u64().unwrap()) {
                self.bad(&mut ok, at, "minLength");
            }
            if o.get("maxLength").is_some_and(|m| n > m.as_u64().unwrap()) {
                self.bad(&mut ok, at, "maxLength");
            }
            if o.get("pattern").is_some_and(|p| !pattern(p.as_str().unwrap(), t)) {
                self.bad(&mut ok, at, "pattern");
            }
        }
        if let I::Arr(a) = i {
            let n = a.len() as u64;
            if o.get("minItems").is_some_and(|m| n < m.as_u64().unwrap()) {
                self.bad(&mut ok, at, "minItems");
            }
            if o.get("maxItems").is_some_and(|m| n > m.as_u64().unwrap()) {
                self.bad(&mut ok, at, "maxItems");
            }
            if o.get("uniqueItems") == Some(&J::Bool(true)) {
                let js: Vec<J> = a.iter().map(|x| x.json()).collect();
                if (0..js.len()).any(|x| (0..x).any(|y| jeq(&js[x], &js[y]))) {
                    self.bad(&mut ok, at, "uniqueItems");
                }
            }
            let (prefix, rest): (Option<&'a Vec<J>>, Option<(&'a J, &str)>) = match o.get("prefixItems").and_then(|p| p.as_array()) {
                Some(p) => (Some(p), o.get("items").filter(|x| !x.is_array()).map(|x| (x, "items"))),
                None => match o.get("items") {
                    Some(J::Array(p)) => (Some(p), if d == Draft::D20 { None } else { o.get("additionalItems").map(|x| (x, "additionalItems")) }),
                    Some(x) => (None, Some((x, "items"))),
                    None => (None, None),
                },
            };
            let np = prefix.map(|p| p.len()).unwrap_or(0);
            if let Some(p) = prefix {
                for (n, s) in p.iter().enumerate() {
                    if let Some(x) = a.get(n) {
                        if self.eval(s, x, &format!("{at}/{n}")).is_none() {
                            ok = false;
                        }
                        ann.items.insert(n);
                    }
                }
            }
            if let Some((s, _)) = rest {
                for (n, x) in a.iter().enumerate().skip(np) {
                    if self.eval(s, x, &format!("{at}/{n}")).is_none() {
                        ok = false;
                    }
                    ann.items.insert(n);
                }
            }
            if let Some(c) = o.get("contains") {
                let hits: Vec<usize> = (0..a.len()).filter(|n| self.quiet(c, &a[*n], &format!("{at}/{n}")).is_some()).collect();
                let min = if new { o.get("minContains").and_then(|m| m.as_u64()).unwrap_or(1) } else { 1 };
                if (hits.len() as u64) < min {
                    self.bad(&mut ok, at, "contains");
                }
                if new && o.get("maxContains").is_some_and(|m| hits.len() as u64 > m.as_u64().unwrap()) {
                    self.bad(&mut ok, at, "maxContains");
                }
                if d == Draft::D20 {
                    ann.items.extend(hits);
                }
            }
        }
        if let I::Obj(m) = i {
            let n = m.len() as u64;
            if o.get("minProperties").is_some_and(|l| n < l.as_u64().unwrap()) {
                self.bad(&mut ok, at, "minProperties");
            }
            if o.get("maxProperties").is_some_and(|l| n > l.as_u64().unwrap()) {
                self.bad(&mut ok, at, "maxProperties");
            }
            let has = |k: &J| i.get(k.as_str().unwrap()).is_some();
            if let Some(r) = o.get("required") {
                if !r.as_array().unwrap().iter().all(has) {
                    self.bad(&mut ok, at, "required");
                }
            }
            if new {
                if let Some(J::Object(dr)) = o.get("dependentRequired") {
                    for (k, v) in dr {
                        if i.get(k).is_some() && !v.as_array().unwrap().iter().all(has) {
                            self.bad(&mut ok, at, "dependentRequired");
                        }
                    }
                }
            }
            let mut deps: Vec<(&String, &'a J)> = vec![];
            if let Some(J::Object(dp)) = o.get("dependencies") {
                for (k, v) in dp {
                    match v {
                        J::Array(v) => {
                            if i.get(k).is_some() && !v.iter().all(has) {
                                self.bad(&mut ok, at, "dependencies");
                            }
                        }
                        v => deps.push((k, v)),
                    }
                }
            }
            if new {
                if let Some(J::Object(dp)) = o.get("dependentSchemas") {
                    deps.extend(dp.iter());
                }
            }
            for (k, s) in deps {
                if i.get(k).is_some() {
                    match self.eval(s, i, at) {
                        Some(a) => ann.merge(a),
                        None => ok = false,
                    }
                }
            }
            if let Some(pn) = o.get("propertyNames") {
                for (k, _) in m {
                    if self.quiet(pn, &I::Str(k.clone()), at).is_none() {
                        self.bad(&mut ok, &format!("{at}/{k}"), "propertyNames");
                    }
                }
            }
            let (props, pats) = (o.get("properties").and_then(|x| x.as_object()), o.get("patternProperties").and_then(|x| x.as_object()));
            for (k, v) in m {
                let p = format!("{at}/{k}");
                let mut seen = false;
                if let Some(s) = props.and_then(|x| x.get(k)) {
                    seen = true;
                    if self.eval(s, v, &p).is_none() {
                        ok = false;
                    }
                }
                for (re, s) in pats.into_iter().flatten() {
                    if pattern(re, k) {
                        seen = true;
                        if self.eval(s, v, &p).is_none() {
                            ok = false;
                        }
                    }
                }
                if !seen {
                    if let Some(s) = o.get("additionalProperties") {
                        seen = true;
                        if self.eval(s, v, &p).is_none() {
                            ok = false;
                        }
                    }
                }
                if seen {
                    ann.props.insert(k.clone());
                }
            }
        }
        if let Some(J::Array(l)) = o.get("allOf") {
            for s in l {
                match self.eval(s, i, at) {
                    Some(a) => ann.merge(a),
                    None => ok = false,
                }
            }
        }
        if let Some(J::Array(l)) = o.get("anyOf") {
            let mut any = false;
            for s in l {
                if let Some(a) = self.quiet(s, i, at) {
                    any = true;
                    ann.merge(a);
                }
            }
            if !any {
                self.bad(&mut ok, at, "anyOf");
            }
        }
        if let Some(J::Array(l)) = o.get("oneOf") {
            let r: Vec<Ann> = l.iter().filter_map(|s| self.quiet(s, i, at)).collect();
            if r.len() != 1 {
                self.bad(&mut ok, at, "oneOf");
            } else {
                ann.merge(r.into_iter().next().unwrap());
            }
        }
        if let Some(s) = o.get("not") {
            if self.quiet(s, i, at).is_some() {
                self.bad(&mut ok, at, "not");
            }
        }
        if let Some(c) = o.get("if") {
            let c = self.quiet(c, i, at);
            let branch = if let Some(a) = c {
                ann.merge(a);
                o.get("then")
            } else {
                o.get("else")
            };
            if let Some(b) = branch {
                match self.eval(b, i, at) {
                    Some(a) => ann.merge(a),
                    None => ok = false,
                }
            }
        }
        if new {
            if let (I::Obj(m), Some(u)) = (i, o.get("unevaluatedProperties")) {
                for (k, v) in m {
                    if !ann.props.contains(k) {
                        if self.eval(u, v, &format!("{at}/{k}")).is_none() {
                            ok = false;
                        }
                        ann.props.insert(k.clone());
                    }
                }
            }
            if let (I::Arr(a), Some(u)) = (i, o.get("unevaluatedItems")) {
                for (n, v) in a.iter().enumerate() {
                    if !ann.items.contains(&n) {
                        if self.eval(u, v, &format!("{at}/{n}")).is_none() {
                            ok = false;
                        }
                        ann.items.insert(n);
                    }
                }
            }
        }
        ok.then_some(ann)
    }
}
