//! P10: JSON Schema validation against an independent evaluator.
use crate::driver::*;
use crate::env::*;
use crate::jschema::{Draft, Eval, I, PATTERNS};
use crate::rng::Rng;
use crate::tomlw;
use serde_json::{Map, Value as J, json};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::time::{Duration, Instant};
use tombi_config::{LintOptions, TomlVersion};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P10",
        quick_cases: 6_000,
        quick_s: 60,
        thorough_cases: 100_000_000,
        thorough_s: 1500,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one document linted against one JSON Schema, the verdict compared with an independent evaluator's; distinct non-trivial = distinct (schema, document) pairs whose schema has at least two keywords",
        assumptions: &["schemas use the keywords of the documentation's table with the dialect that defines them", "numbers with a fraction part of zero written as floats are left out"],
        must: &["accepted", "rejected", "d7", "d19", "d20", "kw_oneOf", "kw_anyOf", "kw_allOf", "kw_not", "kw_if", "kw_$ref", "kw_unevaluatedProperties", "kw_unevaluatedItems", "kw_contains", "kw_propertyNames"],
        make: |c| Box::new(Schema { dir: c.scratch.join(format!("s{}", c.worker)), n: 0, rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }),
    }]
}

pub struct Schema {
    pub dir: PathBuf,
    pub n: u64,
    pub rt: tokio::runtime::Runtime,
}

pub const KEYS: &[&str] = &["a", "b", "c", "ab", "x-1", "1", "foo", "a.b", "é"];
const STRS: &[&str] = &["", "a", "b", "ab", "abc", "foo", "bar", "é", "x-1", "1", "true", "日本語", "a b"];

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub d: Draft,
    pub defs: usize,
    pub anchors: bool,
}

fn set(o: &mut Map<String, J>, k: &str, v: J) {
    o.insert(k.to_string(), v);
}

impl G<'_> {
    fn num(&mut self) -> J {
        match self.r.below(6) {
            0 => json!(0.5),
            1 => json!(2.5),
            2 => json!(-1),
            _ => json!(self.r.below(4)),
        }
    }
    fn lit(&mut self, depth: usize) -> J {
        match self.r.below(if depth > 0 { 8 } else { 6 }) {
            0 => json!(self.r.chance(1, 2)),
            1 | 2 => json!(self.r.below(4)),
            3 => json!(self.r.pick(&[0.5, 2.5, -1.5])),
            4 | 5 => json!(self.r.pick_str(STRS)),
            6 => {
                let n = self.r.below(3);
                J::Array((0..n).map(|_| self.lit(depth - 1)).collect())
            }
            _ => {
                let n = self.r.below(3);
                J::Object((0..n).map(|_| (self.r.pick_str(KEYS).to_string(), self.lit(depth - 1))).collect())
            }
        }
    }
    fn keys(&mut self, n: usize) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = (0..n).map(|_| self.r.pick_str(KEYS)).collect();
        v.sort();
        v.dedup();
        v
    }
    fn list(&mut self, depth: usize, lo: usize, hi: usize, inplace: bool) -> J {
        let n = self.r.range(lo, hi);
        J::Array((0..n).map(|_| self.schema(depth.saturating_sub(1), inplace)).collect())
    }
    /// `inplace`: the schema is applied to the same value as the one around it, so a reference could loop
    pub fn schema(&mut self, depth: usize, inplace: bool) -> J {
        let new = self.d != Draft::D7;
        match self.r.below(40) {
            0 => return json!(true),
            1 => return json!(false),
            2 => return json!({}),
            3..=6 if self.defs > 0 && !inplace => {
                let n = self.r.below(self.defs);
                let kw = if new && self.r.chance(3, 4) { "$defs" } else { "definitions" };
                let _ = kw;
                let mut o = Map::new();
                let rf = match self.r.below(8) {
                    0 => "#".to_string(),
                    1 if self.anchors => format!("#anc{n}"),
                    _ => format!("#/{}/d{n}", if new { "$defs" } else { "definitions" }),
                };
                set(&mut o, "$ref", json!(rf));
                // (what tables have to satisfy besides the reference is a known finding, see PINNED)
                if self.r.chance(1, 4) && new && o["$ref"] != "#" {
                    let extra = self.schema(depth.saturating_sub(1), true);
                    if let J::Object(e) = extra {
                        for (k, v) in e {
                            if BESIDE_REF.contains(&k.as_str()) {
                                o.insert(k, v);
                            }
                        }
                    }
                }
                return J::Object(o);
            }
            _ => {}
        }
        let mut o = Map::new();
        let ty = self.r.below(10);
        let (t, name) = match ty {
            0 => (0, "boolean"),
            1 => (1, "integer"),
            2 => (1, "number"),
            3 | 4 => (2, "string"),
            5 | 6 if depth > 0 => (3, "array"),
            7 | 8 | 9 if depth > 0 => (4, "object"),
            _ => (2, "string"),
        };
        if self.r.chance(3, 5) {
            if self.r.chance(1, 6) {
                let mut v = vec![name];
                for _ in 0..self.r.range(1, 2) {
                    let n = self.r.pick_str(&["boolean", "integer", "number", "string", "array", "object", "null"]);
                    if !v.contains(&n) {
                        v.push(n);
                    }
                }
                set(&mut o, "type", json!(v));
            } else {
                set(&mut o, "type", json!(name));
            }
        }
        let rounds = if self.r.chance(1, 6) { 2 } else { 1 };
        let mut t = t;
        for _ in 0..rounds {
            self.keywords(&mut o, t, depth);
            t = self.r.below(if depth > 0 { 5 } else { 3 });
        }
        if self.r.chance(1, 12) {
            let v = self.lit(1);
            set(&mut o, "const", v);
        }
        if self.r.chance(1, 10) {
            let n = self.r.range(1, 4);
            let mut v: Vec<J> = vec![];
            for _ in 0..n {
                let x = self.lit(1);
                if !v.iter().any(|y| crate::jschema::jeq(&x, y)) {
                    v.push(x);
                }
            }
            set(&mut o, "enum", J::Array(v));
        }
        if depth > 0 {
            for kw in ["oneOf", "anyOf", "allOf"] {
                if self.r.chance(1, 9) {
                    let v = self.list(depth, 1, 3, true);
                    set(&mut o, kw, v);
                }
            }
            if self.r.chance(1, 12) {
                let v = self.schema(depth - 1, true);
                set(&mut o, "not", v);
            }
            if self.r.chance(1, 12) {
                let v = self.schema(depth - 1, true);
                set(&mut o, "if", v);
                if self.r.chance(3, 4) {
                    let v = self.schema(depth - 1, true);
                    set(&mut o, "then", v);
                }
                if self.r.chance(1, 2) {
                    let v = self.schema(depth - 1, true);
                    set(&mut o, "else", v);
                }
            }
        }
        J::Object(o)
    }
    fn keywords(&mut self, o: &mut Map<String, J>, t: usize, depth: usize) {
        let new = self.d != Draft::D7;
        let dn = depth.saturating_sub(1);
        match t {
            1 => {
                for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
                    if self.r.chance(1, 4) {
                        let v = self.num();
                        set(o, k, v);
                    }
                }
                if self.r.chance(1, 6) {
                    let v = self.r.pick(&[json!(1), json!(2), json!(3), json!(0.5), json!(2.5)]).clone();
                    set(o, "multipleOf", v);
                }
            }
            2 => {
                if self.r.chance(1, 4) {
                    set(o, "minLength", json!(self.r.below(4)));
                }
                if self.r.chance(1, 4) {
                    set(o, "maxLength", json!(self.r.below(4)));
                }
                if self.r.chance(1, 4) {
                    set(o, "pattern", json!(self.r.pick(PATTERNS).0));
                }
            }
            3 => {
                if self.r.chance(1, 5) {
                    set(o, "minItems", json!(self.r.below(3)));
                }
                if self.r.chance(1, 5) {
                    set(o, "maxItems", json!(self.r.below(4)));
                }
                if self.r.chance(1, 4) {
                    set(o, "uniqueItems", json!(self.r.chance(3, 4)));
                }
                if self.r.chance(1, 2) {
                    let v = self.schema(dn, false);
                    set(o, "items", v);
                }
                if self.r.chance(1, 3) {
                    let v = self.list(depth, 1, 3, false);
                    if self.d == Draft::D20 {
                        set(o, "prefixItems", v);
                    } else {
                        set(o, "items", v);
                        if self.r.chance(1, 2) {
                            let v = self.schema(dn, false);
                            set(o, "additionalItems", v);
                        }
                    }
                }
                if self.r.chance(1, 4) {
                    let v = self.schema(dn, false);
                    set(o, "contains", v);
                    if new && self.r.chance(1, 2) {
                        set(o, "minContains", json!(self.r.below(3)));
                    }
                    if new && self.r.chance(1, 3) {
                        set(o, "maxContains", json!(self.r.below(3)));
                    }
                }
                if new && self.r.chance(1, 4) {
                    let v = if self.r.chance(1, 2) { json!(false) } else { self.schema(dn, false) };
                    set(o, "unevaluatedItems", v);
                }
            }
            4 => {
                if self.r.chance(3, 4) {
                    let n = self.r.range(1, 3);
                    let m: Map<String, J> = self.keys(n).into_iter().map(|k| (k.to_string(), self.schema(dn, false))).collect();
                    set(o, "properties", J::Object(m));
                }
                if self.r.chance(1, 5) {
                    let n = self.r.range(1, 2);
                    let m: Map<String, J> = (0..n).map(|_| (self.r.pick(PATTERNS).0.to_string(), self.schema(dn, false))).collect();
                    set(o, "patternProperties", J::Object(m));
                }
                if self.r.chance(1, 3) {
                    let v = if self.r.chance(1, 2) { json!(self.r.chance(1, 3)) } else { self.schema(dn, false) };
                    set(o, "additionalProperties", v);
                }
                if self.r.chance(1, 4) {
                    let n = self.r.range(1, 2);
                    set(o, "required", json!(self.keys(n)));
                }
                if self.r.chance(1, 10) {
                    set(o, "minProperties", json!(self.r.below(3)));
                }
                if self.r.chance(1, 10) {
                    set(o, "maxProperties", json!(self.r.below(4)));
                }
                if self.r.chance(1, 8) {
                    let v = self.schema(0, false);
                    set(o, "propertyNames", v);
                }
                if self.r.chance(1, 8) {
                    let m: Map<String, J> = (0..1)
                        .map(|_| {
                            let k = self.r.pick_str(KEYS).to_string();
                            let v = if self.r.chance(1, 2) {
                                let n = self.r.range(1, 2);
                                json!(self.keys(n))
                            } else {
                                self.schema(dn, true)
                            };
                            (k, v)
                        })
                        .collect();
                    if self.d != Draft::D20 {
                        set(o, "dependencies", J::Object(m));
                    }
                }
                if new && self.r.chance(1, 8) {
                    let k = self.r.pick_str(KEYS).to_string();
                    let ks = self.keys(2);
                    set(o, "dependentRequired", json!({k: ks}));
                }
                if new && self.r.chance(1, 8) {
                    let k = self.r.pick_str(KEYS).to_string();
                    let v = self.schema(dn, true);
                    set(o, "dependentSchemas", json!({k: v}));
                }
                if new && self.r.chance(1, 4) {
                    let v = if self.r.chance(1, 2) { json!(false) } else { self.schema(dn, false) };
                    set(o, "unevaluatedProperties", v);
                }
            }
            _ => {}
        }
    }
    pub fn root(&mut self) -> J {
        loop {
            let s = self.root_any();
            // tombi's own tests say that the key of a dependency counts as evaluated
            let mut k = BTreeSet::new();
            keywords(&s, &mut k);
            if !(k.contains("unevaluatedProperties") && (k.contains("dependentSchemas") || k.contains("dependencies"))) {
                return s;
            }
        }
    }
    fn root_any(&mut self) -> J {
        self.defs = if self.r.chance(1, 3) { self.r.range(1, 3) } else { 0 };
        self.anchors = self.d != Draft::D7 && self.r.chance(1, 3);
        let depth = self.r.range(1, 4);
        let mut o = Map::new();
        for _ in 0..10 {
            if let J::Object(m) = self.schema(depth, true) {
                if m.len() > 1 || m.contains_key("properties") {
                    o = m;
                    break;
                }
            }
        }
        if !o.contains_key("properties") && self.r.chance(3, 4) {
            let n = self.r.range(1, 3);
            let m: Map<String, J> = self.keys(n).into_iter().map(|k| (k.to_string(), self.schema(depth - 1, false))).collect();
            set(&mut o, "properties", J::Object(m));
            if self.r.chance(1, 2) {
                set(&mut o, "type", json!("object"));
            }
        }
        if self.defs > 0 {
            let mut m = Map::new();
            for n in 0..self.defs {
                // a definition is used in place of its reference: none of its in-place parts may refer on
                let dd = self.r.range(1, 2);
                let mut s = self.schema(dd, true);
                if let J::Object(x) = &mut s {
                    if self.anchors {
                        set(x, "$anchor", json!(format!("anc{n}")));
                    }
                } else if self.anchors {
                    s = json!({"$anchor": format!("anc{n}")});
                }
                m.insert(format!("d{n}"), s);
            }
            set(&mut o, if self.d == Draft::D7 { "definitions" } else { "$defs" }, J::Object(m));
        }
        set(&mut o, "$schema", json!(self.d.uri()));
        J::Object(o)
    }
    /// data that has a fair chance of satisfying `s`
    pub fn inst(&mut self, s: &J, root: &J, depth: usize) -> I {
        let o = match s {
            J::Object(o) => o,
            _ => return self.any(depth.min(1)),
        };
        if self.r.chance(1, 12) {
            return self.any(depth.min(1));
        }
        if let Some(r) = o.get("$ref").and_then(|r| r.as_str()) {
            if depth > 0 {
                let t = if r == "#" {
                    Some(root)
                } else if let Some(p) = r.strip_prefix("#/") {
                    p.split('/').try_fold(root, |j, k| j.get(k))
                } else {
                    let n = r.trim_start_matches("#anc");
                    root.get("$defs").and_then(|d| d.get(format!("d{n}")))
                };
                if let Some(t) = t {
                    let t = t.clone();
                    return self.inst(&t, root, depth - 1);
                }
            }
        }
        if let Some(c) = o.get("const") {
            if self.r.chance(4, 5) {
                return from_json(c);
            }
        }
        if let Some(J::Array(e)) = o.get("enum") {
            if self.r.chance(4, 5) {
                return from_json(self.r.pick(e));
            }
        }
        for kw in ["anyOf", "oneOf", "allOf"] {
            if let Some(J::Array(l)) = o.get(kw) {
                if self.r.chance(1, 2) && !l.is_empty() && !o.contains_key("properties") {
                    let t = self.r.pick(l).clone();
                    return self.inst(&t, root, depth);
                }
            }
        }
        let mut ty = match o.get("type") {
            Some(J::String(t)) => t.as_str(),
            Some(J::Array(a)) => a[self.r.below(a.len())].as_str().unwrap(),
            _ => {
                if o.contains_key("properties") || o.contains_key("patternProperties") || o.contains_key("additionalProperties") || o.contains_key("required") || o.contains_key("unevaluatedProperties") || o.contains_key("propertyNames") {
                    "object"
                } else if o.contains_key("items") || o.contains_key("prefixItems") || o.contains_key("contains") || o.contains_key("uniqueItems") {
                    "array"
                } else if o.contains_key("minLength") || o.contains_key("maxLength") || o.contains_key("pattern") {
                    "string"
                } else if o.keys().any(|k| k.contains("inimum") || k.contains("aximum") || k == "multipleOf") {
                    "number"
                } else {
                    "any"
                }
            }
        };
        if depth == 0 && (ty == "object" || ty == "array") {
            ty = "any0";
        }
        match ty {
            "boolean" => I::Bool(self.r.chance(1, 2)),
            "integer" => I::Int(self.r.below(6) as i64 - 1),
            "number" => {
                if self.r.chance(1, 2) {
                    I::Float(*self.r.pick(&[0.5, 2.5, -1.5, 1.5]))
                } else {
                    I::Int(self.r.below(5) as i64)
                }
            }
            "string" => I::Str(self.r.pick_str(STRS).into()),
            "array" => {
                let n = self.r.below(4);
                let pre: Vec<J> = o.get("prefixItems").or(o.get("items")).and_then(|x| x.as_array()).cloned().unwrap_or_default();
                let items = o.get("items").filter(|x| !x.is_array()).or(o.get("contains")).or(o.get("additionalItems")).cloned();
                I::Arr(
                    (0..n)
                        .map(|k| match pre.get(k).or(items.as_ref()) {
                            Some(s) => self.inst(s, root, depth - 1),
                            None => self.any(depth.min(2) - 1),
                        })
                        .collect(),
                )
            }
            "object" => {
                let mut m: Vec<(String, I)> = vec![];
                let mut cand: Vec<(String, J)> = vec![];
                if let Some(J::Object(p)) = o.get("properties") {
                    for (k, s) in p {
                        if self.r.chance(3, 5) {
                            cand.push((k.clone(), s.clone()));
                        }
                    }
                }
                if let Some(J::Array(q)) = o.get("required") {
                    for k in q {
                        let k = k.as_str().unwrap();
                        if self.r.chance(4, 5) {
                            cand.push((k.to_string(), o.get("properties").and_then(|p| p.get(k)).cloned().unwrap_or(json!(true))));
                        }
                    }
                }
                let extra = o.get("additionalProperties").or(o.get("unevaluatedProperties")).cloned().unwrap_or(json!(true));
                let pats = o.get("patternProperties").and_then(|x| x.as_object()).cloned();
                for _ in 0..self.r.below(3) {
                    let k = self.r.pick_str(KEYS);
                    let s = pats.as_ref().and_then(|p| p.iter().find(|(re, _)| crate::jschema::pattern(re, k)).map(|x| x.1.clone())).unwrap_or(extra.clone());
                    cand.push((k.to_string(), s));
                }
                for kw in ["anyOf", "oneOf", "allOf"] {
                    for s in o.get(kw).and_then(|x| x.as_array()).into_iter().flatten() {
                        if let Some(J::Object(p)) = s.get("properties") {
                            for (k, s) in p {
                                if self.r.chance(1, 3) {
                                    cand.push((k.clone(), s.clone()));
                                }
                            }
                        }
                    }
                }
                self.r.shuffle(&mut cand);
                for (k, s) in cand {
                    if !m.iter().any(|x| x.0 == k) {
                        let v = self.inst(&s, root, depth - 1);
                        m.push((k, v));
                    }
                }
                I::Obj(m)
            }
            "null" => self.any(0),
            _ => self.any(if depth > 0 { 1 } else { 0 }),
        }
    }
    pub fn any(&mut self, depth: usize) -> I {
        let mut l = self.lit(depth);
        if depth > 0 && self.r.chance(1, 3) {
            l = self.lit(depth);
        }
        from_json(&l)
    }
}

pub fn from_json(j: &J) -> I {
    match j {
        J::Bool(b) => I::Bool(*b),
        J::Number(n) => n.as_i64().map(I::Int).unwrap_or_else(|| I::Float(n.as_f64().unwrap())),
        J::String(s) => I::Str(s.clone()),
        J::Array(a) => I::Arr(a.iter().map(from_json).collect()),
        J::Object(o) => I::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
        J::Null => I::Bool(false),
    }
}

pub fn keywords(s: &J, out: &mut BTreeSet<String>) {
    if let J::Object(o) = s {
        for (k, v) in o {
            match k.as_str() {
                "$schema" | "$anchor" => {}
                "$defs" | "definitions" => v.as_object().into_iter().flatten().for_each(|x| keywords(x.1, out)),
                "properties" | "patternProperties" | "dependentSchemas" | "dependencies" => {
                    out.insert(k.clone());
                    v.as_object().into_iter().flatten().for_each(|x| keywords(x.1, out));
                }
                "anyOf" | "oneOf" | "allOf" | "prefixItems" => {
                    out.insert(k.clone());
                    v.as_array().into_iter().flatten().for_each(|x| keywords(x, out));
                }
                "items" => {
                    out.insert(if v.is_array() { "items[]".into() } else { k.clone() });
                    match v {
                        J::Array(a) => a.iter().for_each(|x| keywords(x, out)),
                        v => keywords(v, out),
                    }
                }
                "enum" | "const" | "required" | "type" | "dependentRequired" => {
                    out.insert(k.clone());
                }
                _ => {
                    out.insert(k.clone());
                    keywords(v, out);
                }
            }
        }
    } else if let J::Bool(b) = s {
        out.insert(b.to_string());
    }
}

/// every schema/data pair one step smaller
fn smaller_json(j: &J) -> Vec<J> {
    let mut v = vec![];
    match j {
        J::Object(o) => {
            for k in o.keys() {
                if k == "$schema" {
                    continue;
                }
                let mut p = o.clone();
                p.remove(k);
                v.push(J::Object(p));
            }
            for (k, x) in o {
                if k == "$schema" {
                    continue;
                }
                if ["anyOf", "oneOf", "allOf", "not", "if", "then", "else"].contains(&k.as_str()) {
                    match x {
                        J::Array(a) => a.iter().filter(|y| y.is_object()).for_each(|y| {
                            let mut y = y.clone();
                            if let Some(s) = o.get("$schema") {
                                y["$schema"] = s.clone();
                            }
                            v.push(y)
                        }),
                        y if y.is_object() => {
                            let mut y = y.clone();
                            if let Some(s) = o.get("$schema") {
                                y["$schema"] = s.clone();
                            }
                            v.push(y)
                        }
                        _ => {}
                    }
                }
                for y in smaller_json(x) {
                    let mut p = o.clone();
                    p.insert(k.clone(), y);
                    v.push(J::Object(p));
                }
            }
        }
        J::Array(a) => {
            for n in 0..a.len() {
                let mut p = a.clone();
                p.remove(n);
                if !p.is_empty() {
                    v.push(J::Array(p));
                }
                for y in smaller_json(&a[n]) {
                    let mut p = a.clone();
                    p[n] = y;
                    v.push(J::Array(p));
                }
            }
        }
        _ => {}
    }
    v
}

pub fn smaller_inst(i: &I) -> Vec<I> {
    let mut v = vec![];
    match i {
        I::Obj(o) => {
            for n in 0..o.len() {
                let mut p = o.clone();
                p.remove(n);
                v.push(I::Obj(p));
                for y in smaller_inst(&o[n].1) {
                    let mut p = o.clone();
                    p[n].1 = y;
                    v.push(I::Obj(p));
                }
            }
        }
        I::Arr(a) => {
            for n in 0..a.len() {
                let mut p = a.clone();
                p.remove(n);
                v.push(I::Arr(p));
                for y in smaller_inst(&a[n]) {
                    let mut p = a.clone();
                    p[n] = y;
                    v.push(I::Arr(p));
                }
            }
        }
        _ => {}
    }
    v
}

impl Schema {
    /// diagnostics of `docs` under `schema`
    pub fn lint(&mut self, schema: &J, docs: &[String]) -> Vec<Result<Vec<D>, String>> {
        self.n += 1;
        let _ = std::fs::create_dir_all(&self.dir);
        let path = self.dir.join("s.json");
        std::fs::write(&path, serde_json::to_string(schema).unwrap()).unwrap();
        let doc = self.dir.join("d.toml");
        let store = tombi_schema_store::SchemaStore::new();
        let lo = LintOptions::default();
        docs.iter()
            .map(|d| {
                guard(|| {
                    self.rt.block_on(async {
                        match tombi_linter::Linter::new(TomlVersion::V1_1_0, &lo, Some(itertools::Either::Right(&doc)), &store).lint(d).await {
                            Ok(()) => vec![],
                            Err(ds) => ds.iter().map(d_of).collect(),
                        }
                    })
                })
            })
            .collect()
    }
    fn judge(&mut self, schema: &J, d: Draft, i: &I, form: u64) -> Option<(String, String, String)> {
        let I::Obj(o) = i else { return None };
        let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Eval::new(schema, d).valid(i))).ok()?;
        let doc = format!("#:schema ./s.json\n#:tombi schema.strict = false\n{}", tomlw::doc(o, &mut Rng::new(form)));
        let got = self.lint(schema, &[doc.clone()]).pop().unwrap();
        let errs: Vec<D> = match got {
            Err(p) => return Some((panic_sig(&p), p, doc)),
            Ok(ds) => ds.into_iter().filter(|x| x.error).collect(),
        };
        if errs.is_empty() == want {
            return None;
        }
        let what = if want { "rejects-valid" } else { "accepts-invalid" };
        Some((what.into(), format!("{:?}", errs.iter().map(|e| format!("{} {}", e.code, e.msg)).collect::<Vec<_>>()), doc))
    }
    fn shrink(&mut self, schema: &J, d: Draft, i: &I, form: u64, what: &str) -> (J, I) {
        let t0 = Instant::now();
        let (mut s, mut i) = (schema.clone(), i.clone());
        'again: loop {
            if t0.elapsed() > Duration::from_secs(8) {
                return (s, i);
            }
            for x in smaller_inst(&i) {
                if matches!(x, I::Obj(_)) && self.judge(&s, d, &x, form).is_some_and(|v| v.0 == what) {
                    i = x;
                    continue 'again;
                }
            }
            for x in smaller_json(&s) {
                if self.judge(&x, d, &i, form).is_some_and(|v| v.0 == what) {
                    s = x;
                    continue 'again;
                }
            }
            return (s, i);
        }
    }
}

/// keywords that may stand next to `$ref` in generated schemas
const BESIDE_REF: &[&str] = &[
    "type", "const", "enum", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "minItems", "maxItems", "uniqueItems", "items", "prefixItems", "contains", "description",
];

/// fixed cases: known findings, which the generator stays clear of, and shapes that deserve to be run every time
const PINNED: &[(&str, &str, &str, bool)] = &[
    ("ref-sibling-of-table", r##"{"$schema":"https://json-schema.org/draft/2020-12/schema","$defs":{"d":{"type":"object"}},"properties":{"x":{"$ref":"#/$defs/d","required":["a"]}}}"##, "x = {}\n", false),
    ("ref-root-sibling-type", r##"{"$schema":"https://json-schema.org/draft/2019-09/schema","properties":{"x":{"$ref":"#","type":"array"}}}"##, "x = {}\n", false),
    ("fractional-bound", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"x":{"type":"integer","minimum":2.5}}}"##, "x = 2\n", false),
    ("multiple-of-zero", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"x":{"type":"integer","multipleOf":0}}}"##, "x = 2\n", true),
    ("multiple-of-minus-one", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"x":{"type":"integer","multipleOf":-1}}}"##, "x = -9223372036854775808\n", true),
];

impl Check for Schema {
    fn pinned(&self) -> u64 {
        PINNED.len() as u64
    }
    fn case(&mut self, idx: u64, r: &mut Rng, rep: &mut Rep) {
        if let Some((name, schema, doc, want)) = PINNED.get(idx as usize) {
            let schema: J = serde_json::from_str(schema).unwrap();
            let text = format!("#:schema ./s.json\n#:tombi schema.strict = false\n{doc}");
            rep.eval(&text, true);
            rep.count("pinned");
            match &self.lint(&schema, &[text])[0] {
                Err(p) => rep.viol(panic_sig(p), format!("{schema} with {doc:?}: {p}"), json!({"schema": schema, "doc": doc})),
                Ok(ds) => {
                    let ok = !ds.iter().any(|x| x.error);
                    if ok != *want {
                        rep.viol(format!("pinned:{name}"), format!("{schema} with {doc:?}: {}", if ok { "accepted" } else { "rejected" }), json!({"schema": schema, "doc": doc}));
                    }
                }
            }
            return;
        }
        let d = *r.pick(&[Draft::D7, Draft::D19, Draft::D20]);
        let mut g = G { r, d, defs: 0, anchors: false };
        let schema = g.root();
        let mut kws = BTreeSet::new();
        keywords(&schema, &mut kws);
        let mut insts = vec![];
        for _ in 0..6 {
            let i = g.inst(&schema, &schema, 5);
            let i = if matches!(i, I::Obj(_)) { i } else { g.inst(&json!({"type":"object","properties":schema.get("properties").cloned().unwrap_or(json!({}))}), &schema, 5) };
            if let I::Obj(o) = &i {
                let form = g.r.u64();
                insts.push((i.clone(), form, format!("#:schema ./s.json\n#:tombi schema.strict = false\n{}", tomlw::doc(o, &mut Rng::new(form)))));
            }
        }
        let docs: Vec<String> = insts.iter().map(|x| x.2.clone()).collect();
        let res = self.lint(&schema, &docs);
        rep.count(match d {
            Draft::D7 => "d7",
            Draft::D19 => "d19",
            Draft::D20 => "d20",
        });
        for k in &kws {
            rep.count(&format!("kw_{k}"));
        }
        let sj = schema.to_string();
        for ((i, form, doc), got) in insts.iter().zip(res) {
            let Ok(want) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Eval::new(&schema, d).valid(i))) else {
                rep.count("oracle_gave_up");
                continue;
            };
            rep.eval(&format!("{sj}|{}", doc), kws.len() >= 2);
            rep.count(if want { "accepted" } else { "rejected" });
            let bad = match &got {
                Err(p) => Some(panic_sig(p)),
                Ok(ds) => {
                    let ok = !ds.iter().any(|x| x.error);
                    if ok != want { Some(if want { "rejects-valid".into() } else { "accepts-invalid".into() }) } else { None }
                }
            };
            if let Some(what) = bad {
                if rep.viols.len() > 60 && std::env::var("VH_ALL").is_err() {
                    continue;
                }
                let (s, i) = self.shrink(&schema, d, i, *form, &what);
                let (_, msg, doc) = self.judge(&s, d, &i, *form).unwrap_or((what.clone(), "not reproduced alone".into(), doc.clone()));
                let mut k = BTreeSet::new();
                keywords(&s, &mut k);
                let k: Vec<String> = k.into_iter().collect();
                rep.viol(format!("{what}:{}", k.join(",")), format!("{s} with {:?}: {msg}", doc.lines().skip(2).collect::<Vec<_>>().join("\n")), json!({"schema": s, "doc": doc, "draft": d.uri()}));
            }
        }
        if self.n % 500 == 1 {
            rep.sample(&format!("{sj}\n{}", docs.first().map(|s| s.as_str()).unwrap_or("")));
        }
    }
}
