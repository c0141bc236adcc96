// ------------------------------------------------------------------------------------------------- schema rules
struct Rule {
    /// name in directives
    name: &'static str,
    code: &'static str,
    schema: &'static str,
    bad: &'static [&'static str],
    good: &'static [&'static str],
    ty: &'static str,
}
macro_rules! rule {
    ($n:expr, $ty:expr, $s:expr, [$($b:expr),*], [$($g:expr),*]) => {
        Rule { name: $n, code: $n, schema: $s, bad: &[$($b),*], good: &[$($g),*], ty: $ty }
    };
    ($n:expr, $c:expr, $ty:expr, $s:expr, [$($b:expr),*], [$($g:expr),*]) => {
        Rule { name: $n, code: $c, schema: $s, bad: &[$($b),*], good: &[$($g),*], ty: $ty }
    };
}
const RULES: &[Rule] = &[
    rule!("integer-maximum", "integer", r#"{"type":"integer","maximum":5}"#, ["6", "0x10", "1_000"], ["5", "-5", "0b101"]),
    rule!("integer-minimum", "integer", r#"{"type":"integer","minimum":-2}"#, ["-3"], ["-2", "9"]),
    rule!("integer-exclusive-maximum", "integer", r#"{"type":"integer","exclusiveMaximum":5}"#, ["5", "+6"], ["4"]),
    rule!("integer-exclusive-minimum", "integer", r#"{"type":"integer","exclusiveMinimum":5}"#, ["5", "4"], ["6"]),
    rule!("integer-multiple-of", "integer", r#"{"type":"integer","multipleOf":3}"#, ["4", "-1"], ["0", "9", "-3"]),
    rule!("float-maximum", "float", r#"{"type":"number","maximum":5.5}"#, ["5.75", "1e9", "inf"], ["5.5", "-inf"]),
    rule!("float-minimum", "float", r#"{"type":"number","minimum":5.5}"#, ["5.25"], ["5.5", "1e9"]),
    rule!("float-exclusive-maximum", "float", r#"{"type":"number","exclusiveMaximum":5.5}"#, ["5.5"], ["5.25"]),
    rule!("float-exclusive-minimum", "float", r#"{"type":"number","exclusiveMinimum":5.5}"#, ["5.5"], ["5.75"]),
    rule!("float-multiple-of", "float", r#"{"type":"number","multipleOf":0.5}"#, ["0.75"], ["1.5", "2.0"]),
    rule!("string-max-length", "string", r#"{"type":"string","maxLength":3}"#, ["\"abcd\"", "'日本語é'"], ["\"abc\"", "'日本語'", "\"\\u0061bc\""]),
    rule!("string-min-length", "string", r#"{"type":"string","minLength":3}"#, ["\"ab\"", "'é'", "\"\\u0061\""], ["\"abc\""]),
    rule!("string-pattern", "string", r#"{"type":"string","pattern":"^a+$"}"#, ["\"ab\"", "''"], ["\"aaa\"", "'a'"]),
    rule!("string-format", "string", r#"{"type":"string","format":"ipv4"}"#, ["\"1.2.3\"", "\"x\""], ["\"1.2.3.4\""]),
    rule!("const-value", "const", "integer", r#"{"const":1}"#, ["2"], ["1", "0x1"]),
    rule!("const-value", "const", "string", r#"{"const":"x"}"#, ["\"y\""], ["\"x\"", "'x'", "\"\"\"x\"\"\""]),
    rule!("const-value", "const", "boolean", r#"{"const":true}"#, ["false"], ["true"]),
    rule!("const-value", "const", "float", r#"{"const":1.5}"#, ["2.5"], ["1.5", "15e-1"]),
    rule!("enum", "integer", r#"{"enum":[1,2]}"#, ["3"], ["1", "2"]),
    rule!("enum", "string", r#"{"enum":["x","y"]}"#, ["\"z\""], ["\"x\"", "'y'"]),
    rule!("enum", "boolean", r#"{"enum":[true]}"#, ["false"], ["true"]),
    rule!("enum", "float", r#"{"enum":[1.5,2.5]}"#, ["3.5"], ["2.5"]),
    rule!("enum", "string", r#"{"type":"string","enum":["x","y"]}"#, ["\"z\""], ["\"x\"", "'y'"]),
    rule!("type-mismatch", "string", r#"{"type":"integer"}"#, ["\"s\""], []),
    rule!("type-mismatch", "integer", r#"{"type":"string"}"#, ["1"], []),
    rule!("type-mismatch", "boolean", r#"{"type":"string"}"#, ["true"], []),
    rule!("type-mismatch", "float", r#"{"type":"boolean"}"#, ["1.5"], []),
    rule!("type-mismatch", "float", r#"{"type":"integer"}"#, ["1.5"], []),
    rule!("type-mismatch", "array", r#"{"type":"integer"}"#, ["[1]", "[]"], []),
    rule!("type-mismatch", "local-date", r#"{"type":"integer"}"#, ["2020-01-01"], []),
    rule!("type-mismatch", "local-time", r#"{"type":"integer"}"#, ["01:02:03"], []),
    rule!("type-mismatch", "local-date-time", r#"{"type":"integer"}"#, ["2020-01-01 01:02:03"], []),
    rule!("type-mismatch", "offset-date-time", r#"{"type":"integer"}"#, ["2020-01-01 01:02:03Z"], []),
    rule!("deprecated", "integer", r#"{"type":"integer","deprecated":true}"#, ["1"], []),
    rule!("deprecated", "string", r#"{"type":"string","deprecated":true}"#, ["\"a\""], []),
    rule!("deprecated", "boolean", r#"{"type":"boolean","deprecated":true}"#, ["true"], []),
    rule!("not-schema-match", "string", r#"{"type":"string","not":{"const":"x"}}"#, ["\"x\""], ["\"y\""]),
    rule!("not-schema-match", "integer", r#"{"type":"integer","not":{"minimum":4}}"#, ["4", "7"], ["3"]),
    rule!("one-of-multiple-match", "integer", r#"{"oneOf":[{"type":"integer"},{"type":"integer","minimum":3}]}"#, ["3", "7"], ["2"]),
    rule!("one-of-multiple-match", "string", r#"{"oneOf":[{"type":"string"},{"type":"string","minLength":3}]}"#, ["\"abc\""], ["\"ab\""]),
    rule!("array-max-values", "array", r#"{"type":"array","maxItems":2}"#, ["[1, 2, 3]"], ["[1, 2]", "[]"]),
    rule!("array-min-values", "array", r#"{"type":"array","minItems":2}"#, ["[1]", "[]"], ["[1, 2]"]),
    rule!("array-unique-values", "array", r#"{"type":"array","uniqueItems":true}"#, ["[1, 2, 1]", "[\"a\", 'a']", "[0x1, 1]"], ["[1, 2]", "[1, \"1\"]"]),
];
/// rules for which the tool says when a disable had nothing to do
const NOQA: &[(&str, &[&str])] = &[
    ("integer", &["integer-maximum", "integer-minimum", "integer-exclusive-maximum", "integer-exclusive-minimum", "integer-multiple-of", "const-value", "enum"]),
    ("float", &["float-maximum", "float-minimum", "float-exclusive-maximum", "float-exclusive-minimum", "float-multiple-of", "const-value", "enum"]),
    ("string", &["string-max-length", "string-min-length", "string-pattern", "string-format", "const-value", "enum"]),
    ("boolean", &["const-value", "enum"]),
    ("array", &["array-max-values", "array-min-values", "array-unique-values"]),
];
const TRULES: &[&str] = &["table-max-keys", "table-min-keys", "table-key-required", "key-not-allowed", "key-pattern", "strict"];

enum SNode {
    Leaf(usize),
    /// an array of values of one rule
    Items(usize),
    Tab(STab, u8), // 0 header, 1 inline, 2 dotted, 3 array of tables
}
struct STab {
    rule: Option<(&'static str, bool)>,
    kids: Vec<(String, SNode)>,
}
fn gen_stab(r: &mut Rng, depth: usize, style: u8) -> STab {
    let n = r.range(1, 4);
    let mut kids = vec![];
    for i in 0..n {
        let node = if depth > 0 && r.chance(1, 3) {
            let st = match style {
                0 | 3 | 9 => *r.pick(&[0, 0, 1, 2, 3]),
                2 => *r.pick(&[1, 2]),
                _ => *r.pick(&[1, 1, 2]),
            };
            SNode::Tab(gen_stab(r, depth - 1, st), st)
        } else if r.chance(1, 6) {
            SNode::Items(r.below(RULES.len()))
        } else {
            SNode::Leaf(r.below(RULES.len()))
        };
        kids.push((format!("k{i}"), node));
    }
    r.shuffle(&mut kids);
    let rule = if r.chance(2, 3) { Some((r.pick_str(TRULES), r.chance(2, 3))) } else { None };
    STab { rule, kids }
}
fn schema_of(t: &STab) -> J {
    let mut p = Map::new();
    for (k, n) in &t.kids {
        let s = match n {
            SNode::Leaf(i) => serde_json::from_str(RULES[*i].schema).unwrap(),
            SNode::Items(i) => json!({"type": "array", "items": serde_json::from_str::<J>(RULES[*i].schema).unwrap()}),
            SNode::Tab(t, 3) => json!({"type": "array", "items": schema_of(t)}),
            SNode::Tab(t, _) => schema_of(t),
        };
        p.insert(k.clone(), s);
    }
    let n = t.kids.len();
    let mut o = json!({"type": "object"});
    match t.rule {
        Some(("table-max-keys", bad)) => o["maxProperties"] = json!(if bad { n - 1 } else { n }),
        Some(("table-min-keys", bad)) => o["minProperties"] = json!(if bad { n + 1 } else { n }),
        Some(("table-key-required", bad)) => o["required"] = if bad { json!(["k0", "missing"]) } else { json!(["k0"]) },
        Some(("key-not-allowed", _)) => o["additionalProperties"] = json!(false),
        Some(("key-pattern", _)) => {
            o["patternProperties"] = json!({"^[A-Y]+$": {"type": "integer"}});
            o["additionalProperties"] = json!(false);
        }
        _ => {}
    }
    o["properties"] = J::Object(p);
    o
}
/// the directives at one value
struct Dirs {
    rules: Vec<String>,
    lead: bool,
    /// line each is on, once written
    line: usize,
}
struct Ren<'a> {
    r: &'a mut Rng,
    lines: Vec<String>,
    want: Want,
    strict: bool,
    rules: BTreeSet<String>,
    silenced: u64,
    unused: u64,
    /// rules of the tables that the dotted key at hand implies: its directives cover these too
    over: Vec<&'static str>,
}
impl Ren<'_> {
    /// which directives a value of this kind, breaking this rule (or none), gets
    fn dirs(&mut self, rule: &Rule, broken: Option<&str>) -> Dirs {
        // (deprecation is only told when there is nothing else to tell, and a satisfied const or enum keeps its disable)
        let ty = if ["type-mismatch", "one-of-multiple-match", "deprecated"].contains(&rule.name) { "" } else { rule.ty };
        let mut rules = vec![];
        if let Some(b) = broken
            && self.r.chance(1, 3)
        {
            rules.push(b.to_string());
        }
        if self.r.chance(1, 8)
            && let Some((_, l)) = NOQA.iter().find(|x| x.0 == ty)
        {
            let u = self.r.pick_str(l);
            if Some(u) != broken && !(u == rule.name && ["const-value", "enum"].contains(&u)) {
                rules.push(u.to_string());
            }
        }
        Dirs { rules, lead: self.r.chance(1, 2), line: 0 }
    }
    /// puts the directives above the line that comes next, or says what to put at its end
    fn above(&mut self, d: &mut Dirs, one_line: bool) -> Option<String> {
        if d.rules.is_empty() {
            return None;
        }
        let joined = self.r.chance(1, 3);
        if d.lead && !one_line {
            d.line = self.lines.len();
            if joined || d.rules.len() == 1 {
                let b: Vec<String> = d.rules.iter().map(|x| format!("{x}.disabled = true")).collect();
                let s = if b.len() == 1 && !joined { format!("# tombi: lint.rules.{}", b[0]) } else { format!("# tombi: lint.rules = {{ {} }}", b.join(", ")) };
                self.lines.push(s);
            } else {
                for x in &d.rules {
                    self.lines.push(format!("# tombi: lint.rules.{x}.disabled = true"));
                }
            }
            None
        } else {
            d.line = usize::MAX; // the line that comes next
            let b: Vec<String> = d.rules.iter().map(|x| format!("{x}.disabled = true")).collect();
            Some(if b.len() == 1 { format!(" # tombi: lint.rules.{}", b[0]) } else { format!(" # tombi: lint.rules = {{ {} }}", b.join(", ")) })
        }
    }
    fn unused(&mut self, d: &Dirs, broken: Option<&str>, line: usize) {
        for (i, x) in d.rules.iter().enumerate() {
            if Some(x.as_str()) != broken {
                let at = if d.line == usize::MAX {
                    line
                } else if self.lines[d.line].contains('{') || i == 0 {
                    d.line
                } else {
                    d.line + i
                };
                add(&mut self.want, "unused-noqa", false, at);
                self.unused += 1;
            }
        }
    }
    fn code(&mut self, rule: &Rule, d: &Dirs, line: usize) {
        self.rules.insert(rule.name.into());
        if d.rules.iter().any(|x| x == rule.name) {
            self.silenced += 1;
        } else {
            add(&mut self.want, rule.code, rule.name != "deprecated", line);
            // (each of the two equal members is pointed at)
            if rule.name == "array-unique-values" {
                add(&mut self.want, rule.code, true, line);
            }
        }
    }
    fn value(&mut self, i: usize) -> (&'static str, bool) {
        let rule = &RULES[i];
        if !rule.good.is_empty() && self.r.chance(1, 2) { (self.r.pick_str(rule.good), false) } else { (self.r.pick_str(rule.bad), true) }
    }
    /// `key = value` for a leaf or an array of leaves; inside an inline table it has no directives
    fn item(&mut self, path: &str, n: &SNode) {
        match n {
            SNode::Leaf(i) => {
                let rule = &RULES[*i];
                let (v, bad) = self.value(*i);
                let broken = bad.then_some(rule.name);
                let mut d = self.dirs(rule, broken);
                let tail = self.above(&mut d, false).unwrap_or_default();
                let line = self.lines.len();
                self.lines.push(format!("{path} = {v}{tail}"));
                if bad {
                    self.code(rule, &d, line);
                }
                self.unused(&d, broken, line);
            }
            SNode::Items(i) => {
                let rule = &RULES[*i];
                let n = self.r.range(0, 3);
                self.lines.push(format!("{path} = ["));
                for _ in 0..n {
                    let (v, bad) = self.value(*i);
                    let broken = bad.then_some(rule.name);
                    let mut d = self.dirs(rule, broken);
                    let tail = self.above(&mut d, false).unwrap_or_default();
                    let line = self.lines.len();
                    self.lines.push(format!("  {v},{tail}"));
                    if bad {
                        self.code(rule, &d, line);
                    }
                    self.unused(&d, broken, line);
                }
                self.lines.push("]".into());
            }
            SNode::Tab(t, 1) => {
                let mut d = self.tdirs(t);
                d.rules.retain(|x| !self.over.contains(&x.as_str()));
                let tail = self.above(&mut d, false).unwrap_or_default();
                let line = self.lines.len();
                let s = self.inline(t, line);
                self.lines.push(format!("{path} = {s}{tail}"));
                self.trule(t, &d, line);
            }
            SNode::Tab(t, _) => {
                let line = self.lines.len();
                let mut first = None;
                self.over.push(t.rule.map(|x| x.0).unwrap_or(""));
                for (k, n) in &t.kids {
                    self.item(&format!("{path}.{k}"), n);
                    // (the line of the first key, past its directives)
                    first = first.or((line..self.lines.len()).find(|l| !self.lines[*l].starts_with('#')));
                }
                self.over.pop();
                self.extra(t, path);
                let d = Dirs { rules: vec![], lead: false, line: 0 };
                self.trule(t, &d, first.unwrap_or(line));
            }
        }
    }
    fn tdirs(&mut self, t: &STab) -> Dirs {
        match t.rule {
            Some((n, true)) if n.starts_with("table-") && self.r.chance(1, 3) => Dirs { rules: vec![n.into()], lead: self.r.chance(1, 2), line: 0 },
            Some((n, false)) if n.starts_with("table-") && self.r.chance(1, 5) => Dirs { rules: vec![n.into()], lead: self.r.chance(1, 2), line: 0 },
            _ => Dirs { rules: vec![], lead: false, line: 0 },
        }
    }
    fn trule(&mut self, t: &STab, d: &Dirs, line: usize) {
        if let Some((n, bad)) = t.rule
            && n.starts_with("table-")
        {
            self.rules.insert(n.into());
            if bad {
                if d.rules.is_empty() {
                    add(&mut self.want, n, true, line);
                } else {
                    self.silenced += 1;
                }
            } else {
                self.unused(d, None, line);
            }
        }
    }
    /// a key the schema does not know
    fn extra(&mut self, t: &STab, path: &str) {
        let Some((n, true)) = t.rule else { return };
        let key = if path.is_empty() { "zz".to_string() } else { format!("{path}.zz") };
        match n {
            "key-not-allowed" | "key-pattern" => {
                self.rules.insert(n.into());
                let mut d = if self.r.chance(1, 3) { Dirs { rules: vec![n.into()], lead: self.r.chance(1, 2), line: 0 } } else { Dirs { rules: vec![], lead: false, line: 0 } };
                let tail = self.above(&mut d, false).unwrap_or_default();
                let line = self.lines.len();
                self.lines.push(format!("{key} = 1{tail}"));
                if d.rules.is_empty() {
                    add(&mut self.want, n, true, line);
                } else {
                    self.silenced += 1;
                }
            }
            "strict" => {
                if self.strict {
                    add(&mut self.want, "table-strict-additional-keys", false, self.lines.len());
                }
                self.lines.push(format!("{key} = 1"));
            }
            _ => {}
        }
    }
    fn inline(&mut self, t: &STab, line: usize) -> String {
        let mut parts = vec![];
        let none = Dirs { rules: vec![], lead: false, line: 0 };
        for (k, n) in &t.kids {
            self.inline_item(k, n, line, &mut parts);
        }
        if let Some((n, true)) = t.rule {
            match n {
                "key-not-allowed" | "key-pattern" => {
                    parts.push("zz = 1".into());
                    add(&mut self.want, n, true, line);
                }
                "strict" => {
                    parts.push("zz = 1".into());
                    if self.strict {
                        add(&mut self.want, "table-strict-additional-keys", false, line);
                    }
                }
                _ => {}
            }
        }
        let _ = none;
        format!("{{ {} }}", parts.join(", "))
    }
    fn inline_item(&mut self, path: &str, n: &SNode, line: usize, parts: &mut Vec<String>) {
        let none = Dirs { rules: vec![], lead: false, line: 0 };
        match n {
            SNode::Leaf(i) => {
                let (v, bad) = self.value(*i);
                if bad {
                    self.code(&RULES[*i], &none, line);
                }
                parts.push(format!("{path} = {v}"));
            }
            SNode::Items(i) => {
                let n = self.r.range(0, 3);
                let mut vs = vec![];
                for _ in 0..n {
                    let (v, bad) = self.value(*i);
                    if bad {
                        self.code(&RULES[*i], &none, line);
                    }
                    vs.push(v);
                }
                parts.push(format!("{path} = [{}]", vs.join(", ")));
            }
            SNode::Tab(t, 1) => {
                let s = self.inline(t, line);
                self.trule(t, &none, line);
                parts.push(format!("{path} = {s}"));
            }
            SNode::Tab(t, _) => {
                for (k, n) in &t.kids {
                    self.inline_item(&format!("{path}.{k}"), n, line, parts);
                }
                if let Some((n, true)) = t.rule {
                    if n == "key-not-allowed" || n == "key-pattern" || n == "strict" {
                        parts.push(format!("{path}.zz = 1"));
                    }
                    match n {
                        "key-not-allowed" | "key-pattern" => add(&mut self.want, n, true, line),
                        "strict" if self.strict => add(&mut self.want, "table-strict-additional-keys", false, line),
                        _ => {}
                    }
                }
                self.trule(t, &none, line);
            }
        }
    }
    /// what stands below a header
    fn body(&mut self, t: &STab, path: &str) {
        let (subs, items): (Vec<_>, Vec<_>) = t.kids.iter().partition(|(_, n)| matches!(n, SNode::Tab(_, 0 | 3)));
        for (k, n) in items {
            if self.r.chance(1, 8) {
                self.lines.push(String::new());
            }
            self.item(k, n);
        }
        self.extra(t, "");
        for (k, n) in subs {
            let SNode::Tab(sub, st) = n else { continue };
            let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
            let count = if *st == 3 { self.r.range(1, 2) } else { 1 };
            for _ in 0..count {
                if self.r.chance(3, 4) {
                    self.lines.push(String::new());
                }
                let mut d = if *st == 3 { Dirs { rules: vec![], lead: false, line: 0 } } else { self.tdirs(sub) };
                let tail = self.above(&mut d, false).unwrap_or_default();
                let line = self.lines.len();
                // a table that needs no header of its own
                let implied = *st == 0 && d.rules.is_empty() && sub.rule.is_none() && sub.kids.iter().all(|(_, n)| matches!(n, SNode::Tab(_, 0 | 3)));
                if !implied || self.r.chance(1, 3) {
                    self.lines.push(if *st == 3 { format!("[[{p}]]{tail}") } else { format!("[{p}]{tail}") });
                }
                self.trule(sub, &d, line);
                self.body(sub, &p);
            }
        }
    }
}

/// (name, schema, document, whether there is nothing to report)
const PINNED: &[(&str, &str, &str, bool)] = &[
    ("table-rule-on-array-of-tables-header", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"k":{"type":"array","items":{"type":"object","minProperties":2}}}}"##, "[[k]] # tombi: lint.rules.table-min-keys.disabled = true\na = 1\n", true),
    ("table-rule-on-table-header", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"k":{"type":"object","minProperties":2}}}"##, "[k] # tombi: lint.rules.table-min-keys.disabled = true\na = 1\n", true),
    ("nested-array", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"k":{"type":"array","items":{"type":"array","minItems":2}}}}"##, "k = [\n  [1], # tombi: lint.rules.array-min-values.disabled = true\n  # tombi: lint.rules.array-min-values.disabled = true\n  [2],\n  [3] # tombi: lint.rules.array-min-values.disabled = true\n]\n", true),
    ("nested-array-other", r##"{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"k":{"type":"array","items":{"type":"array","minItems":2}}}}"##, "k = [\n  [1], # tombi: lint.rules.array-min-values.disabled = true\n  [2],\n]\n", false),
];
impl Lintr {
    fn store(&mut self, schema: &J) -> tombi_schema_store::SchemaStore {
        let _ = std::fs::create_dir_all(&self.dir);
        std::fs::write(self.dir.join("s.json"), schema.to_string()).unwrap();
        tombi_schema_store::SchemaStore::new()
    }
    fn lint_with(&self, store: &tombi_schema_store::SchemaStore, text: &str) -> Result<Vec<D>, String> {
        let doc = self.dir.join("d.toml");
        let lo = LintOptions::default();
        guard(|| {
            self.env.rt.block_on(async {
                match tombi_linter::Linter::new(TomlVersion::V1_0_0, &lo, Some(itertools::Either::Right(&doc)), store).lint(text).await {
                    Ok(()) => vec![],
                    Err(ds) => ds.iter().map(d_of).collect(),
                }
            })
        })
    }
    fn pin(&mut self, i: usize, rep: &mut Rep) {
        let (name, schema, doc, want) = PINNED[i];
        let schema: J = serde_json::from_str(schema).unwrap();
        let text = format!("#:schema ./s.json\n#:tombi schema.strict = false\n\n{doc}");
        rep.eval(&text, true);
        rep.count("pinned");
        let store = self.store(&schema);
        match self.lint_with(&store, &text) {
            Err(p) => rep.viol(panic_sig(&p), p.clone(), json!({"doc": text, "schema": schema})),
            Ok(ds) => {
                if ds.is_empty() != want {
                    rep.viol(format!("pinned:{name}"), format!("{doc:?} under {schema}: {ds:?}"), json!({"doc": text, "schema": schema}));
                }
            }
        }
    }
    fn schema(&mut self, r: &mut Rng, rep: &mut Rep) {
        rep.count("schema");
        let root = gen_stab(r, 3, 9);
        let mut schema = schema_of(&root);
        let strict = r.chance(1, 2);
        schema["$schema"] = json!(*r.pick(&["http://json-schema.org/draft-07/schema#", "https://json-schema.org/draft/2020-12/schema"]));
        schema["x-tombi-string-formats"] = json!(["ipv4"]);
        let store = self.store(&schema);
        for _ in 0..4 {
            self.document(&root, &schema, strict, &store, r, rep);
        }
    }
    fn document(&mut self, root: &STab, schema: &J, strict: bool, store: &tombi_schema_store::SchemaStore, r: &mut Rng, rep: &mut Rep) {
        let mut ren = Ren { r, lines: vec!["#:schema ./s.json".into()], want: Want::new(), strict, rules: BTreeSet::new(), silenced: 0, unused: 0, over: vec![] };
        if !strict {
            ren.lines.push("#:tombi schema.strict = false".into());
        }
        let top = ren.tdirs(root);
        for t in &top.rules {
            ren.lines.push(format!("# tombi: lint.rules.{t}.disabled = true"));
        }
        let top = Dirs { line: ren.lines.len() - 1, ..top };
        ren.lines.push(String::new());
        ren.trule(root, &top, usize::MAX);
        ren.body(root, "");
        let text = ren.lines.join("\n") + "\n";
        let (want, lines) = (ren.want, ren.lines);
        for x in &ren.rules {
            rep.count(&format!("rule_{x}"));
        }
        rep.add("silenced", ren.silenced);
        rep.add("unused", ren.unused);
        rep.eval(&format!("{text}{schema}"), !want.is_empty() || ren.silenced > 0);
        let got = self.lint_with(store, &text);
        let input = json!({"doc": text, "schema": schema});
        let got = match got {
            Ok(g) => g,
            Err(p) => return rep.viol(panic_sig(&p), p.clone(), input),
        };
        let mut have = Want::new();
        for d in &got {
            // (the range of an array in an array begins at the end of what is before it)
            let mut at = text[..skip(&text, offset(&text, d.sl, d.sc))].matches('\n').count();
            if d.code == "unused-noqa" {
                at = d.sl as usize;
            }
            add(&mut have, &d.code, d.error, at);
        }
        // (the root's own range is that of the text)
        for k in want.keys().filter(|k| k.2 == usize::MAX) {
            if let Some(e) = have.keys().find(|h| h.0 == k.0 && h.1 == k.1 && have[*h] > want.get(*h).copied().unwrap_or(0)).cloned() {
                match have.get_mut(&e) {
                    Some(n) if *n > 1 => *n -= 1,
                    _ => drop(have.remove(&e)),
                }
                add(&mut have, &k.0, k.1, usize::MAX);
            }
        }
        if have != want {
            let (w, h): (BTreeSet<_>, BTreeSet<_>) = (want.iter().collect(), have.iter().collect());
            let s = |x: &(&(String, bool, usize), &u32)| format!("{}x {} {} line {} {:?}", x.1, x.0.0, if x.0.1 { "error" } else { "warning" }, x.0.2.wrapping_add(1), lines.get(x.0.2));
            let miss: Vec<_> = w.difference(&h).map(|x| s(x)).collect();
            let more: Vec<_> = h.difference(&w).map(|x| s(x)).collect();
            let sig = miss.first().map(|x| format!("missing:{}", x.split(' ').nth(1).unwrap())).unwrap_or_else(|| format!("unasked:{}", more[0].split(' ').nth(1).unwrap()));
            rep.viol(sig, format!("{text}\n{schema}\nmissing {miss:?}\nunasked {more:?}"), input);
        }
        if self.n % 2000 == 1 {
            rep.sample(&text);
        }
    }
}
