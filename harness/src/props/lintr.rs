//! P17: which rule is reported where, at which severity, and what a directive silences.
use crate::driver::*;
use crate::env::*;
use crate::rng::Rng;
use serde_json::{Map, Value as J, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use tombi_config::{LintOptions, TomlVersion};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "P17",
        quick_cases: 40_000,
        quick_s: 45,
        thorough_cases: 100_000_000,
        thorough_s: 1200,
        workers: 8,
        level: "exploration",
        rule: "one evaluation = one document linted, the set of (rule, severity, place) it reports compared with the one worked out from how the document was made; distinct non-trivial = distinct documents that break at least one rule or carry a directive",
        assumptions: &["tables that are written by dotted keys or implied by deeper headers carry no directive of their own", "a disabled rule that would not have fired is asked to be reported as unused only for the rules for which the tool says so"],
        must: &["style", "schema", "dotted", "tables", "key-empty", "level_off", "level_error", "silenced", "unused", "lint_disabled", "rule_type-mismatch", "rule_const-value", "rule_enum", "rule_deprecated", "rule_integer-multiple-of", "rule_float-maximum", "rule_string-pattern", "rule_array-unique-values", "rule_table-key-required", "rule_key-not-allowed", "rule_key-pattern", "rule_not-schema-match", "rule_one-of-multiple-match"],
        make: |c| Box::new(Lintr { dir: c.scratch.join(format!("l{}", c.worker)), env: Env::new(), n: 0 }),
    }]
}

struct Lintr {
    dir: PathBuf,
    env: Env,
    n: u64,
}

/// (code, error?, offset or line)
type Want = BTreeMap<(String, bool, usize), u32>;
fn add(w: &mut Want, code: &str, error: bool, at: usize) {
    *w.entry((code.to_string(), error, at)).or_default() += 1;
}

// ------------------------------------------------------------------------------------------------- style rules
/// one key part as written, and as read
fn part(r: &mut Rng, pool: usize) -> (String, String) {
    let names = ["a", "b", "c", "d-1", "e", "1"];
    if r.chance(1, 25) {
        return (if r.chance(1, 2) { "\"\"" } else { "''" }.into(), "".into());
    }
    let n = names[r.below(pool.min(names.len()))];
    let s = match r.below(12) {
        0 => format!("\"{n}\""),
        1 => format!("'{n}'"),
        2 => format!("\"\\u{:04x}{}\"", n.chars().next().unwrap() as u32, &n[1..]),
        _ => n.to_string(),
    };
    (s, n.to_string())
}
struct Kv {
    key: Vec<(String, String)>,
    val: Val,
    /// directives above it and at its end
    lead: Vec<String>,
    trail: Option<String>,
}
enum Val {
    Int,
    Inline(Vec<Kv>),
    Arr(Vec<Val>),
}
struct Sec {
    aot: bool,
    key: Vec<(String, String)>,
    kvs: Vec<Kv>,
    lead: Vec<String>,
    trail: Option<String>,
}
fn gen_val(r: &mut Rng, depth: usize) -> Val {
    match r.below(if depth == 0 { 1 } else { 8 }) {
        5 | 6 => Val::Inline(gen_kvs(r, depth - 1, 4)),
        7 => {
            let n = r.range(1, 2);
            Val::Arr((0..n).map(|_| gen_val(r, depth - 1)).collect())
        }
        _ => Val::Int,
    }
}
fn gen_kvs(r: &mut Rng, depth: usize, max: usize) -> Vec<Kv> {
    let n = r.below(max + 1);
    let pool = r.range(2, 5);
    let mut seen: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut out = vec![];
    for _ in 0..n {
        let len = *r.pick(&[1, 1, 2, 2, 2, 3]);
        let key: Vec<(String, String)> = (0..len).map(|i| part(r, if i == 0 { pool } else { 6 })).collect();
        let k: Vec<String> = key.iter().map(|p| p.1.clone()).collect();
        // a key may not be given twice, nor be both a value and a table
        if seen.iter().any(|s| s.starts_with(&k) || k.starts_with(s)) {
            continue;
        }
        seen.insert(k);
        out.push(Kv { key, val: gen_val(r, depth), lead: vec![], trail: None });
    }
    out
}
struct Out {
    text: String,
    want: Want,
    next: u32,
    dotted: Option<bool>, // None: off
}
fn spell(k: &[(String, String)], r: &mut Rng) -> String {
    let sep = if r.chance(1, 8) { " . " } else { "." };
    k.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(sep)
}
/// the keys whose group is torn apart
fn torn(kvs: &[Kv]) -> Vec<bool> {
    let first: Vec<&str> = kvs.iter().map(|k| k.key[0].1.as_str()).collect();
    first
        .iter()
        .map(|f| {
            let at: Vec<usize> = first.iter().enumerate().filter(|x| x.1 == f).map(|x| x.0).collect();
            at.last().unwrap() - at[0] + 1 != at.len()
        })
        .collect()
}
impl Out {
    fn val(&mut self, v: &Val, silent: bool, r: &mut Rng) {
        match v {
            Val::Int => {
                self.next += 1;
                self.text += &format!("{}", 1000 + self.next);
            }
            Val::Arr(vs) => {
                self.text += "[";
                for (i, x) in vs.iter().enumerate() {
                    if i > 0 {
                        self.text += ", ";
                    }
                    self.val(x, false, r);
                }
                self.text += "]";
            }
            Val::Inline(kvs) => {
                self.text += "{ ";
                let t = torn(kvs);
                for (i, k) in kvs.iter().enumerate() {
                    if i > 0 {
                        self.text += ", ";
                    }
                    let at = self.text.len();
                    if t[i] && !silent && let Some(e) = self.dotted {
                        add(&mut self.want, "dotted-keys-out-of-order", e, at);
                    }
                    self.text += &spell(&k.key, r);
                    self.text += " = ";
                    self.val(&k.val, false, r);
                }
                self.text += " }";
            }
        }
    }
    fn kvs(&mut self, kvs: &[Kv], silent: bool, r: &mut Rng) {
        let t = torn(kvs);
        for (i, k) in kvs.iter().enumerate() {
            if r.chance(1, 6) {
                self.text += "\n";
            }
            for l in &k.lead {
                self.text += &format!("# {l}\n");
            }
            if k.lead.is_empty() && r.chance(1, 10) {
                self.text += "# about it\n";
            }
            let at = self.text.len();
            if t[i] && !silent && let Some(e) = self.dotted {
                add(&mut self.want, "dotted-keys-out-of-order", e, at);
            }
            self.text += &spell(&k.key, r);
            self.text += " = ";
            let quiet = k.lead.iter().chain(&k.trail).any(|d| silences(d, "dotted-keys-out-of-order"));
            self.val(&k.val, quiet, r);
            if let Some(t) = &k.trail {
                self.text += &format!(" # {t}");
            } else if r.chance(1, 10) {
                self.text += " # and so";
            }
            self.text += "\n";
        }
    }
}
fn silences(d: &str, rule: &str) -> bool {
    d.contains(&format!("{rule}.disabled = true")) || (d.contains("table-keys-order.disabled = true") && rule.ends_with("out-of-order"))
}
fn level(r: &mut Rng, o: &mut Map<String, J>, k: &str, rep: &mut Rep) -> Option<bool> {
    match r.below(6) {
        0 => {
            o.insert(k.into(), json!("off"));
            rep.count("level_off");
            None
        }
        1 => {
            o.insert(k.into(), json!("error"));
            rep.count("level_error");
            Some(true)
        }
        2 => {
            o.insert(k.into(), json!("warn"));
            Some(false)
        }
        _ => Some(false),
    }
}
/// an offset past comments and blank space
fn skip(t: &str, mut at: usize) -> usize {
    loop {
        let rest = &t[at.min(t.len())..];
        let n = rest.len() - rest.trim_start().len();
        at += n;
        if t[at.min(t.len())..].starts_with('#') {
            at += t[at..].find('\n').unwrap_or(t.len() - at);
        } else if n == 0 {
            return at;
        }
    }
}
fn offset(t: &str, line: u32, col: u32) -> usize {
    let mut at = 0;
    for _ in 0..line {
        at += t[at..].find('\n').map(|x| x + 1).unwrap_or(t.len() - at);
    }
    at + t[at..].char_indices().nth(col as usize).map(|x| x.0).unwrap_or(t.len() - at)
}
/// the paths of tables and values whose last part is empty, counted
fn empties(v: &crate::val::V) -> u32 {
    use crate::val::V;
    match v {
        V::Tab(t) => t.iter().map(|(k, v)| u32::from(k.is_empty()) + empties(v)).sum(),
        V::Arr(a) => a.iter().map(empties).sum(),
        _ => 0,
    }
}

impl Lintr {
    fn style(&mut self, r: &mut Rng, rep: &mut Rep) {
        rep.count("style");
        let mut lo = Map::new();
        let ke = level(r, &mut lo, "key-empty", rep);
        let dk = level(r, &mut lo, "dotted-keys-out-of-order", rep);
        let tk = level(r, &mut lo, "tables-out-of-order", rep);
        let opts: LintOptions = serde_json::from_value(json!({"rules": lo})).unwrap();
        let mut root = gen_kvs(r, 2, 7);
        let mut secs: Vec<Sec> = vec![];
        let n = r.below(7);
        for _ in 0..n {
            let len = *r.pick(&[1, 2, 2, 3]);
            let pool = 3;
            let key: Vec<(String, String)> = (0..len).map(|i| part(r, if i == 0 { pool } else { 4 })).collect();
            secs.push(Sec { aot: r.chance(1, 4), key, kvs: gen_kvs(r, 2, 5), lead: vec![], trail: None });
        }
        // directives
        let dirs = ["tombi: lint.rules.dotted-keys-out-of-order.disabled = true", "tombi: format.rules.table-keys-order.disabled = true", "tombi: lint.rules = { dotted-keys-out-of-order.disabled = true }", "tombi: lint.rules.unused-noqa.disabled = true", "nothing"];
        let mut top: Vec<String> = vec![];
        if r.chance(1, 6) {
            top.push(if r.chance(1, 3) { "tombi: lint.rules.tables-out-of-order.disabled = true".into() } else { (*r.pick(&dirs)).into() });
        }
        for s in &mut secs {
            if r.chance(1, 5) {
                let d: String = (*r.pick(&dirs)).into();
                if r.chance(1, 2) { s.lead.push(d) } else { s.trail = Some(d) }
            }
        }
        let all: Vec<&mut Vec<Kv>> = std::iter::once(&mut root).chain(secs.iter_mut().map(|s| &mut s.kvs)).collect();
        let mut gone = 0;
        for kvs in all {
            for k in kvs.iter_mut() {
                if k.key.len() > 1 {
                    continue;
                }
                if matches!(k.val, Val::Inline(_)) && r.chance(1, 4) {
                    let d: String = (*r.pick(&dirs)).into();
                    if r.chance(1, 2) { k.lead.push(d) } else { k.trail = Some(d) }
                } else if k.key[0].1.is_empty() && r.chance(1, 2) {
                    gone += 1;
                    let d = "tombi: lint.rules.key-empty.disabled = true".to_string();
                    if r.chance(1, 2) { k.lead.push(d) } else { k.trail = Some(d) }
                }
            }
        }
        let mut o = Out { text: String::new(), want: Want::new(), next: 0, dotted: dk };
        for t in &top {
            o.text += &format!("# {t}\n");
        }
        if !top.is_empty() {
            o.text += "\n";
        }
        o.kvs(&root, top.iter().any(|d| silences(d, "dotted-keys-out-of-order")), r);
        let mut heads = vec![];
        for s in &secs {
            if r.chance(1, 2) {
                o.text += "\n";
            }
            for l in &s.lead {
                o.text += &format!("# {l}\n");
            }
            heads.push(o.text.len());
            let k = spell(&s.key, r);
            o.text += &if s.aot { format!("[[{k}]]") } else { format!("[{k}]") };
            if let Some(t) = &s.trail {
                o.text += &format!(" # {t}");
            }
            o.text += "\n";
            o.kvs(&s.kvs, s.lead.iter().chain(&s.trail).any(|d| silences(d, "dotted-keys-out-of-order")), r);
        }
        if !top.iter().any(|d| silences(d, "tables-out-of-order"))
            && let Some(e) = tk
        {
            for (i, s) in secs.iter().enumerate() {
                let at: Vec<usize> = secs.iter().enumerate().filter(|x| x.1.key[0].1 == s.key[0].1).map(|x| x.0).collect();
                if at.last().unwrap() - at[0] + 1 != at.len() {
                    add(&mut o.want, "tables-out-of-order", e, heads[i]);
                }
            }
        }
        let Ok(data) = crate::val::reference(&o.text, false) else {
            rep.count("not_valid");
            return;
        };
        let disabled = top.is_empty() && r.chance(1, 30);
        let mut text = o.text.clone();
        if disabled {
            text = format!("#:tombi lint.disabled = true\n\n{text}");
        }
        let got = match guard(|| self.env.lint(&text, TomlVersion::V1_0_0, &opts)) {
            Ok(g) => g,
            Err(p) => return rep.viol(panic_sig(&p), p.clone(), json!({"doc": text})),
        };
        if disabled {
            rep.count("lint_disabled");
            rep.eval(&text, !o.want.is_empty());
            if !got.is_empty() {
                rep.viol("lint-disabled", format!("{text:?}: {got:?} despite lint.disabled"), json!({"doc": text}));
            }
            return;
        }
        // (the reference lets dotted keys into tables that headers only imply)
        if got.iter().any(|d| d.code == "conflict-table" || d.code == "duplicate-key") {
            rep.count("not_valid");
            return;
        }
        let mut have = Want::new();
        let (mut em, mut em_lvl) = (BTreeSet::new(), BTreeSet::new());
        let mut odd = vec![];
        for d in &got {
            let at = skip(&text, offset(&text, d.sl, d.sc));
            match d.code.as_str() {
                "key-empty" => {
                    if !em.insert(offset(&text, d.sl, d.sc)) || !(text[at..].starts_with("\"\"") || text[at..].starts_with("''")) {
                        odd.push(format!("{d:?}"));
                    }
                    em_lvl.insert(d.error);
                }
                "dotted-keys-out-of-order" | "tables-out-of-order" => add(&mut have, &d.code, d.error, at),
                _ => odd.push(format!("{d:?}")),
            }
        }
        for w in o.want.keys() {
            rep.count(w.0.split('-').next().unwrap());
        }
        rep.eval(&text, !o.want.is_empty() || text.contains("tombi:"));
        // an error among the rules of the text keeps the data from being looked at
        let blocked = o.want.keys().any(|w| w.1);
        let e = if blocked || ke.is_none() { 0 } else { empties(&data) - gone };
        if e > 0 {
            rep.count("key-empty");
        }
        if gone > 0 || text.contains("disabled = true") {
            rep.count("silenced");
        }
        let input = json!({"doc": text, "rules": lo});
        if have != o.want {
            let (w, h): (BTreeSet<_>, BTreeSet<_>) = (o.want.iter().collect(), have.iter().collect());
            let miss: Vec<_> = w.difference(&h).map(|x| show(&text, x)).collect();
            let more: Vec<_> = h.difference(&w).map(|x| show(&text, x)).collect();
            rep.viol("style", format!("rules {lo:?}\n{text}\nmissing {miss:?}\nunasked {more:?}"), input);
        } else if !odd.is_empty() {
            rep.viol("style-odd", format!("rules {lo:?}\n{text}\n{odd:?}"), input);
        } else if em.len() as u32 != e || em_lvl.iter().any(|l| Some(*l) != ke) {
            rep.viol("key-empty", format!("rules {lo:?}\n{text}\n{} empty keys to report, reported {em:?} {em_lvl:?}", e), input);
        }
        if self.n % 2000 == 1 {
            rep.sample(&text);
        }
    }
}
fn show(text: &str, x: &(&(String, bool, usize), &u32)) -> String {
    format!("{}x {} {} at {:?}", x.1, x.0.0, if x.0.1 { "error" } else { "warning" }, text[x.0.2..].chars().take(16).collect::<String>())
}
include!("lintr_schema.in.rs");

impl Check for Lintr {
    fn pinned(&self) -> u64 {
        PINNED.len() as u64
    }
    fn case(&mut self, idx: u64, r: &mut Rng, rep: &mut Rep) {
        if (idx as usize) < PINNED.len() {
            return self.pin(idx as usize, rep);
        }
        self.n += 1;
        if r.chance(1, 2) { self.style(r, rep) } else { self.schema(r, rep) }
    }
}
