//! Random formatter options, as JSON (for the library) and as TOML (for a config file).
use crate::rng::Rng;
use serde_json::{Map, Value as J, json};

pub fn random_rules(r: &mut Rng) -> Map<String, J> {
    let mut m = Map::new();
    if r.chance(1, 3) {
        return m;
    }
    let dens = r.range(1, 3);
    let on = |r: &mut Rng| r.chance(1, dens + 1);
    if on(r) {
        m.insert("array-bracket-space-width".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("array-comma-space-width".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("comment-style".into(), json!(r.pick_str(&["normalize", "preserve"])));
    }
    if on(r) {
        m.insert("date-time-delimiter".into(), json!(r.pick_str(&["T", "space", "preserve"])));
    }
    if on(r) {
        m.insert("group-blank-lines-limit".into(), json!(r.range(1, 3)));
    }
    if on(r) {
        m.insert("indent-style".into(), json!(r.pick_str(&["space", "tab"])));
    }
    if on(r) {
        m.insert("indent-sub-tables".into(), json!(r.chance(1, 2)));
    }
    if on(r) {
        m.insert("indent-table-key-value-pairs".into(), json!(r.chance(1, 2)));
    }
    if on(r) {
        m.insert("indent-width".into(), json!(r.below(9)));
    }
    if on(r) {
        m.insert("inline-table-brace-space-width".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("inline-table-comma-space-width".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("key-value-equals-sign-alignment".into(), json!(r.chance(1, 2)));
    }
    if on(r) {
        m.insert("key-quote-style".into(), json!(r.pick_str(&["double", "single", "preserve"])));
    }
    if on(r) {
        m.insert("string-quote-style".into(), json!(r.pick_str(&["double", "single", "preserve"])));
    }
    if on(r) {
        m.insert("trailing-comment-alignment".into(), json!(r.chance(1, 2)));
    }
    if on(r) {
        m.insert("key-value-equals-sign-space-width".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("line-ending".into(), json!(r.pick_str(&["auto", "lf", "crlf"])));
    }
    if on(r) {
        m.insert("line-width".into(), json!(*r.pick(&[1, 10, 20, 40, 80, 120, 255])));
    }
    if on(r) {
        m.insert("table-blank-lines".into(), json!(r.below(4)));
    }
    if on(r) {
        m.insert("trailing-comment-space-width".into(), json!(r.below(5)));
    }
    m
}

pub fn options(rules: &Map<String, J>) -> tombi_config::FormatOptions {
    serde_json::from_value(json!({"rules": rules})).unwrap_or_else(|e| panic!("harness: bad options {rules:?}: {e}"))
}

pub fn rules_toml(rules: &Map<String, J>) -> String {
    let mut s = String::from("[format.rules]\n");
    for (k, v) in rules {
        s.push_str(&format!("{k} = {v}\n"));
    }
    s
}

pub fn toml_version(v11: bool) -> tombi_config::TomlVersion {
    if v11 { tombi_config::TomlVersion::V1_1_0 } else { tombi_config::TomlVersion::V1_0_0 }
}
