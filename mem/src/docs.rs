//! Texts through the parser, the typed tree and the document tree, and edits of the parsed tree.
use std::collections::HashMap;

use tombi_ast::{AstNode, GetHeaderAccessors};
use tombi_document_tree::{IntoDocumentTreeAndErrors, Value};
use tombi_toml_version::TomlVersion;

use super::Rng;

const VALUES: &[&str] = &[
    "1", "0x1F", "1.5", "-inf", "nan", "true", "\"s\"", "'l'", "\"\\u00e9\\n\"", "\"\"\"\nm\\\n  x\"\"\"", "'''\nq'''",
    "1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "[]", "{}", "[1, 2]", "[ # c\n 1, # d\n # e\n]", "{ a = 1, b.c = 2 }",
    "[[1], [{ x = 1 }]]", "日", "\"unclosed", "[1, ", "{ a = ",
];
const KEYS: &[&str] = &["a", "b.c", "\"q k\"", "'l'.x", "é", "1.2", "a.", "", "\"\".b"];
const LINES: &[&str] = &["", "# comment", "#:schema ./s.json", "# tombi: format.rules.x = 1", "   ", "= 1", "[", "]]", "\u{0}", "\u{feff}"];

fn text(r: &mut Rng, small: bool) -> String {
    let mut s = String::new();
    let n = 1 + r.below(if small { 4 } else { 30 });
    for _ in 0..n {
        match r.below(8) {
            0 => s.push_str(&format!("[{}]", r.pick(KEYS))),
            1 => s.push_str(&format!("[[{}]]", r.pick(KEYS))),
            2 => s.push_str(r.pick(LINES)),
            _ => s.push_str(&format!("{} = {}", r.pick(KEYS), r.pick(VALUES))),
        }
        if r.chance(1, 5) {
            s.push_str(" # é trailing");
        }
        s.push_str(if r.chance(1, 9) { "\r\n" } else { "\n" });
    }
    if r.chance(1, 4) {
        let cut: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let a = cut[r.below(cut.len())];
        s.truncate(a);
    }
    s
}
fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.values().iter().map(count).sum(),
        Value::Table(t) => t.values().map(count).sum(),
        _ => 0,
    }
}

pub fn run(seed: u64, st: &mut HashMap<&'static str, u64>, small: bool) {
    let r = &mut Rng::new(seed);
    let mut n = |k: &'static str, c: usize| *st.entry(k).or_default() += c as u64;
    let src = text(r, small);
    let parsed = tombi_parser::parse(&src);
    let node = parsed.syntax_node();
    assert_eq!(node.text().to_string(), src, "the text of the tree");
    // every element, with its kind read back
    let els: Vec<tombi_syntax::SyntaxElement> = node.descendants_with_tokens().collect();
    n("elements", els.len());
    let mut leaves = String::new();
    for e in &els {
        let k = format!("{:?}", e.kind());
        assert!(!k.is_empty());
        if let Some(t) = e.as_token() {
            leaves.push_str(t.text());
        }
    }
    assert_eq!(leaves, src, "the leaves of the tree");
    if r.chance(1, 2) {
        drop(els);
    }
    let keep = node.clone();
    drop(node);
    let (root, errors) = parsed.clone().into_root_and_errors();
    n("syntax errors", errors.len());
    for x in root.syntax().descendants() {
        n("comments", {
            if let Some(kv) = tombi_ast::KeyValue::cast(x.clone()) {
                kv.leading_comments().count() + kv.trailing_comment().is_some() as usize
            } else if let Some(t) = tombi_ast::Table::cast(x.clone()) {
                if let Some(a) = t.header().and_then(|h| h.keys().next().map(|_| ())) {
                    let _ = a;
                    let _ = t.get_header_accessors(TomlVersion::V1_0_0);
                }
                t.header_leading_comments().count() + t.header_trailing_comment().is_some() as usize
            } else if let Some(a) = tombi_ast::Array::cast(x.clone()) {
                a.leading_comments().count() + a.values().count()
            } else {
                0
            }
        });
    }
    let v = if r.chance(1, 2) { TomlVersion::V1_0_0 } else { TomlVersion::V1_1_0_Preview };
    let (tree, errs) = root.into_document_tree_and_errors(v).into();
    n("document errors", errs.len());
    let table: tombi_document_tree::Table = tree.into();
    n("values", table.values().map(count).sum());
    drop(table);
    // edits of the same green tree, while the first tree still lives
    let m = parsed.into_syntax_node_mut();
    for _ in 0..r.below(if small { 4 } else { 12 }) {
        let els: Vec<tombi_syntax::SyntaxElement> = m.descendants_with_tokens().collect();
        let x = els[r.below(els.len())].clone();
        if x.parent().is_none() {
            continue;
        }
        n("edits", 1);
        match r.below(3) {
            0 => x.detach(),
            1 => {
                let p = x.parent().unwrap();
                let i = x.index();
                p.splice_children(i..i + 1, vec![]);
            }
            _ => {
                // moved to the end of the root
                x.detach();
                let end = m.children_with_tokens().count();
                m.splice_children(end..end, vec![x]);
            }
        }
    }
    let after = m.text().to_string();
    let leaves: String =
        m.descendants_with_tokens().filter_map(|e| e.into_token()).map(|t| t.text().to_string()).collect();
    assert_eq!(after, leaves, "the text of the edited tree");
    drop(m);
    assert_eq!(keep.text().to_string(), src, "the first tree, after the edits");
}
