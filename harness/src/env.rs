//! In-process access to tombi: parse, decode, format, lint.
use crate::val::V;
use std::path::Path;
use tombi_ast::AstNode;
use tombi_config::TomlVersion;
use tombi_document_tree::{IntoDocumentTreeAndErrors, TryIntoDocumentTree};

pub struct Env {
    pub rt: tokio::runtime::Runtime,
    pub store: tombi_schema_store::SchemaStore,
}

impl Default for Env {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct D {
    pub sl: u32,
    pub sc: u32,
    pub el: u32,
    pub ec: u32,
    pub error: bool,
    pub code: String,
    pub msg: String,
}

pub fn d_of(d: &tombi_diagnostic::Diagnostic) -> D {
    let r = d.range();
    D {
        sl: r.start.line,
        sc: r.start.column,
        el: r.end.line,
        ec: r.end.column,
        error: d.is_error(),
        code: d.code().to_string(),
        msg: d.message().to_string(),
    }
}

impl Env {
    pub fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        Env { rt, store: tombi_schema_store::SchemaStore::new() }
    }
    pub fn format(&self, src: &str, v: TomlVersion, o: &tombi_config::FormatOptions) -> Result<String, Vec<D>> {
        self.format_at(src, v, o, None)
    }
    pub fn format_at(&self, src: &str, v: TomlVersion, o: &tombi_config::FormatOptions, path: Option<&Path>) -> Result<String, Vec<D>> {
        self.rt.block_on(async {
            tombi_formatter::Formatter::new(v, o, path.map(itertools::Either::Right), &self.store)
                .format(src)
                .await
                .map_err(|ds| ds.iter().map(d_of).collect())
        })
    }
    pub fn lint(&self, src: &str, v: TomlVersion, o: &tombi_config::LintOptions) -> Vec<D> {
        self.lint_at(src, v, o, None)
    }
    pub fn lint_at(&self, src: &str, v: TomlVersion, o: &tombi_config::LintOptions, path: Option<&Path>) -> Vec<D> {
        self.rt.block_on(async {
            match tombi_linter::Linter::new(v, o, path.map(itertools::Either::Right), &self.store).lint(src).await {
                Ok(()) => vec![],
                Err(ds) => ds.iter().map(d_of).collect(),
            }
        })
    }
    /// what the tool takes this text to be: decoded data, or the error messages (as toml-test's decoder in /repo does)
    pub fn decode(&self, src: &str, v: TomlVersion) -> Result<V, Vec<String>> {
        let lo = tombi_config::LintOptions::default();
        let errs: Vec<String> = self.lint(src, v, &lo).into_iter().filter(|d| d.error).map(|d| format!("{}@{}:{} {}", d.code, d.sl, d.sc, d.msg)).collect();
        if !errs.is_empty() {
            return Err(errs);
        }
        let p = tombi_parser::parse(src);
        if !p.errors.is_empty() {
            return Err(p.errors.iter().map(|e| format!("parse: {e}")).collect());
        }
        let Some(root) = tombi_ast::Root::cast(p.into_syntax_node()) else { return Err(vec!["root cast".into()]) };
        let tree = root.try_into_document_tree(v).map_err(|es| es.iter().map(|e| format!("tree: {e}")).collect::<Vec<_>>())?;
        let t: tombi_document_tree::Table = tree.into();
        crate::val::from_table(&t).map_err(|e| vec![e])
    }
    /// the (possibly incomplete) tree, for totality
    pub fn tree_any(&self, src: &str, v: TomlVersion) -> usize {
        let (root, errs) = tombi_parser::parse(src).into_root_and_errors();
        let x = root.into_document_tree_and_errors(v);
        errs.len() + x.errors.len()
    }
}
