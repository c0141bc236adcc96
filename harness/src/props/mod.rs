pub mod assoc;
pub mod cli;
pub mod files;
pub mod layout;
pub mod lintr;
pub mod lsp;
pub mod lspa;
pub mod lspr;
pub mod mem;
pub mod schema;
pub mod sort;
pub mod toml;

use crate::driver::Spec;

pub fn all() -> Vec<Spec> {
    let mut v = vec![];
    v.extend(toml::specs());
    v.extend(cli::specs());
    v.extend(files::specs());
    v.extend(schema::specs());
    v.extend(lsp::specs());
    v.extend(lspr::specs());
    v.extend(lspa::specs());
    v.extend(sort::specs());
    v.extend(mem::specs());
    v.extend(layout::specs());
    v.extend(lintr::specs());
    v.extend(assoc::specs());
    v
}
