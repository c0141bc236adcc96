pub mod cli;
pub mod driver;
pub mod env;
pub mod gen_;
pub mod glob;
pub mod lsp;
pub mod opts;
pub mod props;
pub mod rng;
pub mod scan;
pub mod val;
pub mod jschema;
pub mod tomlw;
