//! Reference models. Nothing here calls the crate under test except `view`
//! and `build`, which move values across the public API.
pub mod dec;
pub mod machine;
pub mod parse;
pub mod ser;
pub mod api;
pub mod value;

pub use dec::{Dec, Num};
pub use machine::Machine;
pub use parse::{ref_parse, RErr};
pub use value::*;
