//! The reference models: written from the GraphQL specification, sharing no code with /repo.
pub mod analyze;
pub mod ast;
pub mod diff;
pub mod lex;
pub mod parse;
pub mod schema;
pub mod validate;
