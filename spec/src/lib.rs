//! Reference specification.
//!
//! Every function here states what the function of the same path in the analysed repository has to
//! compute, in the plainest form available. Nothing in this crate is ever executed: it is put
//! through the same compiler front end as the repository and both summaries are compared.
#![allow(dead_code, unused_variables, clippy::all)]

pub mod client;
pub mod dfa;
pub mod nfa;
pub mod parser;
pub mod regex;
pub mod table;
pub mod util;
