//! Shared machinery of the checks: choice-tape generation engine, regular-expression
//! generators and reference matcher, grammar generators and reference parsers.
pub mod cli;
pub mod dict;
pub mod engine;
pub mod gram;
pub mod known;
pub mod macrogen;
pub mod macrorun;
pub mod re;
pub mod sut;
