//! Generator, emitter and reference model for binread definitions.
#![allow(clippy::all)]
pub mod tape;
pub mod val;
pub mod ir;
pub mod gen;
pub mod emit;
pub mod model;
pub mod inputs;
pub mod prop;
