//! Runtime of the generated programs: observation of values and errors, readers,
//! and the runner that compares the real code with the model.
#![allow(clippy::all)]
pub use binread;
pub use bx;
pub use bx::val::{Er, V};

pub mod obs;
pub mod reader;
pub mod mem;
pub mod run;
pub mod json;
#[cfg(feature = "tpl")]
pub mod template;

pub use obs::*;
pub use reader::*;
pub use run::{main, root, Call, Entry};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;
