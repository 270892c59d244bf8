//! Stands in for the AssemblyScript compiler, which the sandbox lacks: compiles the part of the language that
//! the instrumentation library and analyses are written in, and refuses everything else.
mod compile;
mod parse;

pub mod compiler {
    use crate::{error::*, options::CompilerOptions};
    /// Answers compilations of this thread instead, if there is one.
    pub type Script = Box<dyn FnMut(&str) -> Result<Vec<u8>, String>>;
    thread_local! {
        pub static SCRIPT: std::cell::RefCell<Option<Script>> = const { std::cell::RefCell::new(None) };
    }
    pub struct Compiler;
    impl Compiler {
        pub fn new() -> Result<Self, CompilerSetupError> {
            Ok(Compiler)
        }
        pub fn compile(&self, options: &CompilerOptions) -> Result<Vec<u8>, CompilerError> {
            if let Some(r) = SCRIPT.with(|s| s.borrow_mut().as_mut().map(|f| f(&options.source_code))) {
                return r.map_err(CompilerError);
            }
            crate::compile::Compiler::compile(&options.source_code).map_err(CompilerError)
        }
    }
}
pub mod error {
    #[derive(Debug)]
    pub struct CompilerSetupError;
    #[derive(Debug)]
    pub struct CompilerError(pub String);
    impl std::fmt::Display for CompilerError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
}
pub mod options {
    #[derive(Debug, Clone)]
    pub struct CompilerOptions {
        pub source_code: String,
    }
    impl CompilerOptions {
        pub fn default_for(source_code: impl Into<String>) -> Self {
            CompilerOptions { source_code: source_code.into() }
        }
    }
}
