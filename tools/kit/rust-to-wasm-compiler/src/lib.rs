//! Records what it is asked to compile and answers with an empty module.
use std::path::Path;
use std::sync::Mutex;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Profile { Release, Dev }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WasiSupport { Enabled, Disabled }
#[derive(Debug)]
pub struct CompilerSetupError;
impl std::fmt::Display for CompilerSetupError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for CompilerSetupError {}
#[derive(Debug)]
pub struct CompilationError(pub String);
impl std::fmt::Display for CompilationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for CompilationError {}
pub static ASKED: Mutex<Vec<String>> = Mutex::new(vec![]);
pub struct RustToWasmCompiler(());
fn answer(asked: String) -> Result<Vec<u8>, CompilationError> {
    ASKED.lock().unwrap().push(asked);
    Ok(b"\0asm\x01\0\0\0".to_vec())
}
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> { Ok(Self(())) }
    pub fn compile_source(&self, wasi: WasiSupport, manifest: &str, code: &str, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        answer(format!("source {wasi:?} {profile:?} {manifest:?} {code:?}"))
    }
    pub fn compile(&self, wasi: WasiSupport, manifest: &Path, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        answer(format!("manifest {wasi:?} {profile:?} {manifest:?}"))
    }
}
