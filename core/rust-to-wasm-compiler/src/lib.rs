//! A stand-in for the crate that runs cargo on a Rust source: it runs rustc (the real one) for wasm32 against a
//! core library built from rust-src, with a strict allocator in the place of wee_alloc.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Mutex, OnceLock};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Profile {
    Release,
    Dev,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum WasiSupport {
    Enabled,
    Disabled,
}
#[derive(Debug)]
pub struct CompilerSetupError(pub String);
impl std::fmt::Display for CompilerSetupError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CompilerSetupError {}
#[derive(Debug)]
pub struct CompilationError(pub String);
impl std::fmt::Display for CompilationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CompilationError {}

pub struct RustToWasmCompiler {
    _private: (),
}
type Key = (WasiSupport, Profile, String, String);
/// Every compilation so far; also what was asked for.
static DONE: OnceLock<Mutex<HashMap<Key, Result<Vec<u8>, String>>>> = OnceLock::new();
/// Answers the next compilations of a manifest path.
pub type FromPath = fn(WasiSupport, &Path, Profile) -> Result<Vec<u8>, String>;
pub static FROM_PATH: Mutex<Option<FromPath>> = Mutex::new(None);

/// What a compilation was asked for: of a source (manifest, code) or of a manifest path.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Asked {
    Source(WasiSupport, String, String, Profile),
    Path(WasiSupport, PathBuf, Profile),
}
/// Answers compilations of this thread instead, if there is one.
pub type Script = Box<dyn FnMut(Asked) -> Result<Vec<u8>, String>>;
thread_local! {
    pub static SCRIPT: std::cell::RefCell<Option<Script>> = const { std::cell::RefCell::new(None) };
}
fn scripted(a: impl FnOnce() -> Asked) -> Option<Result<Vec<u8>, CompilationError>> {
    SCRIPT.with(|s| s.borrow_mut().as_mut().map(|f| f(a()).map_err(CompilationError)))
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}
/// Where the core library for wasm32 is; built if need be.
pub fn sysroot() -> Result<&'static Path, String> {
    static S: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    S.get_or_init(|| {
        let dir = std::env::var_os("CARGO_TARGET_DIR").map_or_else(|| verif_dir().join("target"), PathBuf::from).join("wasm-sysroot");
        let script = verif_dir().join("core/rust-to-wasm-compiler/sysroot/build.sh");
        let o = Command::new(&script).arg(&dir).output().map_err(|e| e.to_string())?;
        if o.status.success() {
            Ok(dir)
        } else {
            Err(format!("the core library for wasm32 cannot be built: {}", String::from_utf8_lossy(&o.stderr)))
        }
    })
    .as_deref()
    .map_err(|e| e.clone())
}
fn setting(manifest: &str, key: &str) -> Option<String> {
    let l = manifest.lines().find_map(|l| l.trim().strip_prefix(key)?.trim_start().strip_prefix('='))?;
    Some(l.trim().trim_matches('"').to_string())
}
fn run_rustc(profile: Profile, manifest: &str, source: &str) -> Result<Vec<u8>, String> {
    let sysroot = sysroot()?;
    // What the crate would be built with.
    let edition = setting(manifest, "package.edition").ok_or("the manifest gives no edition")?;
    if setting(manifest, "lib.crate-type").is_none_or(|t| !t.contains("cdylib")) {
        return Err("the manifest does not ask for a cdylib".into());
    }
    if setting(manifest, "dependencies.wee_alloc").is_none() {
        return Err("the manifest does not depend on wee_alloc".into());
    }
    let section = match profile {
        Profile::Release => "profile.release.panic",
        Profile::Dev => "profile.dev.panic",
    };
    if setting(manifest, section).as_deref() != Some("abort") {
        return Err("the manifest does not abort on panic".into());
    }
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = std::env::temp_dir().join(format!("rust-to-wasm.{}.{n}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (input, output) = (dir.join("lib.rs"), dir.join("lib.wasm"));
    std::fs::write(&input, source).map_err(|e| e.to_string())?;
    let mut c = Command::new("rustc");
    c.env("RUSTC_BOOTSTRAP", "1").arg("--sysroot").arg(sysroot).args(["--target", "wasm32-unknown-unknown", "--crate-name", "lib"]);
    c.args(["--crate-type", "cdylib", "--edition", &edition, "-Cpanic=abort", "-Cstrip=symbols", "-Clink-arg=-zstack-size=65536"]);
    c.arg("--extern").arg(format!("wee_alloc={}", sysroot.join("libwee_alloc.rlib").display()));
    match profile {
        Profile::Release => c.args(["-Copt-level=3", "-Cdebug-assertions=no", "-Coverflow-checks=no"]),
        Profile::Dev => c.args(["-Copt-level=0", "-Cdebug-assertions=yes", "-Coverflow-checks=yes"]),
    };
    let o = c.arg("-o").arg(&output).arg(&input).output().map_err(|e| e.to_string())?;
    let r = if o.status.success() {
        std::fs::read(&output).map_err(|e| e.to_string())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}
/// A compilation that a process was asked to hand on rather than to carry out.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Recorded {
    pub wasi: String,
    pub profile: String,
    pub manifest: String,
    pub content: String,
}
impl Recorded {
    fn encode(&self) -> Vec<u8> {
        [&self.wasi, &self.profile, &self.manifest, &self.content].map(|s| format!("{}:{s}", s.len())).concat().into_bytes()
    }
    pub fn decode(b: &[u8]) -> Option<Recorded> {
        let mut s = std::str::from_utf8(b).ok()?;
        let mut parts = vec![];
        while !s.is_empty() {
            let (n, rest) = s.split_once(':')?;
            let n = n.parse().ok()?;
            parts.push(rest.get(..n)?.to_string());
            s = &rest[n..];
        }
        let [wasi, profile, manifest, content] = parts.try_into().ok()?;
        Some(Recorded { wasi, profile, manifest, content })
    }
}
/// Whether the environment asks to record; an error if it asks to fail at this point.
fn recording(at: &str) -> Result<bool, CompilerSetupError> {
    match std::env::var("RUST_TO_WASM") {
        Ok(v) if v == at => Err(CompilerSetupError(format!("{at} fails as it was told to"))),
        Ok(_) => Ok(true),
        Err(_) => Ok(false),
    }
}
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> {
        if SCRIPT.with(|s| s.borrow().is_some()) {
            return Ok(Self { _private: () });
        }
        if recording("setup")? {
            return Ok(Self { _private: () });
        }
        sysroot().map_err(CompilerSetupError)?;
        Ok(Self { _private: () })
    }
    pub fn compile_source(&self, wasi: WasiSupport, manifest: &str, source: &str, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        if let Some(r) = scripted(|| Asked::Source(wasi, manifest.into(), source.into(), profile)) {
            return r;
        }
        if recording("source").map_err(|e| CompilationError(e.0))? {
            return Ok(Recorded { wasi: format!("{wasi:?}"), profile: format!("{profile:?}"), manifest: manifest.into(), content: source.into() }.encode());
        }
        let key = (wasi, profile, manifest.to_string(), source.to_string());
        let done = DONE.get_or_init(Default::default);
        if let Some(r) = done.lock().unwrap().get(&key) {
            return r.clone().map_err(CompilationError);
        }
        let r = run_rustc(profile, manifest, source);
        done.lock().unwrap().insert(key, r.clone());
        r.map_err(CompilationError)
    }
    pub fn compile(&self, wasi: WasiSupport, manifest: &Path, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        if let Some(r) = scripted(|| Asked::Path(wasi, manifest.into(), profile)) {
            return r;
        }
        if recording("manifest").map_err(|e| CompilationError(e.0))? {
            let beside = manifest.parent().unwrap_or(Path::new("")).join("analysis");
            let content = std::fs::read_to_string(&beside).map_err(|e| CompilationError(format!("{}: {e}", beside.display())))?;
            return Ok(Recorded { wasi: format!("{wasi:?}"), profile: format!("{profile:?}"), manifest: manifest.display().to_string(), content }.encode());
        }
        match *FROM_PATH.lock().unwrap() {
            Some(f) => f(wasi, manifest, profile).map_err(CompilationError),
            None => Err(CompilationError("there is no crate to compile".into())),
        }
    }
}
