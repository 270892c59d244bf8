//! C42, C44: the Rust library of value buffers, compiled by rustc for wasm32.
use core_mc::pieces::*;
use mc_common::Ctx;
use rust_to_wasm_compiler::Profile;
use wastrumentation::compiler::{Compiles, LibGeneratable};
use wastrumentation::wasm_constructs::Signature;
use wastrumentation_lang_rust::compile::compiler::Compiler as RustCompiler;
use wastrumentation_lang_rust::compile::{options::CompilerOptions, Rust};

fn dev(s: &[Signature]) -> Result<Vec<u8>, String> {
    let options = CompilerOptions { source: Rust::generate_lib(s).content, profile: Profile::Dev };
    RustCompiler::setup_compiler().unwrap().compile(&options).map_err(|e| format!("the library does not compile: {}", e.reason))
}
pub const RUST: Maker = Maker { compile: compiled::<Rust, RustCompiler>, stores_types: false, chunk: 48 };
pub const RUST_DEV: Maker = Maker { compile: dev, ..RUST };

pub fn rust_buffers(ctx: &Ctx) {
    interp::MAX_PAGES.store(64, std::sync::atomic::Ordering::Relaxed);
    buffers_of(ctx, &RUST, if ctx.thorough { (4, 3) } else { (3, 2) }, if ctx.thorough { 6 } else { 5 }, true);
    buffers_of(ctx, &RUST_DEV, (2, 2), if ctx.thorough { 5 } else { 4 }, false);
}

/// C44: the whole pipeline as the command line uses it: instrumentation written in Rust.
pub fn rust_pipeline(ctx: &Ctx) {
    interp::MAX_PAGES.store(64, std::sync::atomic::Ordering::Relaxed);
    core_mc::behaviour::application_with(ctx, core_mc::driver::instrument_with::<Rust, RustCompiler>, if ctx.thorough { (4, 3) } else { (3, 2) }, if ctx.thorough { (6, 6) } else { (5, 5) });
}
