//! C43: the AssemblyScript library of value buffers.
use core_mc::pieces::*;
use mc_common::Ctx;
use wastrumentation_lang_assemblyscript::compile::compiler::Compiler as AscCompiler;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;

pub const AS: Maker = Maker { compile: compiled::<AssemblyScript, AscCompiler>, stores_types: true, chunk: 1 };

pub fn buffers(ctx: &Ctx) {
    interp::MAX_PAGES.store(64, std::sync::atomic::Ordering::Relaxed);
    buffers_of(ctx, &AS, if ctx.thorough { (4, 3) } else { (3, 2) }, if ctx.thorough { 6 } else { 5 }, true);
    core_mc::behaviour::application_with(ctx, core_mc::driver::instrument_with::<AssemblyScript, AscCompiler>, if ctx.thorough { (4, 3) } else { (3, 2) }, if ctx.thorough { (6, 6) } else { (5, 5) });
}
