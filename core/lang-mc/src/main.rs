//! Bounded-exhaustive exploration of the languages instrumentation and analyses are written in.
mod assemblyscript;
mod compilers;
mod guest;
mod hooks;
mod libraries;

fn main() {
    mc_common::quiet_panics();
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = mc_common::Ctx::new(&id);
    let level = match id.as_str() {
        "C40" => hooks::hooks,
        "C41" => guest::wasp,
        "C42" => libraries::rust_buffers,
        "C43" => assemblyscript::buffers,
        "C44" => libraries::rust_pipeline,
        "C46" => compilers::compilers,
        _ => {
            eprintln!("no check {id}");
            std::process::exit(3);
        }
    };
    for t in trusted(&id) {
        ctx.assume(t);
    }
    mc_common::decide(&ctx, level);
    ctx.finish(if id == "C42" || id == "C43" { "model_checking" } else { "exploration" });
}
/// What stands in for what cannot be had here.
fn trusted(id: &str) -> &'static [&'static str] {
    match id {
        "C40" => &["the table of hooks and of the traps each asks for"],
        "C41" => &[
            "the event model, the interpreter and the decoder of modules that stand in for what cannot be fetched",
            "the stand-in for the AssemblyScript compiler gives the subset of the language in use its meaning and refuses the rest",
        ],
        "C42" => &["rustc and its wasm32 back end; the interpreter; an allocator that verifies layouts takes the place of wee_alloc"],
        "C43" => &[
            "the interpreter and the decoder of modules that stand in for what cannot be fetched",
            "the stand-in for the AssemblyScript compiler gives the subset of the language in use its meaning and refuses the rest",
        ],
        "C44" => &["the event model, the interpreter and the decoder of modules; rustc and its wasm32 back end"],
        _ => &[],
    }
}
