use core_mc::*;

fn main() {
    mc_common::quiet_panics();
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = mc_common::Ctx::new(&id);
    let level = match id.as_str() {
        "C20" => behaviour::transparent,
        "C21" => behaviour::events,
        "C22" => behaviour::answers,
        "C23" => behaviour::selection,
        "C25" => behaviour::application,
        "C26" => structure::interfaces,
        "C27" => pieces::buffers,
        "C28" => structure::nesting,
        "C30" => behaviour::base_memory,
        "C32" => pieces::assembly,
        "C33" => structure::branch_tables,
        _ => {
            eprintln!("no check {id}");
            std::process::exit(3);
        }
    };
    mc_common::decide(&ctx, level);
    ctx.finish(match id.as_str() {
        "C27" => "model_checking",
        "C32" => "fault_enumeration",
        _ => "exploration",
    });
}
