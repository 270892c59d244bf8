W = "wasp-compiler/src/ast/wasp.rs"
def crate(name, dep, main):
    return {
        "crate/Cargo.toml": f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n{dep} = {{ path = "/repo/{dep}" }}\n',
        "crate/src/main.rs": main,
    }
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$here/crate" "$work/crate" && cd "$work/crate" || exit 1
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 1
exec_dir="$work/run"; mkdir -p "$exec_dir" && cd "$exec_dir" || exit 1
"$work/target/debug/demo"
'''
# a stand-in for the merge tool, only in this scratch directory's PATH
DEMO_TOOL = DEMO.replace('"$work/target/debug/demo"\n', '''mkdir -p "$work/bin" "$work/tmp"
cp "$here/tool.sh" "$work/bin/wasm-merge" && chmod +x "$work/bin/wasm-merge"
PATH="$work/bin:$PATH" TMPDIR="$work/tmp" HOME="$work/tmp" "$work/target/debug/demo"
''')
SEEDS = {
 "c01-globals-joined": dict(property="C01", needs="two pieces of global advice written directly after one another",
  breaks="adjacent global advice is joined into one definition, so the tree no longer has one definition per piece of advice",
  edits=[(W, """            advice_definitions.push(AdviceDefinition::try_from(advice_definition)?);
""", """            let advice_definition = AdviceDefinition::try_from(advice_definition)?;
            // Global code ends up next to each other anyway
            if let (Some(AdviceDefinition::AdviceGlobal(preceding)), AdviceDefinition::AdviceGlobal(code)) =
                (advice_definitions.last_mut(), &advice_definition)
            {
                preceding.push_str(code);
                continue;
            }
            advice_definitions.push(advice_definition);
""")],
  files=crate("demo", "wasp-compiler", '''use wasp_compiler::ast::wasp::AdviceDefinition;
fn main() {
    let r = wasp_compiler::compile("(aspect (global >>>GUEST>>>let a = 1;<<<GUEST<<<) (global >>>GUEST>>>let b = 2;<<<GUEST<<<))").unwrap();
    assert_eq!(r.wasp_root.0, vec![AdviceDefinition::AdviceGlobal("let a = 1;".into()), AdviceDefinition::AdviceGlobal("let b = 2;".into())]);
}
'''), demo=DEMO),
 "c02-select-needs-condition": dict(property="C02", needs="a program in which advice on loop exits is followed by advice on block exits",
  breaks="advice on block exits after advice on loop exits does not request its join point",
  edits=[("wasp-compiler/src/joinpoints.rs", "            JoinPoint::BlockPost => self.block_post = true,\n", "            JoinPoint::BlockPost => self.block_post |= !self.loop_post,\n")],
  files=crate("demo", "wasp-compiler", '''fn main() {
    let r = wasp_compiler::compile("(aspect (advice loop post >>>GUEST>>>a<<<GUEST<<<) (advice block post >>>GUEST>>>b<<<GUEST<<<))").unwrap();
    assert!(r.join_points.loop_post && r.join_points.block_post);
}
'''), demo=DEMO),
 "c03-canonical-arguments": dict(property="C03", needs="specialised apply advice whose argument types are not in the order I32, F32, I64, F64",
  breaks="the argument types of the requested signature are sorted",
  edits=[("wasp-compiler/src/joinpoints.rs", """        SpecialisedJoinPoint {
            result_types: extract_types(&self.parameters_results),
            argument_types: extract_types(&self.parameters_arguments),
        }
""", """        let mut argument_types: Vec<WasmType> = extract_types(&self.parameters_arguments);
        argument_types.sort_by_key(|argument_type| *argument_type as u8);
        SpecialisedJoinPoint {
            result_types: extract_types(&self.parameters_results),
            argument_types,
        }
""")],
  files=crate("demo", "wasp-compiler", '''fn main() {
    let of = |a: &str| wasp_compiler::compile(&format!("(aspect (advice apply (f WasmFunction) ({a}) ((r F64)) >>>GUEST>>>a<<<GUEST<<<))")).unwrap().join_points.specialized;
    assert_ne!(of("(a I64) (b I32)"), of("(a I32) (b I64)"));
}
'''), demo=DEMO),
 "c04-adjacent-names": dict(property="C04", needs="generic apply advice that gives the function and the results the same name, and the arguments another",
  breaks="a program whose formal parameters are not distinct is accepted",
  edits=[(W, "        if parameters.len() == 3 {\n", "        if parameters.len() == 3 || parameter_apply == formal_result.identifier && parameters.len() == 2 {\n")],
  files=crate("demo", "wasp-compiler", '''fn main() {
    let r = wasp_compiler::compile("(aspect (advice apply (x WasmFunction) (y Args) (x Results) >>>GUEST>>>a<<<GUEST<<<))");
    assert!(r.is_err(), "{r:?}");
}
'''), demo=DEMO),
 "c05-comment-bar": dict(property="C05", needs="a comment that contains a vertical bar on its own",
  breaks="such a comment makes the program a syntax error",
  edits=[("wasp-compiler/wasp.pest", 'COMMENT = _{ "#|" ~ (!"|#" ~ ANY)* ~ "|#" }', 'COMMENT = _{ "#|" ~ (!"|" ~ ANY)* ~ "|#" }')],
  files=crate("demo", "wasp-compiler", '''fn main() {
    let plain = wasp_compiler::compile("(aspect (global >>>GUEST>>>a<<<GUEST<<<))").unwrap();
    let commented = wasp_compiler::compile("(aspect #| either | or |# (global >>>GUEST>>>a<<<GUEST<<<))").unwrap();
    assert_eq!(plain, commented);
}
'''), demo=DEMO),
 "c06-repeated-marker": dict(property="C06", needs="guest code that itself begins with an opening guest marker",
  breaks="that opening marker is dropped from the guest code",
  edits=[("wasp-compiler/src/ast/pest/mod.rs", """        .strip_prefix(">>>GUEST>>>")
        .unwrap()
""", """        .trim_start_matches(">>>GUEST>>>")
""")],
  files=crate("demo", "wasp-compiler", '''use wasp_compiler::ast::wasp::AdviceDefinition;
fn main() {
    let r = wasp_compiler::compile("(aspect (global >>>GUEST>>>>>>GUEST>>> x<<<GUEST<<<))").unwrap();
    assert_eq!(r.wasp_root.0, vec![AdviceDefinition::AdviceGlobal(">>>GUEST>>> x".into())]);
}
'''), demo=DEMO),
 "c07-indirect-post": dict(property="C07", needs="a program whose only call-like advice is on indirect calls, after the call",
  breaks="such a program no longer reports that it instruments calls",
  edits=[(W, """                ) || matches!(
                    advice_definition,
                    AdviceDefinition::AdviceTrap(TrapSignature::TrapCallIndirectPost { .. })
                )
""", """                )
""")],
  files=crate("demo", "wasp-compiler", '''fn main() {
    let r = wasp_compiler::compile("(aspect (advice call_indirect post (t FunctionTable) >>>GUEST>>>a<<<GUEST<<<))").unwrap();
    assert!(r.wasp_root.instruments_call());
}
'''), demo=DEMO),
}
TOOL = '''#!/bin/bash
# records its arguments; the last one is the output file
printf '%s\\n' "$@" > "$HOME/args"
'''
M = "wasm-merge/src/lib.rs"
def mcrate(main): return crate("demo", "wasm-merge", main)
SEEDS.update({
 "c10-strings-flag": dict(property="C10", needs="both bulk memory options enabled at once",
  breaks="the flag of one of the enabled options is not passed",
  edits=[(M, """            bulk_memory,
            bulk_memory_opt,
            call_indirect_overlong,
            exception_handling,
""", """            bulk_memory_opt,
            call_indirect_overlong,
            exception_handling,
"""), (M, "            fp16\n        )\n", "            fp16\n        )\n        .into_iter()\n        .chain(match (&self.bulk_memory, &self.bulk_memory_opt) {\n            // bulk memory operations subsume copy and fill\n            (options::BulkMemory::Enable, options::BulkMemoryOpt::Disable) => Some(\"--enable-bulk-memory\"),\n            _ => None,\n        })\n        .collect()\n"),
   (M, """    fn as_arguments(&self) -> Vec<&str> {
        as_args!(
""", """    fn as_arguments(&self) -> Vec<&str> {
        let arguments: Vec<&str> = as_args!(
""")],
  files={}, demo=""),
 "c11-primary-once": dict(property="C11", needs="a primary module whose bytes and namespace also occur among the other modules",
  breaks="the second occurrence is not handed to the merge tool",
  edits=[(M, """            .chain(input_modules.iter().collect::<Vec<&InputModule>>().iter())
""", """            .chain(
                input_modules
                    .iter()
                    .filter(|module| match primary {
                        // the primary has been listed already
                        Some(primary) => {
                            (primary.module, &primary.namespace) != (module.module, &module.namespace)
                        }
                        None => true,
                    })
                    .collect::<Vec<&InputModule>>()
                    .iter(),
            )
""")],
  files={**mcrate('''use wasm_merge::{InputModule, MergeOptions};
fn main() {
    let im = |m: &'static [u8], n: &str| InputModule { module: m, namespace: n.into() };
    MergeOptions { primary: Some(im(b"one", "n")), input_modules: vec![im(b"one", "n"), im(b"two", "m")], ..Default::default() }.merge().unwrap();
    let args = std::fs::read_to_string(std::env::var("HOME").unwrap() + "/args").unwrap();
    assert_eq!(args.lines().filter(|l| *l == "n").count(), 2, "{args}");
}
'''), "tool.sh": TOOL}, demo=DEMO_TOOL),
 "c12-bounded-output": dict(property="C12", needs="a merge tool that writes more than 1 MiB",
  breaks="the module returned is cut off",
  edits=[(M, """            .read_to_end(&mut result)
""", """            .as_file()
            .take(1 << 20)
            .read_to_end(&mut result)
""")],
  files={**mcrate('''fn main() {
    let merged = wasm_merge::MergeOptions::default().merge().unwrap();
    assert_eq!(merged.len(), (1 << 20) + 4096);
}
'''), "tool.sh": '''#!/bin/bash
head -c $((1024 * 1024 + 4096)) /dev/zero > "${@: -1}"
'''}, demo=DEMO_TOOL),
 "c13-kept-inputs": dict(property="C13", needs="a merge tool that reports an error",
  breaks="the temporary input files are left behind",
  edits=[(M, """            let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();
""", """            let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();
            // Keep the inputs around, as the reason may refer to their paths
            for (_, input_module) in merges {
                let _ = input_module.keep();
            }
""")],
  files={**mcrate('''use wasm_merge::{InputModule, MergeOptions};
fn main() {
    let m = MergeOptions { input_modules: vec![InputModule { module: b"x", namespace: "n".into() }], ..Default::default() };
    assert!(m.merge().is_err());
    let left: Vec<_> = std::fs::read_dir(std::env::var("TMPDIR").unwrap()).unwrap().collect();
    assert!(left.is_empty(), "{left:?}");
}
'''), "tool.sh": '''#!/bin/bash
echo "Fatal: no" >&2
exit 1
'''}, demo=DEMO_TOOL),
 "c15-shared-output": dict(property="C15", needs="two merges whose tools run at the same time in one process",
  breaks="both write to the same output file, so the second fails or returns the output of the first",
  edits=[(M, """        let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
""", """        let mut output_file = tempfile::Builder::new()
            .prefix(&format!("wasm-merge-{}", std::process::id()))
            .rand_bytes(0)
            .tempfile()
            .map_err(Error::TempOutputFileCreationFailed)?;
""")],
  files={**mcrate('''use wasm_merge::{InputModule, MergeOptions};
fn main() {
    let run = |n: &'static str| std::thread::spawn(move || {
        MergeOptions { input_modules: vec![InputModule { module: b"x", namespace: n.into() }], ..Default::default() }.merge()
    });
    let (a, b) = (run("a"), run("b"));
    assert_eq!(a.join().unwrap().unwrap(), b"a\\n");
    assert_eq!(b.join().unwrap().unwrap(), b"b\\n");
}
'''), "tool.sh": '''#!/bin/bash
sleep 1
echo "$2" > "${@: -1}"
sleep 1
'''}, demo=DEMO_TOOL),
})
# simpler: an option that is shadowed by another
SEEDS["c10-strings-flag"] = dict(property="C10", needs="the strings option enabled",
  breaks="the merge tool is given the flag of another feature",
  edits=[("wasm-merge/src/options.rs", 'option!(Strings, "--enable-strings");', 'option!(Strings, "--enable-reference-types");')],
  files={**mcrate('''use wasm_merge::{options, MergeOptions};
fn main() {
    MergeOptions { strings: options::Strings::Enable, ..Default::default() }.merge().unwrap();
    let args = std::fs::read_to_string(std::env::var("HOME").unwrap() + "/args").unwrap();
    assert_eq!(args.lines().next(), Some("--enable-strings"), "{args}");
}
'''), "tool.sh": TOOL}, demo=DEMO_TOOL)
