import runpy
_ = runpy.run_path(__file__.replace("seeds2", "seeds1"))
crate, DEMO, DEMO_TOOL, TOOL, W, M, mcrate = (_[k] for k in ["crate", "DEMO", "DEMO_TOOL", "TOOL", "W", "M", "mcrate"])
J = "wasp-compiler/src/joinpoints.rs"
L = "wasp-compiler/src/lib.rs"
P = "wasp-compiler/src/ast/pest/mod.rs"
def wcrate(main): return crate("demo", "wasp-compiler", main)
SEEDS = {
 "c05-leading-comment": dict(property="C05", needs="a program that begins with a comment which no line break follows, and contains a later comment which one follows",
  breaks="everything up to the later comment is skipped",
  edits=[(L, """    let mut pest_parse =
        WaspParser::parse(Rule::wasp_input, wasp).map_err(|e| Error::PestError(e.to_string()))?;
    let wasp_input""", """    // A comment on the first lines, often a licence, need not be parsed
    let wasp = match wasp.strip_prefix("#|") {
        Some(commented) => commented.split_once("|#\\n").map_or(wasp, |(_, program)| program),
        None => wasp,
    };
    let mut pest_parse =
        WaspParser::parse(Rule::wasp_input, wasp).map_err(|e| Error::PestError(e.to_string()))?;
    let wasp_input""")],
  files=wcrate('''fn main() {
    let plain = wasp_compiler::compile("(aspect (global >>>GUEST>>>a<<<GUEST<<<))").unwrap();
    let commented = wasp_compiler::compile("#| one |# (aspect #| two |#\\n (global >>>GUEST>>>a<<<GUEST<<<))").expect("still a program");
    assert_eq!(plain, commented);
}
'''), demo=DEMO),
 "c06-line-ends": dict(property="C06", needs="guest code with Windows line ends",
  breaks="the line ends of the guest code are changed",
  edits=[(P, """        .strip_suffix("<<<GUEST<<<")
        .unwrap()
}""", """        .strip_suffix("<<<GUEST<<<")
        .map(|code| code.strip_suffix("\\r\\n").unwrap_or(code))
        .unwrap()
}""")],
  files=wcrate('''use wasp_compiler::ast::wasp::AdviceDefinition;
fn main() {
    let r = wasp_compiler::compile("(aspect (global >>>GUEST>>>a;\\r\\n<<<GUEST<<<))").unwrap();
    assert_eq!(r.wasp_root.0, vec![AdviceDefinition::AdviceGlobal("a;\\r\\n".into())]);
}
'''), demo=DEMO),
 "c01-result-names": dict(property="C01", needs="specialised apply advice with more results than arguments, where a result has the type of the last argument",
  breaks="the results are recorded in another order than written",
  edits=[(W, """        Ok(ApplySpe {
            mutable_signature: true,
            apply_parameter,
            parameters_arguments,
            parameters_results,
        })
""", """        let mut parameters_results = parameters_results;
        let surplus = parameters_results.len().saturating_sub(parameters_arguments.len());
        if parameters_results.last().map(WasmParameter::get_type)
            == parameters_arguments.last().map(WasmParameter::get_type)
        {
            parameters_results.rotate_left(surplus);
        }
        Ok(ApplySpe {
            mutable_signature: true,
            apply_parameter,
            parameters_arguments,
            parameters_results,
        })
""")],
  files=wcrate('''fn main() {
    let r = wasp_compiler::compile("(aspect (advice apply (f WasmFunction) ((a I32)) ((x F64) (y I32)) >>>GUEST>>>a<<<GUEST<<<))").unwrap();
    let t = format!("{:?}", r.wasp_root);
    assert!(t.find("\\"x\\"").unwrap() < t.find("\\"y\\"").unwrap(), "{t}");
}
'''), demo=DEMO),
 "c03-generic-covers": dict(property="C03", needs="specialised apply advice written before generic apply advice",
  breaks="the specialised signature is not requested",
  edits=[(J, """            JoinPoint::Generic => self.generic = true,
""", """            JoinPoint::Generic => {
                // Generic application covers every signature
                self.specialized.clear();
                self.generic = true;
            }
""")],
  files=wcrate('''fn main() {
    let g = "(advice apply (f WasmFunction) (a Args) (r Results) >>>GUEST>>>a<<<GUEST<<<)";
    let s = "(advice apply (f WasmFunction) ((a I32)) ((r F64)) >>>GUEST>>>a<<<GUEST<<<)";
    let of = |t: String| wasp_compiler::compile(&t).unwrap().join_points;
    assert_eq!(of(format!("(aspect {g}{s})")), of(format!("(aspect {s}{g})")));
}
'''), demo=DEMO),
 "c02-pending-else": dict(property="C02", needs="advice on if_then_else in a program without advice on if_then, after advice on br_if",
  breaks="the join point of if_then_else is not requested",
  edits=[(J, "            JoinPoint::IfThenElse => self.if_then_else = true,\n", "            JoinPoint::IfThenElse => self.if_then_else = self.if_then || !self.br_if,\n")],
  files=wcrate('''fn main() {
    let r = wasp_compiler::compile("(aspect (advice br_if (c Condition) (l Label) >>>GUEST>>>a<<<GUEST<<<) (advice if_then_else (c Condition) >>>GUEST>>>b<<<GUEST<<<))").unwrap();
    assert!(r.join_points.br_if && r.join_points.if_then_else);
}
'''), demo=DEMO),
 "c04-last-argument": dict(property="C04", needs="specialised apply advice in which the last argument and the first result share a name",
  breaks="such a program is accepted",
  edits=[(W, "        for parameter in parameters_1.iter().chain(parameters_2.iter()) {\n            if parameters.contains(parameter.identifier.as_str()) {\n", "        let boundary = (parameters_1.last(), parameters_2.first());\n        for parameter in parameters_1.iter().chain(parameters_2.iter()) {\n            if parameters.contains(parameter.identifier.as_str())\n                && boundary.0.map(|last| &last.identifier) != Some(&parameter.identifier)\n            {\n"),
   (W, """            &apply_parameter,
            &parameters_arguments,
            &parameters_results,
        )?;
        Ok(ApplySpe {
            mutable_signature: false,
""", "XX")],
  files={}, demo=DEMO),
 "c11-short-write": dict(property="C11", needs="a write to a temporary input file that comes short, for instance because the disk is nearly full",
  breaks="the merge tool is given a truncated module, and the merge succeeds",
  edits=[(M, """                input_module
                    .write_all(module)
                    .map_err(Error::TempInputFileWriteFailed)?;
                Ok((*im, input_module))
""", """                let _written = input_module
                    .write(module)
                    .map_err(Error::TempInputFileWriteFailed)?;
                Ok((*im, input_module))
""")],
  files={**mcrate('''use wasm_merge::{InputModule, MergeOptions};
fn main() {
    // A file of this process may have 1 KiB: see demo.sh
    let m = MergeOptions { input_modules: vec![InputModule { module: &[7; 1500], namespace: "n".into() }], ..Default::default() };
    let r = m.merge();
    assert!(r.is_err(), "{r:?}");
}
'''), "tool.sh": '''#!/bin/bash
echo merged > "${@: -1}"
'''}, demo=DEMO_TOOL.replace('PATH="$work/bin', "trap '' XFSZ\nulimit -f 1\nPATH=\"$work/bin")),
 "c12-empty-module": dict(property="C12", needs="a merge tool that succeeds without writing anything",
  breaks="the merge reports a failure, although the tool succeeded",
  edits=[(M, """            .read_to_end(&mut result)
            .map_err(Error::ReadFromOutputFileFailed)?;
""", """            .read_to_end(&mut result)
            .and_then(|read| match read {
                0 => Err(std::io::ErrorKind::UnexpectedEof.into()),
                read => Ok(read),
            })
            .map_err(Error::ReadFromOutputFileFailed)?;
""")],
  files={**mcrate('''fn main() {
    assert_eq!(wasm_merge::MergeOptions::default().merge().unwrap(), b"");
}
'''), "tool.sh": "#!/bin/bash\n: > \"${@: -1}\"\n"}, demo=DEMO_TOOL),
 "c13-kept-output": dict(property="C13", needs="a merge that fails because the merge tool is missing",
  breaks="the temporary output file is left behind",
  edits=[(M, """        let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
""", """        let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
        // The tool may replace the file: it is removed by name, once read
        output_file.disable_cleanup(true);
"""), (M, """            .map_err(Error::ReadFromOutputFileFailed)?;
""", """            .map_err(Error::ReadFromOutputFileFailed)?;
        output_file.disable_cleanup(false);
""")],
  files={**mcrate('''fn main() {
    std::env::set_var("PATH", "/nonexistent");
    assert!(wasm_merge::MergeOptions::default().merge().is_err());
    let left: Vec<_> = std::fs::read_dir(std::env::var("TMPDIR").unwrap()).unwrap().collect();
    assert!(left.is_empty(), "{left:?}");
}
'''), "tool.sh": TOOL}, demo=DEMO_TOOL),
 "c15-late-count": dict(property="C15", needs="two merges in one process, one of which makes its output file between the other's reading and advancing of a counter",
  breaks="both choose the same name, and one fails",
  edits=[(M, """        let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
""", """        let count = MERGES.load(Ordering::SeqCst);
        let mut output_file = tempfile::Builder::new()
            .prefix(&format!("merged-{}-{count}", std::process::id()))
            .rand_bytes(0)
            .tempfile()
            .map_err(Error::TempOutputFileCreationFailed)?;
        MERGES.store(count + 1, Ordering::SeqCst);
"""), (M, "use std::process::Command;\n", "use std::process::Command;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n"),
   (M, "#[derive(Debug)]\npub struct InputModule<'a> {\n", "/// How many merges there have been, to tell their outputs apart\nstatic MERGES: AtomicUsize = AtomicUsize::new(0);\n\n#[derive(Debug)]\npub struct InputModule<'a> {\n")],
  files={**mcrate('''use std::sync::Barrier;
use wasm_merge::MergeOptions;
fn main() {
    // Two merges at a time, started together, until they meet.
    for _ in 0..3000 {
        let start = Barrier::new(8);
        std::thread::scope(|s| {
            let all: Vec<_> = (0..8).map(|_| s.spawn(|| { start.wait(); MergeOptions::default().merge() })).collect();
            for one in all { one.join().unwrap().unwrap(); }
        });
    }
}
'''), "tool.sh": "#!/bin/sh\n"}, demo=DEMO_TOOL),
}
del SEEDS["c04-last-argument"]
SEEDS["c04-case"] = dict(property="C04", needs="specialised apply advice with an argument and a result whose names differ only in case",
  breaks="such a program is rejected",
  edits=[(W, "            if parameters.contains(parameter.identifier.as_str()) {\n", "            if parameters\n                .iter()\n                .any(|known| known.eq_ignore_ascii_case(&parameter.identifier))\n            {\n")],
  files=wcrate('''fn main() {
    wasp_compiler::compile("(aspect (advice apply (f WasmFunction) ((a I32)) ((A F64)) >>>GUEST>>>a<<<GUEST<<<))").unwrap();
}
'''), demo=DEMO)
