//! Observations of the real compiler, in the vocabulary of the reference model.
use crate::spec::*;
use std::collections::BTreeSet;
use wasp_compiler::ast::pest::CallQualifier;
use wasp_compiler::ast::wasp::*;
use wasp_compiler::joinpoints::JoinPoints;
use wasp_compiler::Error;

#[derive(Debug, Clone, PartialEq)]
pub enum Seen {
    Ok { ast: Vec<Adv>, joins: Joins, queries: (bool, bool, bool) },
    Syntax(String),
    Conversion(String),
    NonUnique(Vec<String>),
    Within(String),
    Across(String),
    GenericTypes(String, String),
    ValueType(String, Vec<String>),
    Panic(String),
}

fn ty(t: WasmType) -> Ty {
    match t {
        WasmType::I32 => Ty::I32,
        WasmType::F32 => Ty::F32,
        WasmType::I64 => Ty::I64,
        WasmType::F64 => Ty::F64,
    }
}
fn params(v: &[WasmParameter]) -> Vec<(String, Ty)> {
    v.iter().map(|p| (p.identifier.clone(), ty(p.identifier_type))).collect()
}

pub fn ast(root: &Root) -> Vec<Adv> {
    root.0
        .iter()
        .map(|d| match d {
            AdviceDefinition::AdviceGlobal(b) => Adv::Global(b.clone()),
            AdviceDefinition::AdviceTrap(t) => match t {
                TrapSignature::TrapApply(TrapApply { apply_hook_signature, body }) => match apply_hook_signature {
                    ApplyHookSignature::Gen(g) => Adv::ApplyGen {
                        means: match g.generic_means {
                            GenericTarget::HighLevel => 0,
                            GenericTarget::Dynamic => 1,
                            GenericTarget::MutableDynamic => 2,
                        },
                        f: g.parameter_function.clone(),
                        a: g.parameter_arguments.clone(),
                        r: g.parameter_results.clone(),
                        body: body.clone(),
                    },
                    ApplyHookSignature::Spe(s) => Adv::ApplySpe {
                        // see known-findings.json: the recorded marker is the negation of what was
                        // written, and an existing test pins that; `C01` reports it.
                        marked_mut: !s.mutable_signature,
                        f: s.apply_parameter.clone(),
                        args: params(&s.parameters_arguments),
                        ress: params(&s.parameters_results),
                        body: body.clone(),
                    },
                },
                TrapSignature::TrapCall(t) => match t.call_qualifier {
                    CallQualifier::Pre => Adv::CallPre(t.formal_target.0.clone(), t.body.clone()),
                    CallQualifier::Post => Adv::CallPost(t.formal_target.0.clone(), t.body.clone()),
                },
                TrapSignature::TrapBlockPre(t) => Adv::BlockPre(t.body.clone()),
                TrapSignature::TrapBlockPost(t) => Adv::BlockPost(t.body.clone()),
                TrapSignature::TrapLoopPre(t) => Adv::LoopPre(t.body.clone()),
                TrapSignature::TrapLoopPost(t) => Adv::LoopPost(t.body.clone()),
                TrapSignature::TrapSelect(t) => Adv::Select(t.select_formal_condition.0.clone(), t.body.clone()),
                TrapSignature::TrapCallIndirectPre(t) => Adv::CallIndirectPre {
                    table: t.formal_table.0.clone(),
                    index: t.formal_index.0.clone(),
                    body: t.body.clone(),
                },
                TrapSignature::TrapCallIndirectPost(t) => {
                    Adv::CallIndirectPost(t.formal_table.0.clone(), t.body.clone())
                }
                TrapSignature::TrapIfThen(t) => Adv::IfThen(t.branch_formal_condition.0.clone(), t.body.clone()),
                TrapSignature::TrapIfThenElse(t) => {
                    Adv::IfThenElse(t.branch_formal_condition.0.clone(), t.body.clone())
                }
                TrapSignature::TrapBrIf(t) => Adv::BrIf {
                    cond: t.branch_formal_condition.0.clone(),
                    label: t.branch_formal_label.0.clone(),
                    body: t.body.clone(),
                },
                TrapSignature::TrapBrTable(t) => Adv::BrTable {
                    target: t.branch_formal_target.0.clone(),
                    default: t.branch_formal_default.0.clone(),
                    body: t.body.clone(),
                },
            },
        })
        .collect()
}

/// The signature fields are private: read them back through `Debug`.
fn spec_of(s: &str) -> (Vec<Ty>, Vec<Ty>) {
    let list = |key: &str| -> Vec<Ty> {
        let b = s.find(key).unwrap_or_else(|| panic!("no {key} in {s}")) + key.len();
        let rest = &s[b..];
        let o = rest.find('[').unwrap();
        let c = rest.find(']').unwrap();
        rest[o + 1..c]
            .split(',')
            .map(str::trim)
            .filter(|x| !x.is_empty())
            .map(|x| Ty::parse(x).unwrap_or_else(|| panic!("type {x} in {s}")))
            .collect()
    };
    (list("result_types"), list("argument_types"))
}

pub fn joins_of(j: &JoinPoints) -> Joins {
    let fl = [
        j.generic, j.if_then, j.if_then_else, j.br_if, j.br_table, j.call_pre, j.call_post, j.call_indirect_pre,
        j.call_indirect_post, j.block_pre, j.block_post, j.loop_pre, j.loop_post, j.select,
    ];
    let mut flags = 0;
    for (i, b) in fl.into_iter().enumerate() {
        flags |= (b as u16) << i;
    }
    let spec: BTreeSet<_> = j.specialized.iter().map(|s| spec_of(&format!("{s:?}"))).collect();
    assert_eq!(spec.len(), j.specialized.len());
    Joins { flags, spec }
}

pub fn see(text: &str) -> Seen {
    let r = mc_common::catch_on(text.as_bytes(), || wasp_compiler::compile(text));
    match r {
        Err(p) => Seen::Panic(p),
        Ok(Ok(r)) => {
            let a = ast(&r.wasp_root);
            let j = joins_of(&r.join_points);
            let j2 = joins_of(&r.wasp_root.join_points());
            if j != j2 {
                return Seen::Panic(format!("join points of the result {j:?} differ from those of its tree {j2:?}"));
            }
            let queries = (
                r.wasp_root.instruments_generic_apply(),
                r.wasp_root.instruments_if(),
                r.wasp_root.instruments_call(),
            );
            Seen::Ok { ast: a, joins: j, queries }
        }
        Ok(Err(e)) => match e {
            Error::NonUniqueParameters(v) => Seen::NonUnique(v),
            Error::IncorrectArgsRessType(a, r) => Seen::GenericTypes(a, r),
            Error::DuplicateArgsRessParameter(p) => Seen::Across(p),
            Error::DuplicateParameter(p) => Seen::Within(p),
            Error::UnsupportedIdentifierType { unsupported, supported } => Seen::ValueType(unsupported, supported),
            Error::ConversionError(c) => Seen::Conversion(format!("{c:?}")),
            Error::PestError(s) => Seen::Syntax(s),
        },
    }
}

/// Does the compiler's answer agree with the reference verdict? None = yes.
pub fn disagree(v: &Verdict, s: &Seen) -> Option<String> {
    match (v, s) {
        (_, Seen::Panic(p)) => Some(format!("the compiler panicked: {p}")),
        (Verdict::Syntax, Seen::Syntax(_)) => None,
        (Verdict::Ok(want), Seen::Ok { ast, .. }) => {
            (want != ast).then(|| format!("tree differs\n  want {want:?}\n  got  {ast:?}"))
        }
        (Verdict::Faults(fs), s) => {
            let explains = |f: &Fault| match (f, s) {
                (Fault::Formals(formals), Seen::NonUnique(v)) => {
                    let mut a = v.clone();
                    a.sort();
                    let mut b = formals.clone();
                    b.sort();
                    a == b
                }
                (Fault::Within(d), Seen::Within(x)) | (Fault::Across(d), Seen::Across(x)) => d == x,
                (Fault::GenericTypes(a, r), Seen::GenericTypes(x, y)) => a == x && r == y,
                (Fault::ValueType(t), Seen::ValueType(u, sup)) => {
                    let mut s = sup.clone();
                    s.sort();
                    t == u && s == ["F32", "F64", "I32", "I64"]
                }
                _ => false,
            };
            if fs.iter().any(explains) {
                None
            } else {
                Some(format!("must be rejected for one of {fs:?}, compiler answered {s:?}"))
            }
        }
        (v, s) => Some(format!("want {v:?}\n  got  {s:?}")),
    }
}
