//! What an analysis is told and what its answers do, stated over the *original* program: the reference
//! execution interprets the original module and reports events itself; the execution under test interprets
//! the instrumented module, whose trap imports report them.
use interp::{Action, At, Embedder, Extern, Instance, Store, Trap, NULL};
use std::collections::HashMap;
use wasabi_wasm::{BinaryOp, FunctionType, GlobalOp, Instr, LoadOp, LocalOp, StoreOp, UnaryOp, ValType};
use wastrumentation::analysis::AnalysisInterface;
use ValType::{F32, F64, I32, I64};

/// What an answer of the analysis replaces.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Nothing is returned.
    Tell,
    /// The first argument is handed back, possibly changed.
    Steer,
    /// The analysis performs the operation.
    Operate,
    Apply,
}
pub struct HookDef {
    pub field: &'static str,
    pub name: &'static str,
    pub args: &'static [ValType],
    pub result: Option<ValType>,
    pub kind: Kind,
    pub enable: fn(&mut AnalysisInterface),
    pub group: &'static str,
}
macro_rules! hooks {
    ($($id:ident $group:literal $field:ident $ctor:ident $name:literal ($($a:ident)*) [$($r:ident)?] $kind:ident;)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(usize)]
        #[derive(Clone, Copy)]
        enum Ids { $($id),* }
        $(pub const $id: usize = Ids::$id as usize;)*
        pub const APPLY: usize = SIMPLE.len();
        pub const N_HOOKS: usize = SIMPLE.len() + 1;
        const SIMPLE: &[HookDef] = &[$(HookDef {
            field: stringify!($field), name: $name, args: &[$($a,)* I64, I64], result: hooks!(@r $($r)?),
            kind: Kind::$kind, enable: |i| i.$field = Some(AnalysisInterface::$ctor()), group: $group,
        }),*];
    };
    (@r) => { None };
    (@r $r:ident) => { Some($r) };
}
hooks! {
    IF_THEN "if_then" if_then_trap interface_if_then "specialized_if_then_k" (I32 I32 I32) [I32] Steer;
    IF_THEN_POST "if_then_post" if_then_post_trap interface_if_then_post "trap_if_then_post" () [] Tell;
    IF_THEN_ELSE "if_then_else" if_then_else_trap interface_if_then_else "specialized_if_then_else_k" (I32 I32 I32) [I32] Steer;
    IF_THEN_ELSE_POST "if_then_else_post" if_then_else_post_trap interface_if_then_else_post "trap_if_then_else_post" () [] Tell;
    BR "br" br_trap interface_br "specialized_br" (I64) [] Tell;
    BR_IF "br_if" br_if_trap interface_br_if "specialized_br_if" (I32 I32) [I32] Steer;
    BR_TABLE "br_table" br_table_trap interface_br_table "specialized_br_table" (I32 I32 I32) [I32] Steer;
    CALL_PRE "call_pre" pre_trap_call interface_call_pre "specialized_call_pre" (I32) [] Tell;
    CALL_POST "call_post" post_trap_call interface_call_post "specialized_call_post" (I32) [] Tell;
    CALL_INDIRECT_PRE "call_indirect_pre" pre_trap_call_indirect interface_call_indirect_pre "specialized_call_indirect_pre" (I32 I32) [I32] Steer;
    CALL_INDIRECT_POST "call_indirect_post" post_trap_call_indirect interface_call_indirect_post "specialized_call_indirect_post" (I32) [] Tell;
    BLOCK_PRE "block_pre" pre_block interface_pre_block "trap_block_pre" (I32 I32) [] Tell;
    BLOCK_POST "block_post" post_block interface_post_block "trap_block_post" () [] Tell;
    LOOP_PRE "loop_pre" pre_loop interface_pre_loop "trap_loop_pre" (I32 I32) [] Tell;
    LOOP_POST "loop_post" post_loop interface_post_loop "trap_loop_post" () [] Tell;
    SELECT "select" select interface_select "specialized_select" (I32) [I32] Steer;
    DROP "drop" drop_trap interface_drop "drop_trap" () [] Tell;
    RETURN "return" return_trap interface_return "return_trap" () [] Tell;
    CONST_I32 "const" const_i32_trap interface_const_i32 "trap_const_i32" (I32) [I32] Steer;
    CONST_F32 "const" const_f32_trap interface_const_f32 "trap_const_f32" (F32) [F32] Steer;
    CONST_I64 "const" const_i64_trap interface_const_i64 "trap_const_i64" (I64) [I64] Steer;
    CONST_F64 "const" const_f64_trap interface_const_f64 "trap_const_f64" (F64) [F64] Steer;
    UNARY_I32_I32 "unary" unary_i32_to_i32 interface_unary_i32_to_i32 "unary_i32_to_i32" (I32 I32) [I32] Operate;
    UNARY_I64_I32 "unary" unary_i64_to_i32 interface_unary_i64_to_i32 "unary_i64_to_i32" (I64 I32) [I32] Operate;
    UNARY_I64_I64 "unary" unary_i64_to_i64 interface_unary_i64_to_i64 "unary_i64_to_i64" (I64 I32) [I64] Operate;
    UNARY_F32_F32 "unary" unary_f32_to_f32 interface_unary_f32_to_f32 "unary_f32_to_f32" (F32 I32) [F32] Operate;
    UNARY_F64_F64 "unary" unary_f64_to_f64 interface_unary_f64_to_f64 "unary_f64_to_f64" (F64 I32) [F64] Operate;
    UNARY_F32_I32 "unary" unary_f32_to_i32 interface_unary_f32_to_i32 "unary_f32_to_i32" (F32 I32) [I32] Operate;
    UNARY_F64_I32 "unary" unary_f64_to_i32 interface_unary_f64_to_i32 "unary_f64_to_i32" (F64 I32) [I32] Operate;
    UNARY_I32_I64 "unary" unary_i32_to_i64 interface_unary_i32_to_i64 "unary_i32_to_i64" (I32 I32) [I64] Operate;
    UNARY_F32_I64 "unary" unary_f32_to_i64 interface_unary_f32_to_i64 "unary_f32_to_i64" (F32 I32) [I64] Operate;
    UNARY_F64_I64 "unary" unary_f64_to_i64 interface_unary_f64_to_i64 "unary_f64_to_i64" (F64 I32) [I64] Operate;
    UNARY_I32_F32 "unary" unary_i32_to_f32 interface_unary_i32_to_f32 "unary_i32_to_f32" (I32 I32) [F32] Operate;
    UNARY_I64_F32 "unary" unary_i64_to_f32 interface_unary_i64_to_f32 "unary_i64_to_f32" (I64 I32) [F32] Operate;
    UNARY_F64_F32 "unary" unary_f64_to_f32 interface_unary_f64_to_f32 "unary_f64_to_f32" (F64 I32) [F32] Operate;
    UNARY_I32_F64 "unary" unary_i32_to_f64 interface_unary_i32_to_f64 "unary_i32_to_f64" (I32 I32) [F64] Operate;
    UNARY_I64_F64 "unary" unary_i64_to_f64 interface_unary_i64_to_f64 "unary_i64_to_f64" (I64 I32) [F64] Operate;
    UNARY_F32_F64 "unary" unary_f32_to_f64 interface_unary_f32_to_f64 "unary_f32_to_f64" (F32 I32) [F64] Operate;
    BINARY_I32_I32 "binary" binary_i32_i32_to_i32 interface_binary_i32_i32_to_i32 "binary_i32_i32_to_i32" (I32 I32 I32) [I32] Operate;
    BINARY_I64_I32 "binary" binary_i64_i64_to_i32 interface_binary_i64_i64_to_i32 "binary_i64_i64_to_i32" (I64 I64 I32) [I32] Operate;
    BINARY_F32_I32 "binary" binary_f32_f32_to_i32 interface_binary_f32_f32_to_i32 "binary_f32_f32_to_i32" (F32 F32 I32) [I32] Operate;
    BINARY_F64_I32 "binary" binary_f64_f64_to_i32 interface_binary_f64_f64_to_i32 "binary_f64_f64_to_i32" (F64 F64 I32) [I32] Operate;
    BINARY_I64_I64 "binary" binary_i64_i64_to_i64 interface_binary_i64_i64_to_i64 "binary_i64_i64_to_i64" (I64 I64 I32) [I64] Operate;
    BINARY_F32_F32 "binary" binary_f32_f32_to_f32 interface_binary_f32_f32_to_f32 "binary_f32_f32_to_f32" (F32 F32 I32) [F32] Operate;
    BINARY_F64_F64 "binary" binary_f64_f64_to_f64 interface_binary_f64_f64_to_f64 "binary_f64_f64_to_f64" (F64 F64 I32) [F64] Operate;
    MEMORY_SIZE "memory_size" memory_size interface_memory_size "trap_memory_size" (I32 I64) [I32] Steer;
    MEMORY_GROW "memory_grow" memory_grow interface_memory_grow "trap_memory_grow" (I32 I64) [I32] Operate;
    LOCAL_GET_I32 "local" local_get_i32 interface_local_get_i32 "trap_local_get_i32" (I32 I64) [I32] Steer;
    LOCAL_SET_I32 "local" local_set_i32 interface_local_set_i32 "trap_local_set_i32" (I32 I64) [I32] Steer;
    LOCAL_TEE_I32 "local" local_tee_i32 interface_local_tee_i32 "trap_local_tee_i32" (I32 I64) [I32] Steer;
    GLOBAL_GET_I32 "global" global_get_i32 interface_global_get_i32 "trap_global_get_i32" (I32 I64) [I32] Steer;
    GLOBAL_SET_I32 "global" global_set_i32 interface_global_set_i32 "trap_global_set_i32" (I32 I64) [I32] Steer;
    LOCAL_GET_F32 "local" local_get_f32 interface_local_get_f32 "trap_local_get_f32" (F32 I64) [F32] Steer;
    LOCAL_SET_F32 "local" local_set_f32 interface_local_set_f32 "trap_local_set_f32" (F32 I64) [F32] Steer;
    LOCAL_TEE_F32 "local" local_tee_f32 interface_local_tee_f32 "trap_local_tee_f32" (F32 I64) [F32] Steer;
    GLOBAL_GET_F32 "global" global_get_f32 interface_global_get_f32 "trap_global_get_f32" (F32 I64) [F32] Steer;
    GLOBAL_SET_F32 "global" global_set_f32 interface_global_set_f32 "trap_global_set_f32" (F32 I64) [F32] Steer;
    LOCAL_GET_I64 "local" local_get_i64 interface_local_get_i64 "trap_local_get_i64" (I64 I64) [I64] Steer;
    LOCAL_SET_I64 "local" local_set_i64 interface_local_set_i64 "trap_local_set_i64" (I64 I64) [I64] Steer;
    LOCAL_TEE_I64 "local" local_tee_i64 interface_local_tee_i64 "trap_local_tee_i64" (I64 I64) [I64] Steer;
    GLOBAL_GET_I64 "global" global_get_i64 interface_global_get_i64 "trap_global_get_i64" (I64 I64) [I64] Steer;
    GLOBAL_SET_I64 "global" global_set_i64 interface_global_set_i64 "trap_global_set_i64" (I64 I64) [I64] Steer;
    LOCAL_GET_F64 "local" local_get_f64 interface_local_get_f64 "trap_local_get_f64" (F64 I64) [F64] Steer;
    LOCAL_SET_F64 "local" local_set_f64 interface_local_set_f64 "trap_local_set_f64" (F64 I64) [F64] Steer;
    LOCAL_TEE_F64 "local" local_tee_f64 interface_local_tee_f64 "trap_local_tee_f64" (F64 I64) [F64] Steer;
    GLOBAL_GET_F64 "global" global_get_f64 interface_global_get_f64 "trap_global_get_f64" (F64 I64) [F64] Steer;
    GLOBAL_SET_F64 "global" global_set_f64 interface_global_set_f64 "trap_global_set_f64" (F64 I64) [F64] Steer;
    STORE_F32 "store" f32_store interface_f32_store "trap_f32_store" (I32 F32 I64 I32) [] Operate;
    STORE_F64 "store" f64_store interface_f64_store "trap_f64_store" (I32 F64 I64 I32) [] Operate;
    STORE_I32 "store" i32_store interface_i32_store "trap_i32_store" (I32 I32 I64 I32) [] Operate;
    STORE_I64 "store" i64_store interface_i64_store "trap_i64_store" (I32 I64 I64 I32) [] Operate;
    LOAD_F32 "load" f32_load interface_f32_load "trap_f32_load" (I32 I64 I32) [F32] Operate;
    LOAD_F64 "load" f64_load interface_f64_load "trap_f64_load" (I32 I64 I32) [F64] Operate;
    LOAD_I32 "load" i32_load interface_i32_load "trap_i32_load" (I32 I64 I32) [I32] Operate;
    LOAD_I64 "load" i64_load interface_i64_load "trap_i64_load" (I32 I64 I32) [I64] Operate;
}
pub static APPLY_DEF: HookDef = HookDef {
    field: "generic_interface",
    name: "generic_apply",
    args: &[I32, I32, I32, I32, I32, I32, I32],
    result: None,
    kind: Kind::Apply,
    enable: |i| i.generic_interface = Some(AnalysisInterface::interface_generic_apply()),
    group: "apply",
};
pub fn hook(i: usize) -> &'static HookDef {
    if i == APPLY { &APPLY_DEF } else { &SIMPLE[i] }
}
pub const GROUPS: &[&str] = &[
    "if_then", "if_then_post", "if_then_else", "if_then_else_post", "br", "br_if", "br_table", "call_pre",
    "call_post", "call_indirect_pre", "call_indirect_post", "block_pre", "block_post", "loop_pre", "loop_post",
    "select", "drop", "return", "const", "unary", "binary", "memory_size", "memory_grow", "local", "global",
    "store", "load", "apply",
];

/// A set of hooks.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Hooks(pub u128);
impl Hooks {
    pub const NONE: Hooks = Hooks(0);
    pub fn all() -> Hooks {
        Hooks((1u128 << N_HOOKS) - 1)
    }
    /// Everything but apply.
    pub fn traps() -> Hooks {
        Hooks((1u128 << APPLY) - 1)
    }
    pub fn one(h: usize) -> Hooks {
        Hooks(1 << h)
    }
    pub fn of(groups: &[&str]) -> Hooks {
        Hooks((0..N_HOOKS).filter(|h| groups.contains(&hook(*h).group)).map(|h| 1u128 << h).sum())
    }
    pub fn or(self, o: Hooks) -> Hooks {
        Hooks(self.0 | o.0)
    }
    pub fn has(self, h: usize) -> bool {
        self.0 >> h & 1 == 1
    }
    pub fn interface(self) -> AnalysisInterface {
        let mut i = AnalysisInterface::default();
        for h in (0..N_HOOKS).filter(|h| self.has(*h)) {
            (hook(h).enable)(&mut i);
        }
        i
    }
    pub fn describe(self) -> String {
        let names: Vec<_> = (0..N_HOOKS).filter(|h| self.has(*h)).map(|h| hook(h).name).collect();
        if self == Hooks::all() {
            "all hooks".into()
        } else if self == Hooks::traps() {
            "all traps".into()
        } else {
            names.join(",")
        }
    }
}

/// How the analysis answers.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Policy {
    /// Observes, performs, forwards.
    Forward,
    /// Changes the lowest bit of every value it hands back.
    Flip,
    /// Turns zero into one and everything else into zero.
    Not,
    /// Changes (as `Flip`) only the answer to the k-th event.
    FlipNth(u32),
    NotNth(u32),
    /// Traps while handling the k-th event.
    TrapAt(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum ApplyPolicy {
    Forward,
    /// Does not call; answers with its own results.
    Skip,
    /// Calls with changed arguments.
    AlterArgs,
    /// Changes the results after the call.
    AlterResults,
    Twice,
    /// Does not call and leaves the results alone (they are unspecified then: only for functions without).
    SkipAt(u32),
}
pub fn flip(t: ValType, v: u64) -> u64 {
    let _ = t;
    v ^ 1
}
fn not(t: ValType, v: u64) -> u64 {
    let _ = t;
    u64::from(v == 0)
}
/// The analysis' own results for a skipped call.
pub fn own_result(t: ValType, i: usize) -> u64 {
    let x = 0x4000_0001 + i as u64;
    match t {
        I32 | F32 => x,
        _ => x << 32 | 0x8000_0000 | x,
    }
}

pub const ENV: u64 = 1000;
/// The analysis and the host environment of one execution.
pub struct Party {
    pub policy: Policy,
    pub apply: ApplyPolicy,
    pub trace: Vec<u64>,
    /// Where each entry of the trace starts.
    pub marks: Vec<u32>,
    pub events: u32,
    pub max_events: u32,
    env_calls: u64,
    /// Globals and memories to take a digest of at every event (store addresses).
    pub globals: Vec<usize>,
    pub mems: Vec<usize>,
    pub digest: bool,
    pub digests: Vec<u64>,
    pub sigs: Vec<FunctionType>,
}
impl Party {
    pub fn new(policy: Policy, apply: ApplyPolicy) -> Party {
        Party {
            policy,
            apply,
            trace: vec![],
            marks: vec![],
            events: 0,
            max_events: 5000,
            env_calls: 0,
            globals: vec![],
            mems: vec![],
            digest: true,
            digests: vec![],
            sigs: vec![],
        }
    }
    pub fn reset(&mut self, policy: Policy, apply: ApplyPolicy) {
        self.policy = policy;
        self.apply = apply;
        self.trace.clear();
        self.marks.clear();
        self.digests.clear();
        self.events = 0;
        self.env_calls = 0;
    }
    fn state(&mut self, store: &Store) {
        if !self.digest {
            return;
        }
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut mix = |x: u64| h = (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17);
        for g in &self.globals {
            mix(store.globals[*g]);
        }
        for m in &self.mems {
            let d = &store.mems[*m].data;
            mix(d.len() as u64);
            for c in d.chunks_exact(8).take(8) {
                mix(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        self.digests.push(h);
    }
    pub fn event(&mut self, store: &Store, hook: usize, args: &[u64]) -> Result<(), Trap> {
        if self.events >= self.max_events {
            return Err(Trap::TooBig);
        }
        self.marks.push(self.trace.len() as u32);
        self.trace.push(hook as u64);
        self.trace.extend_from_slice(args);
        self.state(store);
        self.events += 1;
        if self.policy == Policy::TrapAt(self.events - 1) {
            return Err(Trap::Host(77));
        }
        Ok(())
    }
    /// The answer to the latest event.
    pub fn answer(&self, at: u32, t: ValType, v: u64) -> u64 {
        match self.policy {
            Policy::Forward | Policy::TrapAt(_) => v,
            Policy::Flip => flip(t, v),
            Policy::Not => not(t, v),
            Policy::FlipNth(k) => if at == k { flip(t, v) } else { v },
            Policy::NotNth(k) => if at == k { not(t, v) } else { v },
        }
    }
    /// The host function `id` of the environment.
    pub fn env(&mut self, store: &Store, id: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        self.marks.push(self.trace.len() as u32);
        self.trace.push(ENV + id as u64);
        self.trace.extend_from_slice(args);
        self.state(store);
        self.env_calls += 1;
        if self.env_calls > 2000 {
            return Err(Trap::TooBig);
        }
        let sum = args.iter().fold(self.env_calls * 16 + id as u64, |a, b| a.wrapping_mul(3).wrapping_add(*b));
        Ok(self.sigs[id]
            .results()
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let x = sum.wrapping_add(i as u64);
                match t {
                    I32 => x & 0xffff_ffff,
                    F32 => x & 0x3fff_ffff,
                    F64 => x & 0x3fff_ffff_ffff_ffff,
                    ValType::Ref(_) => NULL,
                    _ => x,
                }
            })
            .collect())
    }
}
fn const_hook(t: ValType) -> Option<usize> {
    Some(match t {
        I32 => CONST_I32,
        F32 => CONST_F32,
        I64 => CONST_I64,
        F64 => CONST_F64,
        _ => return None,
    })
}
pub fn unary_hook(op: UnaryOp) -> usize {
    match op.ty() {
        (I32, I32) => UNARY_I32_I32,
        (I64, I32) => UNARY_I64_I32,
        (I64, I64) => UNARY_I64_I64,
        (F32, F32) => UNARY_F32_F32,
        (F64, F64) => UNARY_F64_F64,
        (F32, I32) => UNARY_F32_I32,
        (F64, I32) => UNARY_F64_I32,
        (I32, I64) => UNARY_I32_I64,
        (F32, I64) => UNARY_F32_I64,
        (F64, I64) => UNARY_F64_I64,
        (I32, F32) => UNARY_I32_F32,
        (I64, F32) => UNARY_I64_F32,
        (F64, F32) => UNARY_F64_F32,
        (I32, F64) => UNARY_I32_F64,
        (I64, F64) => UNARY_I64_F64,
        (F32, F64) => UNARY_F32_F64,
        other => unreachable!("{other:?}"),
    }
}
pub fn binary_hook(op: BinaryOp) -> usize {
    match op.ty() {
        (I32, I32) => BINARY_I32_I32,
        (I64, I32) => BINARY_I64_I32,
        (F32, I32) => BINARY_F32_I32,
        (F64, I32) => BINARY_F64_I32,
        (I64, I64) => BINARY_I64_I64,
        (F32, F32) => BINARY_F32_F32,
        (F64, F64) => BINARY_F64_F64,
        other => unreachable!("{other:?}"),
    }
}
fn pick(t: ValType, i32_: usize, f32_: usize, i64_: usize, f64_: usize) -> Option<usize> {
    Some(match t {
        I32 => i32_,
        F32 => f32_,
        I64 => i64_,
        F64 => f64_,
        _ => return None,
    })
}
pub fn local_hook(op: LocalOp, t: ValType) -> Option<usize> {
    match op {
        LocalOp::Get => pick(t, LOCAL_GET_I32, LOCAL_GET_F32, LOCAL_GET_I64, LOCAL_GET_F64),
        LocalOp::Set => pick(t, LOCAL_SET_I32, LOCAL_SET_F32, LOCAL_SET_I64, LOCAL_SET_F64),
        LocalOp::Tee => pick(t, LOCAL_TEE_I32, LOCAL_TEE_F32, LOCAL_TEE_I64, LOCAL_TEE_F64),
    }
}
pub fn global_hook(op: GlobalOp, t: ValType) -> Option<usize> {
    match op {
        GlobalOp::Get => pick(t, GLOBAL_GET_I32, GLOBAL_GET_F32, GLOBAL_GET_I64, GLOBAL_GET_F64),
        GlobalOp::Set => pick(t, GLOBAL_SET_I32, GLOBAL_SET_F32, GLOBAL_SET_I64, GLOBAL_SET_F64),
    }
}
/// Operator codes: position in the specification's order of the analysis-side tables.
pub fn unary_code(op: UnaryOp) -> u64 {
    UnaryOp::ALL.iter().position(|o| *o == op).unwrap() as u64 + 1
}
pub fn binary_code(op: BinaryOp) -> u64 {
    BinaryOp::ALL.iter().position(|o| *o == op).unwrap() as u64 + 1
}
pub fn load_code(op: LoadOp) -> u64 {
    LoadOp::ALL.iter().position(|o| *o == op).unwrap() as u64 + 1
}
pub fn store_code(op: StoreOp) -> u64 {
    StoreOp::ALL.iter().position(|o| *o == op).unwrap() as u64 + 1
}
pub fn base_load_name(op: LoadOp) -> &'static str {
    use LoadOp::*;
    match op {
        I32Load => "instrumented_base_load_i32",
        I64Load => "instrumented_base_load_i64",
        F32Load => "instrumented_base_load_f32",
        F64Load => "instrumented_base_load_f64",
        I32Load8S => "instrumented_base_load_i32_8S",
        I32Load8U => "instrumented_base_load_i32_8U",
        I32Load16S => "instrumented_base_load_i32_16S",
        I32Load16U => "instrumented_base_load_i32_16U",
        I64Load8S => "instrumented_base_load_i64_8S",
        I64Load8U => "instrumented_base_load_i64_8U",
        I64Load16S => "instrumented_base_load_i64_16S",
        I64Load16U => "instrumented_base_load_i64_16U",
        I64Load32S => "instrumented_base_load_i64_32S",
        I64Load32U => "instrumented_base_load_i64_32U",
    }
}
pub fn base_store_name(op: StoreOp) -> &'static str {
    use StoreOp::*;
    match op {
        I32Store => "instrumented_base_store_i32",
        I64Store => "instrumented_base_store_i64",
        F32Store => "instrumented_base_store_f32",
        F64Store => "instrumented_base_store_f64",
        I32Store8 => "instrumented_base_store_i32_8",
        I32Store16 => "instrumented_base_store_i32_16",
        I64Store8 => "instrumented_base_store_i64_8",
        I64Store16 => "instrumented_base_store_i64_16",
        I64Store32 => "instrumented_base_store_i64_32",
    }
}

// ------------------------------------------------------------------ reference
pub struct Reference {
    pub party: Party,
    pub watch: Watch,
    pub hooks: Hooks,
    pub watched: Vec<bool>,
    /// Function address -> index in the original module (host functions included).
    pub index_of: HashMap<usize, u32>,
    pub imported: u32,
    pub global_types: Vec<ValType>,
}
impl Reference {
    fn watches(&self, f: u32) -> bool {
        self.watched[f as usize]
    }
    fn steer(&mut self, store: &Store, at: &At, h: usize, stack: &mut [u64], rest: &[u64]) -> Result<(), Trap> {
        if !self.hooks.has(h) {
            return Ok(());
        }
        let v = *stack.last().unwrap();
        let mut args = vec![v];
        args.extend_from_slice(rest);
        args.extend([u64::from(at.func), at.pc as u64]);
        let k = self.party.events;
        self.party.event(store, h, &args)?;
        *stack.last_mut().unwrap() = self.party.answer(k, hook(h).result.unwrap(), v);
        Ok(())
    }
    fn tell(&mut self, store: &Store, at: &At, h: usize, args: &[u64]) -> Result<(), Trap> {
        if !self.hooks.has(h) {
            return Ok(());
        }
        let mut a = args.to_vec();
        a.extend([u64::from(at.func), at.pc as u64]);
        self.party.event(store, h, &a)
    }
}
impl Embedder for Reference {
    const OBSERVES: bool = true;
    fn linked(&mut self, store: &Store, instance: usize) {
        let i = &store.instances[instance];
        self.watch.attach(&mut self.party, i);
        self.index_of = i.funcs.iter().enumerate().map(|(k, f)| (*f, k as u32)).collect();
    }
    fn host(&mut self, store: &mut Store, id: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        self.party.env(store, id - ENV as usize, args)
    }
    fn call(&mut self, store: &mut Store, func: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        let t = store.types[func];
        let index = match self.index_of.get(&func) {
            Some(i) if self.hooks.has(APPLY) && self.watches(*i) && !uses_refs(t) => *i,
            _ => return store.enter(self, func, args),
        };
        let (args_t, res_t) = (t.inputs(), t.results());
        let k = self.party.events;
        self.party.event(store, APPLY, &apply_event(index, index < self.imported, t, args))?;
        let skipped = |s: &Self| match s.party.apply {
            ApplyPolicy::Skip => true,
            ApplyPolicy::SkipAt(n) => n == k,
            _ => false,
        };
        if skipped(self) {
            return Ok(res_t.iter().enumerate().map(|(i, t)| own_result(*t, i)).collect());
        }
        let mut a = args.to_vec();
        if self.party.apply == ApplyPolicy::AlterArgs {
            a.iter_mut().zip(args_t).for_each(|(v, t)| *v = flip(*t, *v));
        }
        let mut r = store.enter(self, func, &a)?;
        if self.party.apply == ApplyPolicy::Twice {
            r = store.enter(self, func, &a)?;
        }
        if self.party.apply == ApplyPolicy::AlterResults {
            r.iter_mut().zip(res_t).for_each(|(v, t)| *v = flip(*t, *v));
        }
        Ok(r)
    }
    fn before(&mut self, store: &mut Store, at: &At, locals: &mut [u64], stack: &mut Vec<u64>) -> Result<Action, Trap> {
        let _ = locals;
        if !self.watches(at.func) {
            return Ok(Action::Proceed);
        }
        let op = &at.code.body[at.pc];
        let io = |t: &FunctionType| [t.inputs().len() as u64, t.results().len() as u64];
        let opener = |pc: usize| At { instance: at.instance, func: at.func, pc: at.code.link[pc] as usize, code: at.code };
        match op {
            Instr::Block(t) => self.tell(store, at, BLOCK_PRE, &io(t))?,
            Instr::Loop(t) => self.tell(store, at, LOOP_PRE, &io(t))?,
            Instr::If(t) => {
                let h = if at.code.else_[at.pc] == u32::MAX { IF_THEN } else { IF_THEN_ELSE };
                self.steer(store, at, h, stack, &io(t))?;
            }
            Instr::Else => self.tell(store, &opener(at.pc), IF_THEN_ELSE_POST, &[])?,
            Instr::End if at.code.link[at.pc] != u32::MAX => {
                let o = opener(at.pc);
                let h = match at.code.body[o.pc] {
                    Instr::Block(_) => BLOCK_POST,
                    Instr::Loop(_) => LOOP_POST,
                    _ if at.code.else_[o.pc] == u32::MAX => IF_THEN_POST,
                    _ => IF_THEN_ELSE_POST,
                };
                self.tell(store, &o, h, &[])?;
            }
            Instr::Br(l) => self.tell(store, at, BR, &[u64::from(l.to_u32())])?,
            Instr::BrIf(l) => self.steer(store, at, BR_IF, stack, &[u64::from(l.to_u32())])?,
            Instr::BrTable { table, default } => {
                let i = *stack.last().unwrap() as u32 as usize;
                let effective = table.get(i).unwrap_or(default);
                self.steer(store, at, BR_TABLE, stack, &[u64::from(effective.to_u32()), u64::from(default.to_u32())])?;
            }
            Instr::Call(f) => self.tell(store, at, CALL_PRE, &[u64::from(f.to_u32())])?,
            Instr::CallIndirect(_, t) => self.steer(store, at, CALL_INDIRECT_PRE, stack, &[u64::from(t.to_u32())])?,
            Instr::Select | Instr::TypedSelect(_) => self.steer(store, at, SELECT, stack, &[])?,
            Instr::Drop => self.tell(store, at, DROP, &[])?,
            Instr::Return => self.tell(store, at, RETURN, &[])?,
            Instr::Local(op @ (LocalOp::Set | LocalOp::Tee), i) => {
                let i = i.to_usize();
                let n = at.code.type_.inputs().len();
                let t = if i < n { at.code.type_.inputs()[i] } else { at.code.locals[i - n] };
                if let Some(h) = local_hook(*op, t) {
                    self.steer(store, at, h, stack, &[i as u64])?;
                }
            }
            Instr::Global(GlobalOp::Set, i) => {
                if let Some(h) = global_hook(GlobalOp::Set, self.global_types[i.to_usize()]) {
                    self.steer(store, at, h, stack, &[u64::from(i.to_u32())])?;
                }
            }
            Instr::Unary(op) => {
                let h = unary_hook(*op);
                if self.hooks.has(h) {
                    let x = stack.pop().unwrap();
                    let k = self.party.events;
                    self.tell(store, at, h, &[x, unary_code(*op)])?;
                    stack.push(self.party.answer(k, op.ty().1, interp::num::unary(*op, x)?));
                    return Ok(Action::Replaced);
                }
            }
            Instr::Binary(op) => {
                let h = binary_hook(*op);
                if self.hooks.has(h) {
                    let r = stack.pop().unwrap();
                    let l = stack.pop().unwrap();
                    let k = self.party.events;
                    self.tell(store, at, h, &[l, r, binary_code(*op)])?;
                    stack.push(self.party.answer(k, op.ty().1, interp::num::binary(*op, l, r)?));
                    return Ok(Action::Replaced);
                }
            }
            Instr::Load(op, m) => {
                let h = pick(op.ty(), LOAD_I32, LOAD_F32, LOAD_I64, LOAD_F64).unwrap();
                if self.hooks.has(h) {
                    let p = stack.pop().unwrap();
                    let k = self.party.events;
                    self.tell(store, at, h, &[p, u64::from(m.offset), load_code(*op)])?;
                    let mem = store.instances[at.instance].mems[0];
                    let v = interp::num::load(*op, &store.mems[mem].data, p, m.offset)?;
                    stack.push(self.party.answer(k, op.ty(), v));
                    return Ok(Action::Replaced);
                }
            }
            Instr::Store(op, m) => {
                let h = pick(op.ty(), STORE_I32, STORE_F32, STORE_I64, STORE_F64).unwrap();
                if self.hooks.has(h) {
                    let v = stack.pop().unwrap();
                    let p = stack.pop().unwrap();
                    let k = self.party.events;
                    self.tell(store, at, h, &[p, v, u64::from(m.offset), store_code(*op)])?;
                    let mem = store.instances[at.instance].mems[0];
                    let v = self.party.answer(k, op.ty(), v);
                    interp::num::store(*op, &mut store.mems[mem].data, p, v, m.offset)?;
                    return Ok(Action::Replaced);
                }
            }
            Instr::MemoryGrow(m) => {
                if self.hooks.has(MEMORY_GROW) {
                    let n = stack.pop().unwrap();
                    let k = self.party.events;
                    self.tell(store, at, MEMORY_GROW, &[n, u64::from(m.to_u32())])?;
                    let mem = store.instances[at.instance].mems[m.to_usize()];
                    let r = store.mems[mem].grow(n as u32);
                    stack.push(self.party.answer(k, I32, u64::from(r)));
                    return Ok(Action::Replaced);
                }
            }
            _ => {}
        }
        Ok(Action::Proceed)
    }
    fn after(&mut self, store: &mut Store, at: &At, stack: &mut Vec<u64>) -> Result<(), Trap> {
        if !self.watches(at.func) {
            return Ok(());
        }
        match &at.code.body[at.pc] {
            Instr::Const(v) => {
                if let Some(h) = const_hook(v.to_type()) {
                    self.steer(store, at, h, stack, &[])?;
                }
            }
            Instr::Local(LocalOp::Get, i) => {
                let i = i.to_usize();
                let n = at.code.type_.inputs().len();
                let t = if i < n { at.code.type_.inputs()[i] } else { at.code.locals[i - n] };
                if let Some(h) = local_hook(LocalOp::Get, t) {
                    self.steer(store, at, h, stack, &[i as u64])?;
                }
            }
            Instr::Global(GlobalOp::Get, i) => {
                if let Some(h) = global_hook(GlobalOp::Get, self.global_types[i.to_usize()]) {
                    self.steer(store, at, h, stack, &[u64::from(i.to_u32())])?;
                }
            }
            Instr::MemorySize(m) => self.steer(store, at, MEMORY_SIZE, stack, &[u64::from(m.to_u32())])?,
            Instr::Call(f) => self.tell(store, at, CALL_POST, &[u64::from(f.to_u32())])?,
            Instr::CallIndirect(_, t) => self.tell(store, at, CALL_INDIRECT_POST, &[u64::from(t.to_u32())])?,
            _ => {}
        }
        Ok(())
    }
}
pub fn uses_refs(t: FunctionType) -> bool {
    t.inputs().iter().chain(t.results()).any(|t| matches!(t, ValType::Ref(_)))
}
pub fn type_code(t: ValType) -> u64 {
    match t {
        I32 => 0,
        F32 => 1,
        I64 => 2,
        F64 => 3,
        _ => 99,
    }
}
/// function index, #arguments, #results, imported?, arguments, types of results and arguments.
fn apply_event(index: u32, imported: bool, t: FunctionType, args: &[u64]) -> Vec<u64> {
    let mut e = vec![u64::from(index), t.inputs().len() as u64, t.results().len() as u64, u64::from(imported)];
    e.extend_from_slice(args);
    e.extend(t.results().iter().chain(t.inputs()).map(|t| type_code(*t)));
    e
}

// ------------------------------------------------------------------ under test
/// Exports of the instrumented module and of the stack library that the analysis imports.
pub struct Links {
    pub call_base: Option<usize>,
    pub loads: Vec<usize>,
    pub stores: Vec<usize>,
    pub grow: usize,
    pub stack: HashMap<String, usize>,
}
pub struct UnderTest {
    pub party: Party,
    /// The instances of the instrumented module and of the stack library.
    pub target: Option<usize>,
    pub stack: Option<usize>,
    pub watch: Watch,
    pub links: Option<Links>,
    /// What the instrumented code did that no analysis could make sense of.
    pub undecodable: Option<String>,
}
/// Exports whose state is part of every digest.
#[derive(Clone, Default)]
pub struct Watch {
    pub globals: Vec<String>,
    pub mems: Vec<String>,
}
impl Watch {
    pub fn attach(&self, party: &mut Party, i: &Instance) {
        party.globals = self.globals.iter().filter_map(|n| match i.exports.get(n) {
            Some(Extern::Global(g)) => Some(*g),
            _ => None,
        }).collect();
        party.mems = self.mems.iter().filter_map(|n| match i.exports.get(n) {
            Some(Extern::Memory(g)) => Some(*g),
            _ => None,
        }).collect();
    }
}
impl Links {
    pub fn new(target: &Instance, stack: Option<&Instance>) -> Result<Links, String> {
        let f = |i: &Instance, n: &str| match i.exports.get(n) {
            Some(Extern::Func(f)) => Ok(*f),
            _ => Err(format!("export {n} is missing")),
        };
        Ok(Links {
            call_base: f(target, "call_base").ok(),
            loads: LoadOp::ALL.iter().map(|o| f(target, base_load_name(*o))).collect::<Result<_, _>>()?,
            stores: StoreOp::ALL.iter().map(|o| f(target, base_store_name(*o))).collect::<Result<_, _>>()?,
            grow: f(target, "instrumented_memory_grow")?,
            stack: stack
                .map(|s| {
                    s.exports
                        .iter()
                        .filter_map(|(n, e)| match e {
                            Extern::Func(f) => Some((n.clone(), *f)),
                            _ => None,
                        })
                        .collect()
                })
                .unwrap_or_default(),
        })
    }
}
/// Raised by the host side when the instrumented code breaks the protocol.
pub const PROTOCOL: Trap = Trap::Host(99);
pub fn suffix(code: u64) -> Option<(&'static str, ValType)> {
    Some(match code {
        0 => ("i32", I32),
        1 => ("f32", F32),
        2 => ("i64", I64),
        3 => ("f64", F64),
        _ => return None,
    })
}
impl UnderTest {
    fn protocol<T>(&mut self, m: String) -> Result<T, Trap> {
        self.undecodable.get_or_insert(m);
        Err(PROTOCOL)
    }
    fn stack_call(&mut self, store: &mut Store, name: &str, args: &[u64]) -> Result<u64, Trap> {
        let Some(f) = self.links.as_ref().and_then(|l| l.stack.get(name).copied()) else {
            return self.protocol(format!("the instrumentation library does not export {name}"));
        };
        Ok(store.invoke(self, f, args)?.first().copied().unwrap_or(0))
    }
    fn apply(&mut self, store: &mut Store, a: &[u64]) -> Result<(), Trap> {
        let (f_apply, index, argc, resc, sigv, sigtypv, code) = (a[0], a[1], a[2] as usize, a[3] as usize, a[4], a[5], a[6]);
        if argc + resc > 3000 {
            return self.protocol("more than 3000 values".into());
        }
        let mut types = vec![];
        for i in 0..argc + resc {
            types.push(self.stack_call(store, "wastrumentation_stack_load_type", &[sigtypv, i as u64])?);
        }
        let mut event = vec![index, argc as u64, resc as u64, code];
        let mut vt = vec![];
        for t in &types {
            match suffix(*t) {
                Some(x) => vt.push(x),
                None => return self.protocol(format!("value type code {t}")),
            }
        }
        let mut args = vec![];
        for i in resc..argc + resc {
            args.push(self.stack_call(store, &format!("wastrumentation_stack_load_{}", vt[i].0), &[sigv, i as u64])?);
        }
        event.extend_from_slice(&args);
        event.extend(types);
        let k = self.party.events;
        self.party.event(store, APPLY, &event)?;
        let put = |me: &mut Self, store: &mut Store, i: usize, v: u64| {
            me.stack_call(store, &format!("wastrumentation_stack_store_{}", vt[i].0), &[sigv, v, i as u64])
        };
        let skip = match self.party.apply {
            ApplyPolicy::Skip => true,
            ApplyPolicy::SkipAt(n) => n == k,
            _ => false,
        };
        if skip {
            for i in 0..resc {
                put(self, store, i, own_result(vt[i].1, i))?;
            }
            return Ok(());
        }
        if self.party.apply == ApplyPolicy::AlterArgs {
            for (i, v) in args.iter().enumerate() {
                put(self, store, resc + i, flip(vt[resc + i].1, *v))?;
            }
        }
        let Some(base) = self.links.as_ref().and_then(|l| l.call_base) else {
            return self.protocol("call_base is not exported".into());
        };
        store.invoke(self, base, &[f_apply, sigv])?;
        if self.party.apply == ApplyPolicy::Twice {
            store.invoke(self, base, &[f_apply, sigv])?;
        }
        if self.party.apply == ApplyPolicy::AlterResults {
            for i in 0..resc {
                let v = self.stack_call(store, &format!("wastrumentation_stack_load_{}", vt[i].0), &[sigv, i as u64])?;
                put(self, store, i, flip(vt[i].1, v))?;
            }
        }
        Ok(())
    }
}
impl Embedder for UnderTest {
    const OBSERVES: bool = false;
    fn linked(&mut self, store: &Store, instance: usize) {
        if Some(instance) != self.target {
            return;
        }
        let target = &store.instances[instance];
        self.watch.attach(&mut self.party, target);
        match Links::new(target, self.stack.map(|s| &store.instances[s])) {
            Ok(l) => self.links = Some(l),
            Err(e) => {
                self.undecodable.get_or_insert(e);
            }
        }
    }
    fn host(&mut self, store: &mut Store, id: usize, a: &[u64]) -> Result<Vec<u64>, Trap> {
        if id >= ENV as usize {
            return self.party.env(store, id - ENV as usize, a);
        }
        if id == APPLY {
            self.apply(store, a)?;
            return Ok(vec![]);
        }
        let def = hook(id);
        let k = self.party.events;
        self.party.event(store, id, a)?;
        let answer = |me: &Self, v: u64| Ok(vec![me.party.answer(k, def.result.unwrap(), v)]);
        match def.kind {
            Kind::Tell => Ok(vec![]),
            Kind::Steer => answer(self, a[0]),
            Kind::Apply => unreachable!(),
            Kind::Operate => match id {
                UNARY_I32_I32..=UNARY_F32_F64 => match UnaryOp::ALL.get((a[1] as usize).wrapping_sub(1)) {
                    Some(op) => {
                        let v = interp::num::unary(*op, a[0])?;
                        answer(self, v)
                    }
                    None => self.protocol(format!("unary operator code {}", a[1])),
                },
                BINARY_I32_I32..=BINARY_F64_F64 => match BinaryOp::ALL.get((a[2] as usize).wrapping_sub(1)) {
                    Some(op) => {
                        let v = interp::num::binary(*op, a[0], a[1])?;
                        answer(self, v)
                    }
                    None => self.protocol(format!("binary operator code {}", a[2])),
                },
                MEMORY_GROW => {
                    let Some(l) = &self.links else { return self.protocol("grow before the exports exist".into()) };
                    let f = l.grow;
                    let r = store.invoke(self, f, &[a[0], a[1] & 0xffff_ffff])?;
                    answer(self, r[0])
                }
                STORE_F32..=STORE_I64 => {
                    let Some(l) = &self.links else { return self.protocol("store before the exports exist".into()) };
                    let i = (a[3] as usize).wrapping_sub(1);
                    let Some(f) = l.stores.get(i).copied() else {
                        return self.protocol(format!("store operator code {}", a[3]));
                    };
                    let op = StoreOp::ALL[i];
                    if Some(id) != pick(op.ty(), STORE_I32, STORE_F32, STORE_I64, STORE_F64) {
                        return self.protocol(format!("{op:?} reported to {}", def.name));
                    }
                    let v = self.party.answer(k, op.ty(), a[1]);
                    store.invoke(self, f, &[a[0], v, a[2] & 0xffff_ffff])?;
                    Ok(vec![])
                }
                _ => {
                    let Some(l) = &self.links else { return self.protocol("load before the exports exist".into()) };
                    let i = (a[2] as usize).wrapping_sub(1);
                    let Some(f) = l.loads.get(i).copied() else {
                        return self.protocol(format!("load operator code {}", a[2]));
                    };
                    let op = LoadOp::ALL[i];
                    if Some(id) != pick(op.ty(), LOAD_I32, LOAD_F32, LOAD_I64, LOAD_F64) {
                        return self.protocol(format!("{op:?} reported to {}", def.name));
                    }
                    let v = store.invoke(self, f, &[a[0], a[1] & 0xffff_ffff])?[0];
                    answer(self, v)
                }
            },
        }
    }
}

pub fn describe_trace(trace: &[u64], marks: &[u32]) -> Vec<String> {
    (0..marks.len())
        .map(|i| {
            let end = marks.get(i + 1).map_or(trace.len(), |m| *m as usize);
            let e = &trace[marks[i] as usize..end];
            let args: Vec<String> = e[1..].iter().map(|x| if *x > 0xffff { format!("{x:#x}") } else { x.to_string() }).collect();
            let name = if e[0] >= ENV { format!("host function {}", e[0] - ENV) } else { hook(e[0] as usize).name.to_string() };
            format!("{name}({})", args.join(", "))
        })
        .collect()
}
