//! Operators, spelt exactly as in the Wasm specification (and as wasmparser and wasm-encoder spell them).
use crate::ValType::{self, F32, F64, I32, I64};

macro_rules! unary_ops {
    ($($op:ident : $a:ident => $r:ident),* $(,)?) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum UnaryOp { $($op),* }
        impl UnaryOp {
            pub const ALL: &'static [UnaryOp] = &[$(UnaryOp::$op),*];
            pub fn ty(self) -> (ValType, ValType) { match self { $(UnaryOp::$op => ($a, $r)),* } }
            pub(crate) fn encode(self) -> wasm_encoder::Instruction<'static> {
                match self { $(UnaryOp::$op => wasm_encoder::Instruction::$op),* }
            }
            pub(crate) fn decode(o: &wasmparser::Operator) -> Option<Self> {
                match o { $(wasmparser::Operator::$op => Some(UnaryOp::$op),)* _ => None }
            }
        }
    };
}
macro_rules! binary_ops {
    ($($op:ident : $a:ident => $r:ident),* $(,)?) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum BinaryOp { $($op),* }
        impl BinaryOp {
            pub const ALL: &'static [BinaryOp] = &[$(BinaryOp::$op),*];
            pub fn ty(self) -> (ValType, ValType) { match self { $(BinaryOp::$op => ($a, $r)),* } }
            pub(crate) fn encode(self) -> wasm_encoder::Instruction<'static> {
                match self { $(BinaryOp::$op => wasm_encoder::Instruction::$op),* }
            }
            pub(crate) fn decode(o: &wasmparser::Operator) -> Option<Self> {
                match o { $(wasmparser::Operator::$op => Some(BinaryOp::$op),)* _ => None }
            }
        }
    };
}
macro_rules! mem_ops {
    ($name:ident : $($op:ident : $t:ident $align:literal),* $(,)?) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($op),* }
        impl $name {
            pub const ALL: &'static [$name] = &[$($name::$op),*];
            pub fn ty(self) -> ValType { match self { $($name::$op => $t),* } }
            pub(crate) fn encode(self, m: wasm_encoder::MemArg) -> wasm_encoder::Instruction<'static> {
                match self { $($name::$op => wasm_encoder::Instruction::$op(m)),* }
            }
            pub(crate) fn decode(o: &wasmparser::Operator) -> Option<(Self, wasmparser::MemArg)> {
                match o { $(wasmparser::Operator::$op { memarg } => Some(($name::$op, *memarg)),)* _ => None }
            }
        }
        impl MemoryOp for $name {
            fn natural_alignment_exp(self) -> u8 { match self { $($name::$op => $align),* } }
        }
    };
}
pub trait MemoryOp: Copy {
    fn natural_alignment_exp(self) -> u8;
}

unary_ops! {
    I32Eqz: I32 => I32, I64Eqz: I64 => I32,
    I32Clz: I32 => I32, I32Ctz: I32 => I32, I32Popcnt: I32 => I32,
    I64Clz: I64 => I64, I64Ctz: I64 => I64, I64Popcnt: I64 => I64,
    F32Abs: F32 => F32, F32Neg: F32 => F32, F32Ceil: F32 => F32, F32Floor: F32 => F32, F32Trunc: F32 => F32, F32Nearest: F32 => F32, F32Sqrt: F32 => F32,
    F64Abs: F64 => F64, F64Neg: F64 => F64, F64Ceil: F64 => F64, F64Floor: F64 => F64, F64Trunc: F64 => F64, F64Nearest: F64 => F64, F64Sqrt: F64 => F64,
    I32WrapI64: I64 => I32,
    I32TruncF32S: F32 => I32, I32TruncF32U: F32 => I32, I32TruncF64S: F64 => I32, I32TruncF64U: F64 => I32,
    I32TruncSatF32S: F32 => I32, I32TruncSatF32U: F32 => I32, I32TruncSatF64S: F64 => I32, I32TruncSatF64U: F64 => I32,
    I64ExtendI32S: I32 => I64, I64ExtendI32U: I32 => I64,
    I64TruncF32S: F32 => I64, I64TruncF32U: F32 => I64, I64TruncF64S: F64 => I64, I64TruncF64U: F64 => I64,
    I64TruncSatF32S: F32 => I64, I64TruncSatF32U: F32 => I64, I64TruncSatF64S: F64 => I64, I64TruncSatF64U: F64 => I64,
    F32ConvertI32S: I32 => F32, F32ConvertI32U: I32 => F32, F32ConvertI64S: I64 => F32, F32ConvertI64U: I64 => F32, F32DemoteF64: F64 => F32,
    F64ConvertI32S: I32 => F64, F64ConvertI32U: I32 => F64, F64ConvertI64S: I64 => F64, F64ConvertI64U: I64 => F64, F64PromoteF32: F32 => F64,
    I32ReinterpretF32: F32 => I32, I64ReinterpretF64: F64 => I64, F32ReinterpretI32: I32 => F32, F64ReinterpretI64: I64 => F64,
    I32Extend8S: I32 => I32, I32Extend16S: I32 => I32, I64Extend8S: I64 => I64, I64Extend16S: I64 => I64, I64Extend32S: I64 => I64,
}
binary_ops! {
    I32Eq: I32 => I32, I32Ne: I32 => I32, I32LtS: I32 => I32, I32LtU: I32 => I32, I32GtS: I32 => I32, I32GtU: I32 => I32, I32LeS: I32 => I32, I32LeU: I32 => I32, I32GeS: I32 => I32, I32GeU: I32 => I32,
    I64Eq: I64 => I32, I64Ne: I64 => I32, I64LtS: I64 => I32, I64LtU: I64 => I32, I64GtS: I64 => I32, I64GtU: I64 => I32, I64LeS: I64 => I32, I64LeU: I64 => I32, I64GeS: I64 => I32, I64GeU: I64 => I32,
    F32Eq: F32 => I32, F32Ne: F32 => I32, F32Lt: F32 => I32, F32Gt: F32 => I32, F32Le: F32 => I32, F32Ge: F32 => I32,
    F64Eq: F64 => I32, F64Ne: F64 => I32, F64Lt: F64 => I32, F64Gt: F64 => I32, F64Le: F64 => I32, F64Ge: F64 => I32,
    I32Add: I32 => I32, I32Sub: I32 => I32, I32Mul: I32 => I32, I32DivS: I32 => I32, I32DivU: I32 => I32, I32RemS: I32 => I32, I32RemU: I32 => I32,
    I32And: I32 => I32, I32Or: I32 => I32, I32Xor: I32 => I32, I32Shl: I32 => I32, I32ShrS: I32 => I32, I32ShrU: I32 => I32, I32Rotl: I32 => I32, I32Rotr: I32 => I32,
    I64Add: I64 => I64, I64Sub: I64 => I64, I64Mul: I64 => I64, I64DivS: I64 => I64, I64DivU: I64 => I64, I64RemS: I64 => I64, I64RemU: I64 => I64,
    I64And: I64 => I64, I64Or: I64 => I64, I64Xor: I64 => I64, I64Shl: I64 => I64, I64ShrS: I64 => I64, I64ShrU: I64 => I64, I64Rotl: I64 => I64, I64Rotr: I64 => I64,
    F32Add: F32 => F32, F32Sub: F32 => F32, F32Mul: F32 => F32, F32Div: F32 => F32, F32Min: F32 => F32, F32Max: F32 => F32, F32Copysign: F32 => F32,
    F64Add: F64 => F64, F64Sub: F64 => F64, F64Mul: F64 => F64, F64Div: F64 => F64, F64Min: F64 => F64, F64Max: F64 => F64, F64Copysign: F64 => F64,
}
mem_ops! { LoadOp:
    I32Load: I32 2, I64Load: I64 3, F32Load: F32 2, F64Load: F64 3,
    I32Load8S: I32 0, I32Load8U: I32 0, I32Load16S: I32 1, I32Load16U: I32 1,
    I64Load8S: I64 0, I64Load8U: I64 0, I64Load16S: I64 1, I64Load16U: I64 1, I64Load32S: I64 2, I64Load32U: I64 2,
}
mem_ops! { StoreOp:
    I32Store: I32 2, I64Store: I64 3, F32Store: F32 2, F64Store: F64 3,
    I32Store8: I32 0, I32Store16: I32 1, I64Store8: I64 0, I64Store16: I64 1, I64Store32: I64 2,
}
