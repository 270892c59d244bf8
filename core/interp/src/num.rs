//! Numeric instructions and memory accesses on 64-bit slots (i32 and f32 zero-extended).
use crate::Trap;
use wasabi_wasm::{BinaryOp, LoadOp, StoreOp, UnaryOp};

fn f32_of(x: u64) -> f32 {
    f32::from_bits(x as u32)
}
fn f64_of(x: u64) -> f64 {
    f64::from_bits(x)
}
fn r32(x: f32) -> u64 {
    u64::from(x.to_bits())
}
fn r64(x: f64) -> u64 {
    x.to_bits()
}
fn i(x: i32) -> u64 {
    u64::from(x as u32)
}
fn u(x: u32) -> u64 {
    u64::from(x)
}
fn b(x: bool) -> u64 {
    u64::from(x)
}
/// Arithmetic results that are NaN become the canonical NaN; everything else keeps its bits.
fn c32(x: f32) -> u64 {
    if x.is_nan() { 0x7fc0_0000 } else { r32(x) }
}
fn c64(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { r64(x) }
}
fn trunc(x: f64, lo_exclusive: f64, hi_exclusive: f64) -> Result<f64, Trap> {
    if x.is_nan() {
        return Err(Trap::BadConversion);
    }
    let t = x.trunc();
    if t > lo_exclusive && t < hi_exclusive { Ok(t) } else { Err(Trap::IntOverflow) }
}
fn trunc_ge(x: f64, lo: f64, hi_exclusive: f64) -> Result<f64, Trap> {
    if x.is_nan() {
        return Err(Trap::BadConversion);
    }
    let t = x.trunc();
    if t >= lo && t < hi_exclusive { Ok(t) } else { Err(Trap::IntOverflow) }
}

pub fn unary(op: UnaryOp, x: u64) -> Result<u64, Trap> {
    use UnaryOp::*;
    let w = x as u32;
    let (xs, xf) = (f32_of(x), f64_of(x));
    Ok(match op {
        I32Eqz => b(w == 0),
        I64Eqz => b(x == 0),
        I32Clz => u(w.leading_zeros()),
        I32Ctz => u(w.trailing_zeros()),
        I32Popcnt => u(w.count_ones()),
        I64Clz => u(x.leading_zeros()),
        I64Ctz => u(x.trailing_zeros()),
        I64Popcnt => u(x.count_ones()),
        F32Abs => u(w & 0x7fff_ffff),
        F32Neg => u(w ^ 0x8000_0000),
        F32Ceil => c32(xs.ceil()),
        F32Floor => c32(xs.floor()),
        F32Trunc => c32(xs.trunc()),
        F32Nearest => c32(xs.round_ties_even()),
        F32Sqrt => c32(xs.sqrt()),
        F64Abs => x & !(1 << 63),
        F64Neg => x ^ (1 << 63),
        F64Ceil => c64(xf.ceil()),
        F64Floor => c64(xf.floor()),
        F64Trunc => c64(xf.trunc()),
        F64Nearest => c64(xf.round_ties_even()),
        F64Sqrt => c64(xf.sqrt()),
        I32WrapI64 => u(w),
        I32TruncF32S => i(trunc_ge(xs.into(), -2147483648.0, 2147483648.0)? as i32),
        I32TruncF32U => u(trunc(xs.into(), -1.0, 4294967296.0)? as u32),
        I32TruncF64S => i(trunc_ge(xf, -2147483648.0, 2147483648.0)? as i32),
        I32TruncF64U => u(trunc(xf, -1.0, 4294967296.0)? as u32),
        I32TruncSatF32S => i(xs as i32),
        I32TruncSatF32U => u(xs as u32),
        I32TruncSatF64S => i(xf as i32),
        I32TruncSatF64U => u(xf as u32),
        I64ExtendI32S => (w as i32) as i64 as u64,
        I64ExtendI32U => u(w),
        I64TruncF32S => trunc_ge(xs.into(), -9223372036854775808.0, 9223372036854775808.0)? as i64 as u64,
        I64TruncF32U => trunc(xs.into(), -1.0, 18446744073709551616.0)? as u64,
        I64TruncF64S => trunc_ge(xf, -9223372036854775808.0, 9223372036854775808.0)? as i64 as u64,
        I64TruncF64U => trunc(xf, -1.0, 18446744073709551616.0)? as u64,
        I64TruncSatF32S => xs as i64 as u64,
        I64TruncSatF32U => xs as u64,
        I64TruncSatF64S => xf as i64 as u64,
        I64TruncSatF64U => xf as u64,
        F32ConvertI32S => r32((w as i32) as f32),
        F32ConvertI32U => r32(w as f32),
        F32ConvertI64S => r32((x as i64) as f32),
        F32ConvertI64U => r32(x as f32),
        F32DemoteF64 => c32(xf as f32),
        F64ConvertI32S => r64(f64::from(w as i32)),
        F64ConvertI32U => r64(f64::from(w)),
        F64ConvertI64S => r64((x as i64) as f64),
        F64ConvertI64U => r64(x as f64),
        F64PromoteF32 => c64(f64::from(xs)),
        I32ReinterpretF32 | F32ReinterpretI32 => u(w),
        I64ReinterpretF64 | F64ReinterpretI64 => x,
        I32Extend8S => i(i32::from(x as i8)),
        I32Extend16S => i(i32::from(x as i16)),
        I64Extend8S => i64::from(x as i8) as u64,
        I64Extend16S => i64::from(x as i16) as u64,
        I64Extend32S => i64::from(x as i32) as u64,
    })
}

macro_rules! fmin {
    ($a:expr, $b:expr) => {
        if $a.is_nan() || $b.is_nan() {
            $a + $b
        } else if $a == 0.0 && $b == 0.0 {
            if $a.is_sign_negative() { $a } else { $b }
        } else if $a < $b {
            $a
        } else {
            $b
        }
    };
}
macro_rules! fmax {
    ($a:expr, $b:expr) => {
        if $a.is_nan() || $b.is_nan() {
            $a + $b
        } else if $a == 0.0 && $b == 0.0 {
            if $a.is_sign_negative() { $b } else { $a }
        } else if $a > $b {
            $a
        } else {
            $b
        }
    };
}

pub fn binary(op: BinaryOp, l: u64, r: u64) -> Result<u64, Trap> {
    use BinaryOp::*;
    let (lw, rw) = (l as u32, r as u32);
    let (li, ri) = (lw as i32, rw as i32);
    let (ls, rs) = (l as i64, r as i64);
    let (lf, rf) = (f32_of(l), f32_of(r));
    let (ld, rd) = (f64_of(l), f64_of(r));
    Ok(match op {
        I32Eq => b(lw == rw),
        I32Ne => b(lw != rw),
        I32LtS => b(li < ri),
        I32LtU => b(lw < rw),
        I32GtS => b(li > ri),
        I32GtU => b(lw > rw),
        I32LeS => b(li <= ri),
        I32LeU => b(lw <= rw),
        I32GeS => b(li >= ri),
        I32GeU => b(lw >= rw),
        I64Eq => b(l == r),
        I64Ne => b(l != r),
        I64LtS => b(ls < rs),
        I64LtU => b(l < r),
        I64GtS => b(ls > rs),
        I64GtU => b(l > r),
        I64LeS => b(ls <= rs),
        I64LeU => b(l <= r),
        I64GeS => b(ls >= rs),
        I64GeU => b(l >= r),
        F32Eq => b(lf == rf),
        F32Ne => b(lf != rf),
        F32Lt => b(lf < rf),
        F32Gt => b(lf > rf),
        F32Le => b(lf <= rf),
        F32Ge => b(lf >= rf),
        F64Eq => b(ld == rd),
        F64Ne => b(ld != rd),
        F64Lt => b(ld < rd),
        F64Gt => b(ld > rd),
        F64Le => b(ld <= rd),
        F64Ge => b(ld >= rd),
        I32Add => u(lw.wrapping_add(rw)),
        I32Sub => u(lw.wrapping_sub(rw)),
        I32Mul => u(lw.wrapping_mul(rw)),
        I32DivS => {
            if ri == 0 {
                return Err(Trap::DivZero);
            }
            i(li.checked_div(ri).ok_or(Trap::IntOverflow)?)
        }
        I32DivU => u(lw.checked_div(rw).ok_or(Trap::DivZero)?),
        I32RemS => {
            if ri == 0 {
                return Err(Trap::DivZero);
            }
            i(li.wrapping_rem(ri))
        }
        I32RemU => u(lw.checked_rem(rw).ok_or(Trap::DivZero)?),
        I32And => u(lw & rw),
        I32Or => u(lw | rw),
        I32Xor => u(lw ^ rw),
        I32Shl => u(lw.wrapping_shl(rw)),
        I32ShrS => i(li.wrapping_shr(rw)),
        I32ShrU => u(lw.wrapping_shr(rw)),
        I32Rotl => u(lw.rotate_left(rw & 31)),
        I32Rotr => u(lw.rotate_right(rw & 31)),
        I64Add => l.wrapping_add(r),
        I64Sub => l.wrapping_sub(r),
        I64Mul => l.wrapping_mul(r),
        I64DivS => {
            if rs == 0 {
                return Err(Trap::DivZero);
            }
            ls.checked_div(rs).ok_or(Trap::IntOverflow)? as u64
        }
        I64DivU => l.checked_div(r).ok_or(Trap::DivZero)?,
        I64RemS => {
            if rs == 0 {
                return Err(Trap::DivZero);
            }
            ls.wrapping_rem(rs) as u64
        }
        I64RemU => l.checked_rem(r).ok_or(Trap::DivZero)?,
        I64And => l & r,
        I64Or => l | r,
        I64Xor => l ^ r,
        I64Shl => l.wrapping_shl(r as u32),
        I64ShrS => ls.wrapping_shr(r as u32) as u64,
        I64ShrU => l.wrapping_shr(r as u32),
        I64Rotl => l.rotate_left((r & 63) as u32),
        I64Rotr => l.rotate_right((r & 63) as u32),
        F32Add => c32(lf + rf),
        F32Sub => c32(lf - rf),
        F32Mul => c32(lf * rf),
        F32Div => c32(lf / rf),
        F32Min => c32(fmin!(lf, rf)),
        F32Max => c32(fmax!(lf, rf)),
        F32Copysign => u((lw & 0x7fff_ffff) | (rw & 0x8000_0000)),
        F64Add => c64(ld + rd),
        F64Sub => c64(ld - rd),
        F64Mul => c64(ld * rd),
        F64Div => c64(ld / rd),
        F64Min => c64(fmin!(ld, rd)),
        F64Max => c64(fmax!(ld, rd)),
        F64Copysign => (l & !(1 << 63)) | (r & (1 << 63)),
    })
}

fn span(mem: &[u8], ptr: u64, offset: u32, n: usize) -> Result<std::ops::Range<usize>, Trap> {
    let start = (ptr & 0xffff_ffff) + u64::from(offset);
    let end = start + n as u64;
    if end > mem.len() as u64 {
        return Err(Trap::OobMemory);
    }
    Ok(start as usize..end as usize)
}
pub fn load(op: LoadOp, mem: &[u8], ptr: u64, offset: u32) -> Result<u64, Trap> {
    use LoadOp::*;
    let n = match op {
        I32Load | F32Load | I64Load32S | I64Load32U => 4,
        I64Load | F64Load => 8,
        I32Load8S | I32Load8U | I64Load8S | I64Load8U => 1,
        I32Load16S | I32Load16U | I64Load16S | I64Load16U => 2,
    };
    let mut buf = [0u8; 8];
    buf[..n].copy_from_slice(&mem[span(mem, ptr, offset, n)?]);
    let x = u64::from_le_bytes(buf);
    Ok(match op {
        I32Load | F32Load | I64Load | F64Load | I32Load8U | I64Load8U | I32Load16U | I64Load16U | I64Load32U => x,
        I32Load8S => i(i32::from(x as i8)),
        I32Load16S => i(i32::from(x as i16)),
        I64Load8S => i64::from(x as i8) as u64,
        I64Load16S => i64::from(x as i16) as u64,
        I64Load32S => i64::from(x as i32) as u64,
    })
}
pub fn store(op: StoreOp, mem: &mut [u8], ptr: u64, value: u64, offset: u32) -> Result<(), Trap> {
    use StoreOp::*;
    let n = match op {
        I32Store | F32Store | I64Store32 => 4,
        I64Store | F64Store => 8,
        I32Store8 | I64Store8 => 1,
        I32Store16 | I64Store16 => 2,
    };
    let r = span(mem, ptr, offset, n)?;
    mem[r].copy_from_slice(&value.to_le_bytes()[..n]);
    Ok(())
}
