//! What the code generator may call on its own.
#![feature(compiler_builtins)]
#![allow(internal_features)]
#![compiler_builtins]
#![no_builtins]
#![no_std]
#[no_mangle]
pub unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n {
        *to.wrapping_add(i) = *from.wrapping_add(i);
        i = i.wrapping_add(1);
    }
    to
}
#[no_mangle]
pub unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    if (to as usize) < from as usize {
        return memcpy(to, from, n);
    }
    let mut i = n;
    while i > 0 {
        i = i.wrapping_sub(1);
        *to.wrapping_add(i) = *from.wrapping_add(i);
    }
    to
}
#[no_mangle]
pub unsafe extern "C" fn memset(to: *mut u8, c: i32, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n {
        *to.wrapping_add(i) = c as u8;
        i = i.wrapping_add(1);
    }
    to
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (*a.wrapping_add(i), *b.wrapping_add(i));
        if x != y {
            return (x as i32).wrapping_sub(y as i32);
        }
        i = i.wrapping_add(1);
    }
    0
}
