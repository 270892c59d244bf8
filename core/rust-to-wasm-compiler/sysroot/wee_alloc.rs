//! A stand-in for wee_alloc that holds its users to the contract: memory is given back once, with the layout it
//! was asked for with, and what was given back is overwritten.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
pub struct WeeAlloc;
impl WeeAlloc {
    pub const INIT: Self = WeeAlloc;
}
/// Before every block.
#[repr(C, align(8))]
struct Head {
    state: u32,
    size: u32,
    align: u32,
    next: u32,
}
const LIVE: u32 = 0x11fe_11fe;
const FREE: u32 = 0xdead_dead;
static mut NEXT: usize = 0;
static mut END: usize = 0;
/// By size in words; the last one is for all that are larger.
static mut FREED: [u32; 2048] = [0; 2048];
fn freed(size: usize) -> *mut u32 {
    unsafe { (&raw mut FREED as *mut u32).add(if size / 4 < 2047 { size / 4 } else { 2047 }) }
}
fn fail() -> ! {
    core::arch::wasm32::unreachable()
}
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            return l.align() as *mut u8;
        }
        if l.align() > 8 {
            fail()
        }
        // a freed block that fits exactly
        let mut at = freed(l.size());
        while *at != 0 {
            let h = *at as *mut Head;
            if (*h).size == l.size() as u32 {
                *at = (*h).next;
                (*h).state = LIVE;
                (*h).align = l.align() as u32;
                return h.add(1) as *mut u8;
            }
            at = &raw mut (*h).next;
        }
        let bytes = size_of::<Head>() + (l.size() + 7) / 8 * 8;
        if NEXT == 0 {
            NEXT = core::arch::wasm32::memory_grow(0, 1) * 65536;
            END = NEXT + 65536;
        }
        while NEXT + bytes > END {
            if core::arch::wasm32::memory_grow(0, 1) * 65536 != END {
                fail()
            }
            END += 65536;
        }
        let h = NEXT as *mut Head;
        NEXT += bytes;
        *h = Head { state: LIVE, size: l.size() as u32, align: l.align() as u32, next: 0 };
        poison(h);
        h.add(1) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 0 {
            return;
        }
        let h = (p as *mut Head).sub(1);
        if (*h).state != LIVE || (*h).size != l.size() as u32 || (*h).align != l.align() as u32 {
            fail()
        }
        (*h).state = FREE;
        (*h).next = *freed(l.size());
        *freed(l.size()) = h as u32;
        poison(h);
    }
}
unsafe fn poison(h: *mut Head) {
    let mut i = 0;
    while i < (*h).size as usize {
        *(h.add(1) as *mut u8).add(i) = 0xa5;
        i += 1;
    }
}
