//! The library for a 32-bit host without an operating system. Memory: a bump
//! allocator, emptied by `t2d_reset` before each call; without the feature `alloc`
//! the library cannot reach it.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;
use texture2ddecoder as t;

include!("../../shim/src/tables.rs");

struct Bump(UnsafeCell<usize>);
unsafe impl Sync for Bump {}
extern "C" {
    static __heap_base: u8;
}
const PAGE: usize = 65536;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let next = &mut *self.0.get();
        if *next == 0 {
            *next = core::ptr::addr_of!(__heap_base) as usize;
        }
        let at = (*next + l.align() - 1) & !(l.align() - 1);
        let Some(end) = at.checked_add(l.size()) else { return core::ptr::null_mut() };
        let have = core::arch::wasm32::memory_size(0) * PAGE;
        if end > have {
            let more = (end - have).div_ceil(PAGE);
            if core::arch::wasm32::memory_grow(0, more) == usize::MAX {
                return core::ptr::null_mut();
            }
        }
        *next = end;
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[cfg_attr(feature = "alloc", global_allocator)]
static HEAP: Bump = Bump(UnsafeCell::new(0));

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

#[no_mangle]
pub extern "C" fn t2d_reset() {
    unsafe { *HEAP.0.get() = 0 }
}
/// Room for `n` bytes, aligned for words; 0 if there is none.
#[no_mangle]
pub extern "C" fn t2d_room(n: usize) -> *mut u8 {
    match Layout::from_size_align(n, 16) {
        Ok(l) => unsafe { HEAP.alloc(l) },
        Err(_) => core::ptr::null_mut(),
    }
}
/// # Safety
/// The pointers must be valid for their lengths.
#[no_mangle]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn t2d_call(
    op: u32,
    block: u32,
    a: usize,
    b: usize,
    data: *const u8,
    len: usize,
    w: usize,
    h: usize,
    img: *mut u32,
    img_len: usize,
) -> i32 {
    let d = core::slice::from_raw_parts(data, len);
    let i = core::slice::from_raw_parts_mut(img, img_len);
    match dispatch(op, block != 0, a, b, d, w, h, i) {
        Some(Ok(())) => 0,
        Some(Err(_)) => 1,
        None => 3,
    }
}
