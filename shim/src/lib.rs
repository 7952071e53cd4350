//! One entry point for every decoder, by number, so that builds of the library
//! in different configurations can be driven with the same cases.
use std::panic::{catch_unwind, AssertUnwindSafe};
use texture2ddecoder as t;

include!("tables.rs");

/// 0..19: formats; 19..33: ASTC by name; 33, 34: BC6H by parameter; 40: ASTC
/// by parameter; 50, 51: PVRTC 2/4bpp by parameter; 52, 53: by name;
/// 60, 61: Crunch, Unity Crunch. `block`: the block decoder, into `img`.
/// 0: decoded, 1: an error, 2: a panic, 3: not in this build.
#[allow(clippy::too_many_arguments)]
pub fn call(op: u32, block: bool, a: usize, b: usize, data: &[u8], w: usize, h: usize, img: &mut [u32]) -> i32 {
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(op, block, a, b, data, w, h, img)));
    match r {
        Ok(Some(Ok(()))) => 0,
        Ok(Some(Err(_))) => 1,
        Err(_) => 2,
        Ok(None) => 3,
    }
}

/// # Safety
/// The pointers must be valid for their lengths.
#[no_mangle]
pub unsafe extern "C" fn t2d_shim_call(
    op: u32,
    block: u32,
    a: usize,
    b: usize,
    data: *const u8,
    len: usize,
    w: usize,
    h: usize,
    img: *mut u32,
    img_len: usize,
) -> i32 {
    let d = std::slice::from_raw_parts(data, len);
    let i = std::slice::from_raw_parts_mut(img, img_len);
    call(op, block != 0, a, b, d, w, h, i)
}

#[no_mangle]
pub extern "C" fn t2d_shim_init() -> u32 {
    std::panic::set_hook(Box::new(|_| {}));
    cfg!(feature = "alloc") as u32
}
