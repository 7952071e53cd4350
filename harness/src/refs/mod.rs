//! Reference decoders, written from the format specifications and sharing no
//! code or tables with the library under test.
pub mod astc;
pub mod atc;
pub mod bc;
pub mod crn;
pub mod bc6;
pub mod bc7;
pub mod etc;
pub mod pvrtc;

/// (r, g, b, a)
pub type Rgba = [u8; 4];

/// The library's pixel word: bytes B, G, R, A in memory order.
pub fn word(c: Rgba) -> u32 {
    u32::from_le_bytes([c[2], c[1], c[0], c[3]])
}
pub fn rgba(w: u32) -> Rgba {
    let b = w.to_le_bytes();
    [b[2], b[1], b[0], b[3]]
}

/// Bits lo..lo+n of a little-endian 128-bit block.
pub fn bits128(block: &[u8], lo: u32, n: u32) -> u32 {
    let v = u128::from_le_bytes(block[..16].try_into().unwrap());
    if n == 0 || lo >= 128 {
        return 0;
    }
    ((v >> lo) & ((1u128 << n) - 1)) as u32
}

/// Value of an IEEE half float as f64 (NaN and infinities included).
pub fn half(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}
