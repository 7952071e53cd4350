//! BC1..BC5 (S3TC / RGTC), Khronos Data Format chapters 18 and 19, with the
//! library's integer rounding (interpolants round down).
use super::Rgba;

fn rgb565(v: u16) -> [u32; 3] {
    let r = (v >> 11) as u32 & 31;
    let g = (v >> 5) as u32 & 63;
    let b = v as u32 & 31;
    [r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2]
}

#[derive(Clone, Copy, PartialEq)]
pub enum ColorKind {
    /// three-colour blocks' fourth colour is opaque black
    Bc1,
    /// ... is transparent black
    Bc1a,
    /// colour half of BC2/BC3: always four colours
    FourColor,
}

pub fn color_block(d: &[u8], kind: ColorKind) -> [Rgba; 16] {
    let q0 = d[0] as u16 | (d[1] as u16) << 8;
    let q1 = d[2] as u16 | (d[3] as u16) << 8;
    let (e0, e1) = (rgb565(q0), rgb565(q1));
    let mix = |w0: u32, w1: u32| -> Rgba {
        let mut o = [255u8; 4];
        for k in 0..3 {
            o[k] = ((e0[k] * w0 + e1[k] * w1) / (w0 + w1)) as u8;
        }
        o
    };
    let pal: [Rgba; 4] = if q0 > q1 || kind == ColorKind::FourColor {
        [mix(1, 0), mix(0, 1), mix(2, 1), mix(1, 2)]
    } else {
        let a = if kind == ColorKind::Bc1a { 0 } else { 255 };
        [mix(1, 0), mix(0, 1), mix(1, 1), [0, 0, 0, a]]
    };
    let mut out = [[0; 4]; 16];
    for (i, o) in out.iter_mut().enumerate() {
        let byte = d[4 + i / 4];
        *o = pal[(byte >> (2 * (i % 4)) & 3) as usize];
    }
    out
}

pub fn alpha_bc2(d: &[u8]) -> [u8; 16] {
    let mut out = [0; 16];
    for (i, o) in out.iter_mut().enumerate() {
        let n = if i % 2 == 0 { d[i / 2] & 15 } else { d[i / 2] >> 4 };
        *o = n * 17;
    }
    out
}

/// RGTC / BC3-alpha / BC4 channel block.
pub fn alpha_bc3(d: &[u8]) -> [u8; 16] {
    let (a0, a1) = (d[0] as u32, d[1] as u32);
    let mut pal = [0u8; 8];
    pal[0] = d[0];
    pal[1] = d[1];
    if a0 > a1 {
        for k in 1..7u32 {
            pal[k as usize + 1] = (((7 - k) * a0 + k * a1) / 7) as u8;
        }
    } else {
        for k in 1..5u32 {
            pal[k as usize + 1] = (((5 - k) * a0 + k * a1) / 5) as u8;
        }
        pal[6] = 0;
        pal[7] = 255;
    }
    let mut v: u64 = 0;
    for k in (2..8).rev() {
        v = v << 8 | d[k] as u64;
    }
    let mut out = [0; 16];
    for (i, o) in out.iter_mut().enumerate() {
        *o = pal[(v >> (3 * i) & 7) as usize];
    }
    out
}

pub fn bc1(d: &[u8]) -> [Rgba; 16] {
    color_block(d, ColorKind::Bc1)
}
pub fn bc1a(d: &[u8]) -> [Rgba; 16] {
    color_block(d, ColorKind::Bc1a)
}
pub fn bc2(d: &[u8]) -> [Rgba; 16] {
    let mut o = color_block(&d[8..], ColorKind::FourColor);
    let a = alpha_bc2(d);
    for i in 0..16 {
        o[i][3] = a[i];
    }
    o
}
pub fn bc3(d: &[u8]) -> [Rgba; 16] {
    let mut o = color_block(&d[8..], ColorKind::FourColor);
    let a = alpha_bc3(d);
    for i in 0..16 {
        o[i][3] = a[i];
    }
    o
}
/// As an image: green and blue 0, alpha 255.
pub fn bc4(d: &[u8]) -> [Rgba; 16] {
    alpha_bc3(d).map(|r| [r, 0, 0, 255])
}
pub fn bc5(d: &[u8]) -> [Rgba; 16] {
    let r = alpha_bc3(d);
    let g = alpha_bc3(&d[8..]);
    let mut o = [[0, 0, 0, 255]; 16];
    for i in 0..16 {
        o[i][0] = r[i];
        o[i][1] = g[i];
    }
    o
}
