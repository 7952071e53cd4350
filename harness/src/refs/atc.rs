//! AMD_compressed_ATC_texture.
use super::{bc, Rgba};

fn ex(v: u32, bits: u32) -> i32 {
    // replicate the top bits into the low bits of an 8-bit value
    ((v << (8 - bits)) | (v >> (2 * bits - 8))) as i32
}

pub fn rgb(d: &[u8]) -> [Rgba; 16] {
    let c0 = d[0] as u32 | (d[1] as u32) << 8;
    let c1 = d[2] as u32 | (d[3] as u32) << 8;
    // colour 0 is x1r5g5b5, colour 1 is r5g6b5
    let a = [ex(c0 >> 10 & 31, 5), ex(c0 >> 5 & 31, 5), ex(c0 & 31, 5)];
    let b = [ex(c1 >> 11 & 31, 5), ex(c1 >> 5 & 63, 6), ex(c1 & 31, 5)];
    let mut pal = [[0i32; 3]; 4];
    for k in 0..3 {
        if c0 >> 15 == 0 {
            pal[0][k] = a[k];
            pal[1][k] = (5 * a[k] + 3 * b[k]) / 8;
            pal[2][k] = (3 * a[k] + 5 * b[k]) / 8;
            pal[3][k] = b[k];
        } else {
            pal[0][k] = 0;
            pal[1][k] = (a[k] - b[k] / 4).max(0);
            pal[2][k] = a[k];
            pal[3][k] = b[k];
        }
    }
    let mut o = [[255u8; 4]; 16];
    for i in 0..16 {
        let s = (d[4 + i / 4] >> (2 * (i % 4)) & 3) as usize;
        for k in 0..3 {
            o[i][k] = pal[s][k] as u8;
        }
    }
    o
}

pub fn rgba(d: &[u8]) -> [Rgba; 16] {
    let mut o = rgb(&d[8..]);
    let a = bc::alpha_bc3(d);
    for i in 0..16 {
        o[i][3] = a[i];
    }
    o
}
