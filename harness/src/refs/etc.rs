//! ETC1, ETC2 (RGB, punch-through alpha, RGBA8) and EAC, Khronos Data Format
//! chapters 20-22. Texel i of a block is column i/4, row i%4.
use super::Rgba;

static MOD: [[i32; 2]; 8] =
    [[2, 8], [5, 17], [9, 29], [13, 42], [18, 60], [24, 80], [33, 106], [47, 183]];
static DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
static EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];

fn c8(v: i32) -> u8 {
    v.clamp(0, 255) as u8
}
fn b(v: u64, hi: u32, lo: u32) -> i32 {
    (v >> lo & ((1 << (hi - lo + 1)) - 1)) as i32
}
fn e4(v: i32) -> i32 {
    v << 4 | v
}
fn e5(v: i32) -> i32 {
    v << 3 | v >> 2
}
fn e6(v: i32) -> i32 {
    v << 2 | v >> 4
}
fn e7(v: i32) -> i32 {
    v << 1 | v >> 6
}
fn s3(v: i32) -> i32 {
    if v >= 4 {
        v - 8
    } else {
        v
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Individual,
    Differential,
    T,
    H,
    Planar,
}

/// Mode of a block; `punch` formats have no individual mode.
pub fn kind(d: &[u8], punch: bool) -> Kind {
    let v = u64::from_be_bytes(d[..8].try_into().unwrap());
    if !punch && b(v, 33, 33) == 0 {
        return Kind::Individual;
    }
    let over = |base: i32, delta: i32| !(0..=31).contains(&(base + s3(delta)));
    if over(b(v, 63, 59), b(v, 58, 56)) {
        Kind::T
    } else if over(b(v, 55, 51), b(v, 50, 48)) {
        Kind::H
    } else if over(b(v, 47, 43), b(v, 42, 40)) {
        Kind::Planar
    } else {
        Kind::Differential
    }
}

/// (0..16 in block row-major order) colour; alpha 0 marks punch-through texels
/// (their RGB is reported as 0).
fn rgb_block(d: &[u8], punch: bool) -> [Rgba; 16] {
    let v = u64::from_be_bytes(d[..8].try_into().unwrap());
    let opaque = !punch || b(v, 33, 33) == 1;
    let k = kind(d, punch);
    let mut out = [[0u8; 4]; 16];
    let index = |t: u32| (b(v, 16 + t, 16 + t) << 1 | b(v, t, t)) as usize;
    match k {
        Kind::Planar => {
            let o = [
                e6(b(v, 62, 57)),
                e7(b(v, 56, 56) << 6 | b(v, 54, 49)),
                e6(b(v, 48, 48) << 5 | b(v, 44, 43) << 3 | b(v, 41, 39)),
            ];
            let h = [e6(b(v, 38, 34) << 1 | b(v, 32, 32)), e7(b(v, 31, 25)), e6(b(v, 24, 19))];
            let w = [e6(b(v, 18, 13)), e7(b(v, 12, 6)), e6(b(v, 5, 0))];
            for y in 0..4i32 {
                for x in 0..4i32 {
                    for c in 0..3 {
                        out[(y * 4 + x) as usize][c] =
                            c8((x * (h[c] - o[c]) + y * (w[c] - o[c]) + 4 * o[c] + 2) >> 2);
                    }
                    out[(y * 4 + x) as usize][3] = 255;
                }
            }
        }
        Kind::T | Kind::H => {
            let (c0, c1, di);
            if k == Kind::T {
                c0 = [e4(b(v, 60, 59) << 2 | b(v, 57, 56)), e4(b(v, 55, 52)), e4(b(v, 51, 48))];
                c1 = [e4(b(v, 47, 44)), e4(b(v, 43, 40)), e4(b(v, 39, 36))];
                di = b(v, 35, 34) << 1 | b(v, 32, 32);
            } else {
                let r1 = b(v, 62, 59);
                let g1 = b(v, 58, 56) << 1 | b(v, 52, 52);
                let b1 = b(v, 51, 51) << 3 | b(v, 49, 47);
                let r2 = b(v, 46, 43);
                let g2 = b(v, 42, 39);
                let b2 = b(v, 38, 35);
                c0 = [e4(r1), e4(g1), e4(b1)];
                c1 = [e4(r2), e4(g2), e4(b2)];
                let ge = (r1 << 8 | g1 << 4 | b1) >= (r2 << 8 | g2 << 4 | b2);
                di = b(v, 34, 34) << 2 | b(v, 32, 32) << 1 | ge as i32;
            }
            let dist = DIST[di as usize];
            let sh = |c: [i32; 3], s: i32| [c8(c[0] + s), c8(c[1] + s), c8(c[2] + s), 255];
            let pal = if k == Kind::T {
                [sh(c0, 0), sh(c1, dist), sh(c1, 0), sh(c1, -dist)]
            } else {
                [sh(c0, dist), sh(c0, -dist), sh(c1, dist), sh(c1, -dist)]
            };
            for t in 0..16u32 {
                let (x, y) = (t / 4, t % 4);
                let i = index(t);
                out[(y * 4 + x) as usize] =
                    if !opaque && i == 2 { [0; 4] } else { pal[i] };
            }
        }
        _ => {
            let mut base = [[0i32; 3]; 2];
            for c in 0..3u32 {
                let hi = 63 - 8 * c;
                if k == Kind::Individual {
                    base[0][c as usize] = e4(b(v, hi, hi - 3));
                    base[1][c as usize] = e4(b(v, hi - 4, hi - 7));
                } else {
                    let p = b(v, hi, hi - 4);
                    base[0][c as usize] = e5(p);
                    base[1][c as usize] = e5((p + s3(b(v, hi - 5, hi - 7))) & 31);
                }
            }
            let tab = [b(v, 39, 37) as usize, b(v, 36, 34) as usize];
            let flip = b(v, 32, 32) == 1;
            for t in 0..16u32 {
                let (x, y) = (t / 4, t % 4);
                let s = if flip { y / 2 } else { x / 2 } as usize;
                let i = index(t);
                let (a, bb) = (MOD[tab[s]][0], MOD[tab[s]][1]);
                let (m, alpha) = if opaque {
                    ([a, bb, -a, -bb][i], 255)
                } else {
                    ([0, bb, 0, -bb][i], if i == 2 { 0 } else { 255 })
                };
                out[(y * 4 + x) as usize] = if alpha == 0 {
                    [0; 4]
                } else {
                    [c8(base[s][0] + m), c8(base[s][1] + m), c8(base[s][2] + m), 255]
                };
            }
        }
    }
    out
}

/// Legal ETC1: no channel of a differential block leaves 0..=31.
pub fn etc1_legal(d: &[u8]) -> bool {
    matches!(kind(d, false), Kind::Individual | Kind::Differential)
}
pub fn etc1(d: &[u8]) -> [Rgba; 16] {
    debug_assert!(etc1_legal(d));
    rgb_block(d, false)
}
pub fn etc2_rgb(d: &[u8]) -> [Rgba; 16] {
    rgb_block(d, false)
}
pub fn etc2_rgba1(d: &[u8]) -> [Rgba; 16] {
    rgb_block(d, true)
}
pub fn alpha8(d: &[u8]) -> [u8; 16] {
    let v = u64::from_be_bytes(d[..8].try_into().unwrap());
    let (base, mul, tab) = (b(v, 63, 56), b(v, 55, 52), &EAC[b(v, 51, 48) as usize]);
    let mut o = [0; 16];
    for t in 0..16u32 {
        let i = b(v, 47 - 3 * t, 45 - 3 * t) as usize;
        o[(t % 4 * 4 + t / 4) as usize] = c8(base + tab[i] * mul);
    }
    o
}
pub fn etc2_rgba8(d: &[u8]) -> [Rgba; 16] {
    let mut o = rgb_block(&d[8..], false);
    let a = alpha8(d);
    for i in 0..16 {
        o[i][3] = a[i];
    }
    o
}
/// One 11-bit EAC channel, reduced to 8 bits by dropping the low three bits.
pub fn eac11(d: &[u8], signed: bool) -> [u8; 16] {
    let v = u64::from_be_bytes(d[..8].try_into().unwrap());
    let (mul, tab) = (b(v, 55, 52), &EAC[b(v, 51, 48) as usize]);
    let base = if signed { d[0] as i8 as i32 * 8 + 1023 } else { d[0] as i32 * 8 + 4 };
    let step = if mul == 0 { 1 } else { mul * 8 };
    let mut o = [0; 16];
    for t in 0..16u32 {
        let i = b(v, 47 - 3 * t, 45 - 3 * t) as usize;
        o[(t % 4 * 4 + t / 4) as usize] = ((base + tab[i] * step).clamp(0, 2047) / 8) as u8;
    }
    o
}
pub fn eacr(d: &[u8], signed: bool) -> [Rgba; 16] {
    eac11(d, signed).map(|r| [r, 0, 0, 255])
}
pub fn eacrg(d: &[u8], signed: bool) -> [Rgba; 16] {
    let r = eac11(d, signed);
    let g = eac11(&d[8..], signed);
    let mut o = [[0, 0, 0, 255]; 16];
    for i in 0..16 {
        o[i][0] = r[i];
        o[i][1] = g[i];
    }
    o
}
