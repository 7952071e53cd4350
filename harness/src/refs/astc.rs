//! ASTC 2D blocks (LDR and HDR endpoint modes), Khronos Data Format chapter
//! "ASTC Compressed Texture Image Formats". Eight-bit output convention of the
//! library: LDR values are interpolated as 16-bit v*257 and rounded with
//! (x*255+32768)>>16; HDR values become floor(255*half) clamped to 0..=255.
use super::{half, Rgba};

pub const ERROR: Rgba = [255, 0, 255, 255];

/// Bits of one block, with the weight stream's view from the top bit down.
pub struct View(pub u128);
impl View {
    pub fn new(b: &[u8]) -> View {
        View(u128::from_le_bytes(b[..16].try_into().unwrap()))
    }
    pub fn get(&self, lo: u32, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        ((self.0 >> lo) & ((1u128 << n) - 1)) as u32
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Range {
    Bits(u32),
    Trit(u32),
    Quint(u32),
}
use Range::*;
pub fn ise_bits(n: u32, r: Range) -> u32 {
    match r {
        Bits(b) => n * b,
        Trit(b) => n * b + (8 * n).div_ceil(5),
        Quint(b) => n * b + (7 * n).div_ceil(3),
    }
}
/// Weight ranges by (R, H): R in 2..=7.
pub static WEIGHT_RANGES: [[Range; 6]; 2] = [
    [Bits(1), Trit(0), Bits(2), Quint(0), Trit(1), Bits(3)],
    [Quint(1), Trit(2), Bits(4), Quint(2), Trit(3), Bits(5)],
];
/// Colour endpoint ranges from 6 levels (smallest allowed) to 256.
pub static COLOR_RANGES: [Range; 17] = [
    Trit(1), Bits(3), Quint(1), Trit(2), Bits(4), Quint(2), Trit(3), Bits(5), Quint(3), Trit(4),
    Bits(6), Quint(4), Trit(5), Bits(7), Quint(5), Trit(6), Bits(8),
];

fn trits(t: u32) -> [u32; 5] {
    let b = |i: u32| t >> i & 1;
    let c;
    let (t4, t3);
    if t >> 2 & 7 == 7 {
        c = (t >> 5 & 7) << 2 | (t & 3);
        t4 = 2;
        t3 = 2;
    } else {
        c = t & 31;
        if t >> 5 & 3 == 3 {
            t4 = 2;
            t3 = b(7);
        } else {
            t4 = b(7);
            t3 = t >> 5 & 3;
        }
    }
    let cb = |i: u32| c >> i & 1;
    let (t2, t1, t0);
    if c & 3 == 3 {
        t2 = 2;
        t1 = cb(4);
        t0 = cb(3) << 1 | (cb(2) & (1 ^ cb(3)));
    } else if c >> 2 & 3 == 3 {
        t2 = 2;
        t1 = 2;
        t0 = c & 3;
    } else {
        t2 = cb(4);
        t1 = c >> 2 & 3;
        t0 = cb(1) << 1 | (cb(0) & (1 ^ cb(1)));
    }
    [t0, t1, t2, t3, t4]
}
fn quints(q: u32) -> [u32; 3] {
    let b = |i: u32| q >> i & 1;
    if q >> 1 & 3 == 3 && q >> 5 & 3 == 0 {
        let q2 = b(0) << 2 | (b(4) & (1 ^ b(0))) << 1 | (b(3) & (1 ^ b(0)));
        return [4, 4, q2];
    }
    let (c, q2);
    if q >> 1 & 3 == 3 {
        q2 = 4;
        c = (q >> 3 & 3) << 3 | (1 ^ b(6)) << 2 | (1 ^ b(5)) << 1 | b(0);
    } else {
        q2 = q >> 5 & 3;
        c = q & 31;
    }
    if c & 7 == 5 {
        [c >> 3 & 3, 4, q2]
    } else {
        [c & 7, c >> 3 & 3, q2]
    }
}

/// Decodes n (digit, low bits) pairs from an ISE stream that starts at `pos`
/// of a bit source; bits past the sequence's own length read as 0.
fn ise(n: u32, r: Range, bit: &dyn Fn(u32) -> u32) -> Vec<(u32, u32)> {
    let total = ise_bits(n, r);
    let get = |p: u32| if p < total { bit(p) } else { 0 };
    let field = |p: &mut u32, k: u32| {
        let mut v = 0;
        for i in 0..k {
            v |= get(*p + i) << i;
        }
        *p += k;
        v
    };
    let mut p = 0;
    let mut out = vec![];
    while (out.len() as u32) < n {
        match r {
            Bits(b) => out.push((0, field(&mut p, b))),
            Trit(b) => {
                let mut m = [0; 5];
                let mut t = 0;
                let mut sh = 0;
                for (i, k) in [2u32, 2, 1, 2, 1].iter().enumerate() {
                    m[i] = field(&mut p, b);
                    t |= field(&mut p, *k) << sh;
                    sh += k;
                }
                for (d, mm) in trits(t).iter().zip(m) {
                    out.push((*d, mm));
                }
            }
            Quint(b) => {
                let mut m = [0; 3];
                let mut t = 0;
                let mut sh = 0;
                for (i, k) in [3u32, 2, 2].iter().enumerate() {
                    m[i] = field(&mut p, b);
                    t |= field(&mut p, *k) << sh;
                    sh += k;
                }
                for (d, mm) in quints(t).iter().zip(m) {
                    out.push((*d, mm));
                }
            }
        }
    }
    out.truncate(n as usize);
    out
}

fn replicate(v: u32, b: u32, to: u32) -> u32 {
    let mut o = 0;
    for i in 0..to {
        let src = (b - 1) as i32 - (i % b) as i32;
        o |= (v >> src & 1) << (to - 1 - i);
    }
    o
}

/// A bit pattern like "cb000cbcb": letters name the low bits a, b, c...
fn pattern(p: &str, v: u32) -> u32 {
    p.bytes().fold(0, |o, ch| {
        o << 1 | if ch == b'0' { 0 } else { v >> (ch - b'a') & 1 }
    })
}

fn unq_color(r: Range, d: u32, m: u32) -> i32 {
    let (c, pat) = match r {
        Bits(b) => return replicate(m, b, 8) as i32,
        Trit(1) => (204, "000000000"),
        Trit(2) => (93, "b000b0bb0"),
        Trit(3) => (44, "cb000cbcb"),
        Trit(4) => (22, "dcb000dcb"),
        Trit(5) => (11, "edcb000ed"),
        Trit(_) => (5, "fedcb000f"),
        Quint(1) => (113, "000000000"),
        Quint(2) => (54, "b0000bb00"),
        Quint(3) => (26, "cb0000cbc"),
        Quint(4) => (13, "dcb0000dc"),
        Quint(_) => (6, "edcb0000e"),
    };
    let a = pattern("aaaaaaaaa", m);
    let t = (d * c + pattern(pat, m)) ^ a;
    ((a & 0x80) | t >> 2) as i32
}
fn unq_weight(r: Range, d: u32, m: u32) -> i32 {
    let w = match r {
        Bits(b) => replicate(m, b, 6),
        Trit(0) => [0, 32, 63][d as usize],
        Quint(0) => [0, 16, 32, 47, 63][d as usize],
        _ => {
            let (c, pat) = match r {
                Trit(1) => (50, "0000000"),
                Trit(2) => (23, "b000b0b"),
                Trit(_) => (11, "cb000cb"),
                Quint(1) => (28, "0000000"),
                _ => (13, "b0000b0"),
            };
            let a = pattern("aaaaaaa", m);
            let t = (d * c + pattern(pat, m)) ^ a;
            (a & 0x20) | t >> 2
        }
    };
    (if w > 32 { w + 1 } else { w }) as i32
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mode {
    pub w: u32,
    pub h: u32,
    pub dual: bool,
    pub range: Range,
}
/// Block mode from the low 11 bits; None for reserved and void-extent codes.
pub fn block_mode(m: u32) -> Option<Mode> {
    let f = |lo: u32, n: u32| m >> lo & ((1 << n) - 1);
    let (mut dual, mut hi) = (f(10, 1) == 1, f(9, 1));
    let a = f(5, 2);
    let r;
    let (w, h);
    if f(0, 2) != 0 {
        r = f(4, 1) | f(0, 2) << 1;
        let b = f(7, 2);
        match f(2, 2) {
            0 => (w, h) = (b + 4, a + 2),
            1 => (w, h) = (b + 8, a + 2),
            2 => (w, h) = (a + 2, b + 8),
            _ => {
                if f(8, 1) == 0 {
                    (w, h) = (a + 2, f(7, 1) + 6)
                } else {
                    (w, h) = (f(7, 1) + 2, a + 2)
                }
            }
        }
    } else {
        if f(0, 4) == 0 || f(6, 3) == 7 {
            return None;
        }
        r = f(4, 1) | f(2, 2) << 1;
        match f(7, 2) {
            0 => (w, h) = (12, a + 2),
            1 => (w, h) = (a + 2, 12),
            3 => (w, h) = if a == 0 { (6, 10) } else { (10, 6) },
            _ => {
                (w, h) = (a + 6, f(9, 2) + 6);
                dual = false;
                hi = 0;
            }
        }
    }
    Some(Mode { w, h, dual, range: WEIGHT_RANGES[hi as usize][r as usize - 2] })
}

#[derive(Clone, Copy, Default, Debug)]
struct Ep {
    e0: [i32; 4],
    e1: [i32; 4],
    hdr_rgb: bool,
    hdr_a: bool,
}

fn bts(a: &mut i32, b: &mut i32) {
    *b = (*b >> 1) | (*a & 0x80);
    *a = (*a >> 1) & 0x3f;
    if *a & 0x20 != 0 {
        *a -= 0x40;
    }
}
fn blue(r: i32, g: i32, b: i32, a: i32) -> [i32; 4] {
    [(r + b) >> 1, (g + b) >> 1, b, a]
}
fn c255(v: [i32; 4]) -> [i32; 4] {
    v.map(|x| x.clamp(0, 255))
}
fn c4095(v: [i32; 3], a: i32) -> [i32; 4] {
    [v[0].clamp(0, 4095), v[1].clamp(0, 4095), v[2].clamp(0, 4095), a]
}

fn hdr_rgb_scale(v: &[i32]) -> ([i32; 4], [i32; 4]) {
    let bit = |k: usize, b: u32| v[k] >> b & 1;
    let modeval = (v[0] & 0xc0) >> 6 | (v[1] & 0x80) >> 5 | (v[2] & 0x80) >> 4;
    let (maj, mode) = if modeval & 0xc != 0xc {
        (modeval >> 2, modeval & 3)
    } else if modeval != 0xf {
        (modeval & 3, 4)
    } else {
        (0, 5)
    };
    let mut red = v[0] & 0x3f;
    let mut green = v[1] & 0x1f;
    let mut bl = v[2] & 0x1f;
    let mut scale = v[3] & 0x1f;
    let x = [bit(1, 6), bit(1, 5), bit(2, 6), bit(2, 5), bit(3, 7), bit(3, 6), bit(3, 5)];
    let ohm = 1 << mode;
    let on = |mask: i32| ohm & mask != 0;
    if on(0x30) { green |= x[0] << 6 }
    if on(0x3a) { green |= x[1] << 5 }
    if on(0x30) { bl |= x[2] << 6 }
    if on(0x3a) { bl |= x[3] << 5 }
    if on(0x3d) { scale |= x[6] << 5 }
    if on(0x2d) { scale |= x[5] << 6 }
    if on(0x04) { scale |= x[4] << 7 }
    if on(0x3b) { red |= x[4] << 6 }
    if on(0x04) { red |= x[3] << 6 }
    if on(0x10) { red |= x[5] << 7 }
    if on(0x0f) { red |= x[2] << 7 }
    if on(0x05) { red |= x[1] << 8 }
    if on(0x0a) { red |= x[0] << 8 }
    if on(0x05) { red |= x[0] << 9 }
    if on(0x02) { red |= x[6] << 9 }
    if on(0x01) { red |= x[3] << 10 }
    if on(0x02) { red |= x[5] << 10 }
    let sh = [1, 1, 2, 3, 4, 5][mode as usize];
    red <<= sh;
    green <<= sh;
    bl <<= sh;
    scale <<= sh;
    if mode != 5 {
        green = red - green;
        bl = red - bl;
    }
    let (r, g, b) = match maj {
        1 => (green, red, bl),
        2 => (bl, green, red),
        _ => (red, green, bl),
    };
    (c4095([r - scale, g - scale, b - scale], 0x780), c4095([r, g, b], 0x780))
}

fn hdr_rgb(v: &[i32]) -> ([i32; 4], [i32; 4]) {
    let bit = |k: usize, b: u32| v[k] >> b & 1;
    let maj = bit(4, 7) | bit(5, 7) << 1;
    if maj == 3 {
        return (
            [v[0] << 4, v[2] << 4, (v[4] & 0x7f) << 5, 0x780],
            [v[1] << 4, v[3] << 4, (v[5] & 0x7f) << 5, 0x780],
        );
    }
    let mode = bit(1, 7) | bit(2, 7) << 1 | bit(3, 7) << 2;
    let mut va = v[0] | bit(1, 6) << 8;
    let mut b0 = v[2] & 0x3f;
    let mut b1 = v[3] & 0x3f;
    let mut vc = v[1] & 0x3f;
    let db = [7, 6, 7, 6, 5, 6, 5, 6][mode as usize];
    let sx = |x: i32| {
        let x = x & ((1 << db) - 1);
        if x >> (db - 1) == 1 {
            x - (1 << db)
        } else {
            x
        }
    };
    let (mut d0, mut d1) = (sx(v[4] & 0x7f), sx(v[5] & 0x7f));
    let x = [bit(2, 6), bit(3, 6), bit(4, 6), bit(5, 6), bit(4, 5), bit(5, 5)];
    let ohm = 1 << mode;
    let on = |mask: i32| ohm & mask != 0;
    if on(0xa4) { va |= x[0] << 9 }
    if on(0x08) { va |= x[2] << 9 }
    if on(0x50) { va |= x[4] << 9 }
    if on(0x50) { va |= x[5] << 10 }
    if on(0xa0) { va |= x[1] << 10 }
    if on(0xc0) { va |= x[2] << 11 }
    if on(0x04) { vc |= x[1] << 6 }
    if on(0xe8) { vc |= x[3] << 6 }
    if on(0x20) { vc |= x[2] << 7 }
    if on(0x5b) { b0 |= x[0] << 6; b1 |= x[1] << 6 }
    if on(0x12) { b0 |= x[2] << 7; b1 |= x[3] << 7 }
    let sh = (mode >> 1) ^ 3;
    va <<= sh;
    b0 <<= sh;
    b1 <<= sh;
    vc <<= sh;
    d0 *= 1 << sh;
    d1 *= 1 << sh;
    let mut e1 = [va, va - b0, va - b1];
    let mut e0 = [va - vc, va - b0 - vc - d0, va - b1 - vc - d1];
    match maj {
        1 => {
            e0.swap(0, 1);
            e1.swap(0, 1);
        }
        2 => {
            e0.swap(0, 2);
            e1.swap(0, 2);
        }
        _ => {}
    }
    (c4095(e0, 0x780), c4095(e1, 0x780))
}

fn hdr_alpha(v6: i32, v7: i32) -> (i32, i32) {
    let sel = (v6 >> 7 & 1) | (v7 >> 6 & 2);
    let (mut a, mut b) = (v6 & 0x7f, v7 & 0x7f);
    if sel == 3 {
        return (a << 5, b << 5);
    }
    a |= (b << (sel + 1)) & 0x780;
    b &= 0x3f >> sel;
    b ^= 0x20 >> sel;
    b -= 0x20 >> sel;
    a <<= 4 - sel;
    b *= 1 << (4 - sel);
    (a, (a + b).clamp(0, 0xfff))
}

fn endpoints(cem: u32, v: &[i32]) -> Ep {
    let mut v = v.to_vec();
    let mut e = Ep::default();
    let l = |a: i32, al: i32| [a, a, a, al];
    macro_rules! xfer {
        ($i:expr) => {{
            let (mut a, mut b) = (v[$i + 1], v[$i]);
            bts(&mut a, &mut b);
            v[$i + 1] = a;
            v[$i] = b;
        }};
    }
    match cem {
        0 => (e.e0, e.e1) = (l(v[0], 255), l(v[1], 255)),
        1 => {
            let l0 = v[0] >> 2 | (v[1] & 0xc0);
            (e.e0, e.e1) = (l(l0, 255), l((l0 + (v[1] & 0x3f)).min(255), 255));
        }
        2 => {
            let (a, b) = if v[1] >= v[0] {
                (v[0] << 4, v[1] << 4)
            } else {
                ((v[1] << 4) + 8, (v[0] << 4) - 8)
            };
            (e.e0, e.e1) = (l(a, 0x780), l(b, 0x780));
        }
        3 => {
            let (a, d) = if v[0] & 0x80 != 0 {
                ((v[1] & 0xe0) << 4 | (v[0] & 0x7f) << 2, (v[1] & 0x1f) << 2)
            } else {
                ((v[1] & 0xf0) << 4 | (v[0] & 0x7f) << 1, (v[1] & 0x0f) << 1)
            };
            (e.e0, e.e1) = (l(a, 0x780), l((a + d).min(0xfff), 0x780));
        }
        4 => (e.e0, e.e1) = (l(v[0], v[2]), l(v[1], v[3])),
        5 => {
            xfer!(0);
            xfer!(2);
            (e.e0, e.e1) = (c255(l(v[0], v[2])), c255(l(v[0] + v[1], v[2] + v[3])));
        }
        6 | 10 => {
            let (a0, a1) = if cem == 6 { (255, 255) } else { (v[4], v[5]) };
            e.e0 = [v[0] * v[3] >> 8, v[1] * v[3] >> 8, v[2] * v[3] >> 8, a0];
            e.e1 = [v[0], v[1], v[2], a1];
        }
        7 => (e.e0, e.e1) = hdr_rgb_scale(&v),
        8 | 12 => {
            let (a0, a1) = if cem == 8 { (255, 255) } else { (v[6], v[7]) };
            if v[1] + v[3] + v[5] >= v[0] + v[2] + v[4] {
                e.e0 = [v[0], v[2], v[4], a0];
                e.e1 = [v[1], v[3], v[5], a1];
            } else {
                e.e0 = blue(v[1], v[3], v[5], a1);
                e.e1 = blue(v[0], v[2], v[4], a0);
            }
        }
        9 | 13 => {
            xfer!(0);
            xfer!(2);
            xfer!(4);
            let (a0, a1) = if cem == 9 {
                (255, 255)
            } else {
                xfer!(6);
                (v[6], v[6] + v[7])
            };
            let s = [v[0] + v[1], v[2] + v[3], v[4] + v[5]];
            if v[1] + v[3] + v[5] >= 0 {
                e.e0 = c255([v[0], v[2], v[4], a0]);
                e.e1 = c255([s[0], s[1], s[2], a1]);
            } else {
                e.e0 = c255(blue(s[0], s[1], s[2], a1));
                e.e1 = c255(blue(v[0], v[2], v[4], a0));
            }
        }
        11 => (e.e0, e.e1) = hdr_rgb(&v),
        14 => {
            (e.e0, e.e1) = hdr_rgb(&v);
            e.e0[3] = v[6];
            e.e1[3] = v[7];
        }
        _ => {
            (e.e0, e.e1) = hdr_rgb(&v);
            (e.e0[3], e.e1[3]) = hdr_alpha(v[6], v[7]);
        }
    }
    e.hdr_rgb = matches!(cem, 2 | 3 | 7 | 11 | 14 | 15);
    e.hdr_a = matches!(cem, 2 | 3 | 7 | 11 | 15);
    e
}

fn hash52(mut p: u32) -> u32 {
    p ^= p >> 15;
    p = p.wrapping_mul(0xEEDE0891);
    p ^= p >> 5;
    p = p.wrapping_add(p << 16);
    p ^= p >> 7;
    p ^= p >> 3;
    p ^= p << 6;
    p ^= p >> 17;
    p
}
pub fn partition(seed: u32, x: u32, y: u32, n: u32, small: bool) -> usize {
    let (x, y) = if small { (x << 1, y << 1) } else { (x, y) };
    let seed = seed + (n - 1) * 1024;
    let rnum = hash52(seed);
    let mut s = [0u32; 8];
    for (i, v) in s.iter_mut().enumerate() {
        let k = rnum >> (4 * i) & 15;
        *v = k * k;
    }
    let (sh1, sh2);
    if seed & 1 != 0 {
        sh1 = if seed & 2 != 0 { 4 } else { 5 };
        sh2 = if n == 3 { 6 } else { 5 };
    } else {
        sh1 = if n == 3 { 6 } else { 5 };
        sh2 = if seed & 2 != 0 { 4 } else { 5 };
    }
    for (i, v) in s.iter_mut().enumerate() {
        *v >>= if i % 2 == 0 { sh1 } else { sh2 };
    }
    let a = (s[0] * x + s[1] * y + (rnum >> 14)) & 63;
    let b = (s[2] * x + s[3] * y + (rnum >> 10)) & 63;
    let mut c = (s[4] * x + s[5] * y + (rnum >> 6)) & 63;
    let mut d = (s[6] * x + s[7] * y + (rnum >> 2)) & 63;
    if n < 4 {
        d = 0;
    }
    if n < 3 {
        c = 0;
    }
    if a >= b && a >= c && a >= d {
        0
    } else if b >= c && b >= d {
        1
    } else if c >= d {
        2
    } else {
        3
    }
}

fn half_u8(h: u16) -> u8 {
    let v = half(h) * 255.0;
    if v.is_nan() {
        return 255;
    }
    v.floor().clamp(0.0, 255.0) as u8
}

#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    VoidLdr,
    VoidHdr,
    Reserved,
    Illegal(&'static str),
    Normal { parts: u32, dual: bool, cems: Vec<u32>, range: Range, wrange: Range },
}

struct Parsed {
    mode: Mode,
    parts: u32,
    cems: Vec<u32>,
    plane: usize,
    crange: Range,
    nvals: u32,
    wbits: u32,
}

fn parse(b: &View, bw: u32, bh: u32) -> Result<Parsed, &'static str> {
    let mode = block_mode(b.get(0, 11)).ok_or("reserved")?;
    let nw = mode.w * mode.h * (1 + mode.dual as u32);
    let parts = b.get(11, 2) + 1;
    if mode.w > bw || mode.h > bh {
        return Err("weight grid larger than the block");
    }
    if nw > 64 {
        return Err("more than 64 weights");
    }
    let wbits = ise_bits(nw, mode.range);
    if wbits < 24 {
        return Err("fewer than 24 weight bits");
    }
    if wbits > 96 {
        return Err("more than 96 weight bits");
    }
    if parts == 4 && mode.dual {
        return Err("dual plane with four partitions");
    }
    let mut below = 128 - wbits;
    let mut cems = vec![];
    let start;
    if parts == 1 {
        cems.push(b.get(13, 4));
        start = 17;
    } else {
        start = 29;
        let base = b.get(23, 2);
        if base == 0 {
            cems = vec![b.get(25, 4); parts as usize];
        } else {
            let extra = 3 * parts - 4;
            below -= extra;
            // 6-bit field: low 2 are the base class, then C bits, M pairs
            let hi = b.get(below, extra);
            let all = b.get(25, 4) | hi << 4;
            for i in 0..parts {
                let c = all >> i & 1;
                let m = all >> (parts + 2 * i) & 3;
                cems.push((base - 1 + c) << 2 | m);
            }
        }
    }
    let mut plane = 4;
    if mode.dual {
        below -= 2;
        plane = b.get(below, 2) as usize;
    }
    let nvals: u32 = cems.iter().map(|c| (c / 4 + 1) * 2).sum();
    if nvals > 18 {
        return Err("more than 18 endpoint values");
    }
    let avail = below as i32 - start;
    let crange = COLOR_RANGES
        .iter()
        .rev()
        .find(|r| ise_bits(nvals, **r) as i32 <= avail)
        .copied()
        .ok_or("too few endpoint bits")?;
    Ok(Parsed { mode, parts, cems, plane, crange, nvals, wbits })
}

pub fn classify(d: &[u8], bw: u32, bh: u32) -> Class {
    let b = View::new(d);
    if b.get(0, 9) == 0x1fc {
        return if b.get(9, 1) == 1 { Class::VoidHdr } else { Class::VoidLdr };
    }
    match parse(&b, bw, bh) {
        Err("reserved") => Class::Reserved,
        Err(e) => Class::Illegal(e),
        Ok(p) => Class::Normal {
            parts: p.parts,
            dual: p.mode.dual,
            cems: p.cems,
            range: p.crange,
            wrange: p.mode.range,
        },
    }
}

pub fn decode(d: &[u8], bw: u32, bh: u32) -> Vec<Rgba> {
    let b = View::new(d);
    let n = (bw * bh) as usize;
    if b.get(0, 9) == 0x1fc {
        let mut c = [0u8; 4];
        for (k, v) in c.iter_mut().enumerate() {
            let x = b.get(64 + 16 * k as u32, 16) as u16;
            *v = if b.get(9, 1) == 1 { half_u8(x) } else { (x >> 8) as u8 };
        }
        return vec![c; n];
    }
    let p = match parse(&b, bw, bh) {
        Ok(p) => p,
        Err(_) => return vec![ERROR; n],
    };
    // endpoints
    let start = if p.parts == 1 { 17 } else { 29 };
    let vals: Vec<i32> = ise(p.nvals, p.crange, &|i| b.get(start + i, 1))
        .into_iter()
        .map(|(d, m)| unq_color(p.crange, d, m))
        .collect();
    let mut eps = vec![];
    let mut o = 0;
    for &c in &p.cems {
        let k = ((c / 4 + 1) * 2) as usize;
        eps.push(endpoints(c, &vals[o..o + k]));
        o += k;
    }
    // weights
    let planes = 1 + p.mode.dual as u32;
    let nw = p.mode.w * p.mode.h * planes;
    let wts: Vec<i32> = ise(nw, p.mode.range, &|i| b.get(127 - i, 1))
        .into_iter()
        .map(|(d, m)| unq_weight(p.mode.range, d, m))
        .collect();
    let _ = p.wbits;
    let gw = p.mode.w;
    let at = |x: u32, y: u32, pl: u32| -> i32 {
        if x >= gw || y >= p.mode.h {
            0
        } else {
            wts[((y * gw + x) * planes + pl) as usize]
        }
    };
    let (ds, dt) = ((1024 + bw / 2) / (bw - 1), (1024 + bh / 2) / (bh - 1));
    let seed = b.get(13, 10);
    let mut out = Vec::with_capacity(n);
    for t in 0..bh {
        for s in 0..bw {
            let gs = (ds * s * (gw - 1) + 32) >> 6;
            let gt = (dt * t * (p.mode.h - 1) + 32) >> 6;
            let (js, fs) = (gs >> 4, (gs & 15) as i32);
            let (jt, ft) = (gt >> 4, (gt & 15) as i32);
            let w11 = (fs * ft + 8) >> 4;
            let w10 = ft - w11;
            let w01 = fs - w11;
            let w00 = 16 - fs - ft + w11;
            let wt = |pl: u32| {
                (at(js, jt, pl) * w00
                    + at(js + 1, jt, pl) * w01
                    + at(js, jt + 1, pl) * w10
                    + at(js + 1, jt + 1, pl) * w11
                    + 8)
                    >> 4
            };
            let part =
                if p.parts == 1 { 0 } else { partition(seed, s, t, p.parts, bw * bh < 31) };
            let e = &eps[part];
            let mut c = [0u8; 4];
            for ch in 0..4 {
                let w = wt((ch == p.plane) as u32);
                let hdr = if ch == 3 { e.hdr_a } else { e.hdr_rgb };
                if hdr {
                    let x = ((e.e0[ch] << 4) * (64 - w) + (e.e1[ch] << 4) * w + 32) >> 6;
                    let (ex, m) = (x >> 11, x & 0x7ff);
                    let mt = if m < 512 {
                        3 * m
                    } else if m >= 1536 {
                        5 * m - 2048
                    } else {
                        4 * m - 512
                    };
                    c[ch] = half_u8((ex << 10 | mt >> 3).min(0x7bff) as u16);
                } else {
                    let x = (e.e0[ch] * 257 * (64 - w) + e.e1[ch] * 257 * w + 32) >> 6;
                    c[ch] = ((x * 255 + 32768) >> 16) as u8;
                }
            }
            out.push(c);
        }
    }
    out
}

