//! BC6H (BPTC float), Khronos Data Format "BPTC Floating-Point formats".
use super::bc7::{A2, P2, W3, W4};
use super::{half, Rgba};

struct Mode {
    code: u32,
    two: bool,
    delta: bool,
    bits: i32,
    d: [i32; 3],
    layout: &'static str,
}
/// Bit layout after the mode field, in stream order. `r0:9-0` is the field's
/// bits 0..=9 stored low bit first; `r0:10-11` (hi < lo reversed) stores bit
/// 11 first.
static MODES: [Mode; 14] = [
    Mode { code: 0b00, two: true, delta: true, bits: 10, d: [5, 5, 5],
        layout: "g2:4 b2:4 b3:4 r0:9-0 g0:9-0 b0:9-0 r1:4-0 g3:4 g2:3-0 g1:4-0 b3:0 g3:3-0 b1:4-0 b3:1 b2:3-0 r2:4-0 b3:2 r3:4-0 b3:3" },
    Mode { code: 0b01, two: true, delta: true, bits: 7, d: [6, 6, 6],
        layout: "g2:5 g3:4 g3:5 r0:6-0 b3:0 b3:1 b2:4 g0:6-0 b2:5 b3:2 g2:4 b0:6-0 b3:3 b3:5 b3:4 r1:5-0 g2:3-0 g1:5-0 g3:3-0 b1:5-0 b2:3-0 r2:5-0 r3:5-0" },
    Mode { code: 0b00010, two: true, delta: true, bits: 11, d: [5, 4, 4],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:4-0 r0:10 g2:3-0 g1:3-0 g0:10 b3:0 g3:3-0 b1:3-0 b0:10 b3:1 b2:3-0 r2:4-0 b3:2 r3:4-0 b3:3" },
    Mode { code: 0b00110, two: true, delta: true, bits: 11, d: [4, 5, 4],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:3-0 r0:10 g3:4 g2:3-0 g1:4-0 g0:10 g3:3-0 b1:3-0 b0:10 b3:1 b2:3-0 r2:3-0 b3:0 b3:2 r3:3-0 g2:4 b3:3" },
    Mode { code: 0b01010, two: true, delta: true, bits: 11, d: [4, 4, 5],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:3-0 r0:10 b2:4 g2:3-0 g1:3-0 g0:10 b3:0 g3:3-0 b1:4-0 b0:10 b2:3-0 r2:3-0 b3:1 b3:2 r3:3-0 b3:4 b3:3" },
    Mode { code: 0b01110, two: true, delta: true, bits: 9, d: [5, 5, 5],
        layout: "r0:8-0 b2:4 g0:8-0 g2:4 b0:8-0 b3:4 r1:4-0 g3:4 g2:3-0 g1:4-0 b3:0 g3:3-0 b1:4-0 b3:1 b2:3-0 r2:4-0 b3:2 r3:4-0 b3:3" },
    Mode { code: 0b10010, two: true, delta: true, bits: 8, d: [6, 5, 5],
        layout: "r0:7-0 g3:4 b2:4 g0:7-0 b3:2 g2:4 b0:7-0 b3:3 b3:4 r1:5-0 g2:3-0 g1:4-0 b3:0 g3:3-0 b1:4-0 b3:1 b2:3-0 r2:5-0 r3:5-0" },
    Mode { code: 0b10110, two: true, delta: true, bits: 8, d: [5, 6, 5],
        layout: "r0:7-0 b3:0 b2:4 g0:7-0 g2:5 g2:4 b0:7-0 g3:5 b3:4 r1:4-0 g3:4 g2:3-0 g1:5-0 g3:3-0 b1:4-0 b3:1 b2:3-0 r2:4-0 b3:2 r3:4-0 b3:3" },
    Mode { code: 0b11010, two: true, delta: true, bits: 8, d: [5, 5, 6],
        layout: "r0:7-0 b3:1 b2:4 g0:7-0 b2:5 g2:4 b0:7-0 b3:5 b3:4 r1:4-0 g3:4 g2:3-0 g1:4-0 b3:0 g3:3-0 b1:5-0 b2:3-0 r2:4-0 b3:2 r3:4-0 b3:3" },
    Mode { code: 0b11110, two: true, delta: false, bits: 6, d: [6, 6, 6],
        layout: "r0:5-0 g3:4 b3:0 b3:1 b2:4 g0:5-0 g2:5 b2:5 b3:2 g2:4 b0:5-0 g3:5 b3:3 b3:5 b3:4 r1:5-0 g2:3-0 g1:5-0 g3:3-0 b1:5-0 b2:3-0 r2:5-0 r3:5-0" },
    Mode { code: 0b00011, two: false, delta: false, bits: 10, d: [10, 10, 10],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:9-0 g1:9-0 b1:9-0" },
    Mode { code: 0b00111, two: false, delta: true, bits: 11, d: [9, 9, 9],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:8-0 r0:10 g1:8-0 g0:10 b1:8-0 b0:10" },
    Mode { code: 0b01011, two: false, delta: true, bits: 12, d: [8, 8, 8],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:7-0 r0:10-11 g1:7-0 g0:10-11 b1:7-0 b0:10-11" },
    Mode { code: 0b01111, two: false, delta: true, bits: 16, d: [4, 4, 4],
        layout: "r0:9-0 g0:9-0 b0:9-0 r1:3-0 r0:10-15 g1:3-0 g0:10-15 b1:3-0 b0:10-15" },
];

/// (endpoint, channel, bit) of every layout bit, in stream order.
fn parse(layout: &str) -> Vec<(usize, usize, u32)> {
    let mut v = vec![];
    for f in layout.split(' ') {
        let b = f.as_bytes();
        let ch = match b[0] {
            b'r' => 0,
            b'g' => 1,
            _ => 2,
        };
        let e = (b[1] - b'0') as usize;
        let spec = &f[3..];
        match spec.split_once('-') {
            None => v.push((e, ch, spec.parse().unwrap())),
            Some((hi, lo)) => {
                let (hi, lo): (u32, u32) = (hi.parse().unwrap(), lo.parse().unwrap());
                if hi >= lo {
                    // ordinary field: low bit first
                    for k in lo..=hi {
                        v.push((e, ch, k));
                    }
                } else {
                    // reversed field: high bit first
                    for k in (hi..=lo).rev() {
                        v.push((e, ch, k));
                    }
                }
            }
        }
    }
    v
}

pub struct Layouts(Vec<Vec<(usize, usize, u32)>>);
pub fn layouts() -> &'static Layouts {
    static L: std::sync::OnceLock<Layouts> = std::sync::OnceLock::new();
    L.get_or_init(|| Layouts(MODES.iter().map(|m| parse(m.layout)).collect()))
}

fn sext(v: i32, bits: i32) -> i32 {
    if v >> (bits - 1) & 1 == 1 {
        v - (1 << bits)
    } else {
        v
    }
}

fn unq(v: i32, bits: i32, signed: bool) -> i32 {
    if signed {
        if bits >= 16 {
            return v;
        }
        let m = v.abs();
        let q = if m == 0 {
            0
        } else if m >= (1 << (bits - 1)) - 1 {
            0x7fff
        } else {
            ((m << 15) + 0x4000) >> (bits - 1)
        };
        if v < 0 {
            -q
        } else {
            q
        }
    } else if bits >= 15 || v == 0 {
        v
    } else if v == (1 << bits) - 1 {
        0xffff
    } else {
        ((v << 15) + 0x4000) >> (bits - 1)
    }
}

fn to_u8(h: u16) -> u8 {
    let f = half(h) * 255.0;
    if f <= 0.0 {
        0
    } else if f >= 255.0 {
        255
    } else {
        f as u8
    }
}

pub fn mode_index(d: &[u8]) -> Option<usize> {
    let low = d[0] as u32;
    MODES.iter().position(|m| if m.code < 2 { low & 3 == m.code } else { low & 31 == m.code })
}

pub fn decode(d: &[u8], signed: bool) -> Option<[Rgba; 16]> {
    let mi = mode_index(d)?;
    let m = &MODES[mi];
    let v = u128::from_le_bytes(d[..16].try_into().unwrap());
    let mut pos = if m.code < 2 { 2 } else { 5 };
    let mut e = [[0i32; 3]; 4];
    for &(ep, ch, bit) in &layouts().0[mi] {
        e[ep][ch] |= ((v >> pos & 1) as i32) << bit;
        pos += 1;
    }
    let part = if m.two {
        let p = (v >> pos & 31) as usize;
        pos += 5;
        p
    } else {
        0
    };
    let n = if m.two { 4 } else { 2 };
    for ch in 0..3 {
        if signed {
            e[0][ch] = sext(e[0][ch], m.bits);
        }
        for k in 1..n {
            if m.delta {
                let x = (e[0][ch] + sext(e[k][ch], m.d[ch])) & ((1 << m.bits) - 1);
                e[k][ch] = if signed { sext(x, m.bits) } else { x };
            } else if signed {
                e[k][ch] = sext(e[k][ch], m.bits);
            }
        }
        for x in e.iter_mut().take(n) {
            x[ch] = unq(x[ch], m.bits, signed);
        }
    }
    let ib = if m.two { 3 } else { 4 };
    let mut o = [[255u8; 4]; 16];
    for i in 0..16 {
        let s = if m.two { (P2[part] >> i & 1) as usize } else { 0 };
        let anchor = i == 0 || (m.two && i == A2[part] as usize);
        let nb = ib - anchor as u32;
        let idx = (v >> pos & ((1 << nb) - 1)) as usize;
        pos += nb;
        let w = if m.two { W3[idx] } else { W4[idx] } as i32;
        for ch in 0..3 {
            let x = (e[2 * s][ch] * (64 - w) + e[2 * s + 1][ch] * w + 32) >> 6;
            let h = if signed {
                if x < 0 {
                    0x8000 | ((-x * 31) >> 5) as u16
                } else {
                    ((x * 31) >> 5) as u16
                }
            } else {
                ((x * 31) >> 6) as u16
            };
            o[i][ch] = to_u8(h);
        }
    }
    debug_assert_eq!(pos, 128);
    Some(o)
}
