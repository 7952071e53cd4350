//! BC7 (BPTC unorm), Khronos Data Format "BPTC compressed texture formats".
use super::Rgba;

pub static P2: [u16; 64] = [
    0xcccc, 0x8888, 0xeeee, 0xecc8, 0xc880, 0xfeec, 0xfec8, 0xec80, 0xc800, 0xffec, 0xfe80, 0xe800,
    0xffe8, 0xff00, 0xfff0, 0xf000, 0xf710, 0x008e, 0x7100, 0x08ce, 0x008c, 0x7310, 0x3100, 0x8cce,
    0x088c, 0x3110, 0x6666, 0x366c, 0x17e8, 0x0ff0, 0x718e, 0x399c, 0xaaaa, 0xf0f0, 0x5a5a, 0x33cc,
    0x3c3c, 0x55aa, 0x9696, 0xa55a, 0x73ce, 0x13c8, 0x324c, 0x3bdc, 0x6996, 0xc33c, 0x9966, 0x0660,
    0x0272, 0x04e4, 0x4e40, 0x2720, 0xc936, 0x936c, 0x39c6, 0x639c, 0x9336, 0x9cc6, 0x817e, 0xe718,
    0xccf0, 0x0fcc, 0x7744, 0xee22,
];
pub static P3: [u32; 64] = [
    0xaa685050, 0x6a5a5040, 0x5a5a4200, 0x5450a0a8, 0xa5a50000, 0xa0a05050, 0x5555a0a0, 0x5a5a5050,
    0xaa550000, 0xaa555500, 0xaaaa5500, 0x90909090, 0x94949494, 0xa4a4a4a4, 0xa9a59450, 0x2a0a4250,
    0xa5945040, 0x0a425054, 0xa5a5a500, 0x55a0a0a0, 0xa8a85454, 0x6a6a4040, 0xa4a45000, 0x1a1a0500,
    0x0050a4a4, 0xaaa59090, 0x14696914, 0x69691400, 0xa08585a0, 0xaa821414, 0x50a4a450, 0x6a5a0200,
    0xa9a58000, 0x5090a0a8, 0xa8a09050, 0x24242424, 0x00aa5500, 0x24924924, 0x24499224, 0x50a50a50,
    0x500aa550, 0xaaaa4444, 0x66660000, 0xa5a0a5a0, 0x50a050a0, 0x69286928, 0x44aaaa44, 0x66666600,
    0xaa444444, 0x54a854a8, 0x95809580, 0x96969600, 0xa85454a8, 0x80959580, 0xaa141414, 0x96960000,
    0xaaaa1414, 0xa05050a0, 0xa0a5a5a0, 0x96000000, 0x40804080, 0xa9a8a9a8, 0xaaaaaa44, 0x2a4a5254,
];
pub static A2: [u8; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 2, 8, 2, 2, 8, 8, 15, 2, 8,
    2, 2, 8, 8, 2, 2, 15, 15, 6, 8, 2, 8, 15, 15, 2, 8, 2, 2, 2, 15, 15, 6, 6, 2, 6, 8, 15, 15, 2,
    2, 15, 15, 15, 15, 15, 2, 2, 15,
];
pub static A3A: [u8; 64] = [
    3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3, 3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5,
    15, 15, 8, 15, 3, 5, 6, 10, 8, 15, 15, 3, 15, 5, 15, 15, 15, 15, 3, 15, 5, 5, 5, 8, 5, 10, 5,
    10, 8, 13, 15, 12, 3, 3,
];
pub static A3B: [u8; 64] = [
    15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6,
    10, 15, 15, 10, 8, 15, 3, 15, 10, 10, 8, 9, 10, 6, 15, 8, 15, 3, 6, 6, 8, 15, 3, 15, 15, 15,
    15, 15, 15, 15, 15, 15, 15, 3, 15, 15, 8,
];
pub static W2: [u8; 4] = [0, 21, 43, 64];
pub static W3: [u8; 8] = [0, 9, 18, 27, 37, 46, 55, 64];
pub static W4: [u8; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];

fn weight(bits: u32, i: u32) -> u32 {
    (match bits {
        2 => W2[i as usize],
        3 => W3[i as usize],
        _ => W4[i as usize],
    }) as u32
}

// subsets, partition, rotation, index-mode, colour, alpha, endpoint p, shared p, ib, ib2
static MODES: [[u32; 10]; 8] = [
    [3, 4, 0, 0, 4, 0, 1, 0, 3, 0],
    [2, 6, 0, 0, 6, 0, 0, 1, 3, 0],
    [3, 6, 0, 0, 5, 0, 0, 0, 2, 0],
    [2, 6, 0, 0, 7, 0, 1, 0, 2, 0],
    [1, 0, 2, 1, 5, 6, 0, 0, 2, 3],
    [1, 0, 2, 0, 7, 8, 0, 0, 2, 2],
    [1, 0, 0, 0, 7, 7, 1, 0, 4, 0],
    [2, 6, 0, 0, 5, 5, 1, 0, 2, 0],
];

struct R(u128, u32);
impl R {
    fn get(&mut self, n: u32) -> u32 {
        if n == 0 {
            return 0;
        }
        let v = (self.0 >> self.1) & ((1 << n) - 1);
        self.1 += n;
        v as u32
    }
}

pub fn decode(d: &[u8]) -> [Rgba; 16] {
    let mode = d[0].trailing_zeros() as usize;
    if mode >= 8 {
        return [[0; 4]; 16];
    }
    let [ns, pb, rb, isb, cb, ab, epb, spb, ib, ib2] = MODES[mode];
    let mut r = R(u128::from_le_bytes(d[..16].try_into().unwrap()), mode as u32 + 1);
    let part = r.get(pb) as usize;
    let rot = r.get(rb);
    let isel = r.get(isb);
    let ne = (ns * 2) as usize;
    let mut e = [[0u32; 4]; 6];
    for ch in 0..3 {
        for x in e.iter_mut().take(ne) {
            x[ch] = r.get(cb);
        }
    }
    for x in e.iter_mut().take(ne) {
        x[3] = r.get(ab);
    }
    let mut p = [0u32; 6];
    let has_p = epb + spb > 0;
    if epb > 0 {
        for x in p.iter_mut().take(ne) {
            *x = r.get(1);
        }
    } else if spb > 0 {
        for s in 0..ns as usize {
            let b = r.get(1);
            p[2 * s] = b;
            p[2 * s + 1] = b;
        }
    }
    for k in 0..ne {
        for ch in 0..4 {
            let mut bits = if ch == 3 { ab } else { cb };
            if bits == 0 {
                e[k][ch] = 255;
                continue;
            }
            let mut v = e[k][ch];
            if has_p {
                v = v << 1 | p[k];
                bits += 1;
            }
            v <<= 8 - bits;
            e[k][ch] = v | v >> bits;
        }
    }
    let subset = |i: usize| -> usize {
        match ns {
            2 => (P2[part] >> i & 1) as usize,
            3 => (P3[part] >> (2 * i) & 3) as usize,
            _ => 0,
        }
    };
    let is_anchor = |i: usize| -> bool {
        i == 0
            || (ns == 2 && i == A2[part] as usize)
            || (ns == 3 && (i == A3A[part] as usize || i == A3B[part] as usize))
    };
    let mut i0 = [0u32; 16];
    let mut i1 = [0u32; 16];
    for (i, x) in i0.iter_mut().enumerate() {
        *x = r.get(ib - is_anchor(i) as u32);
    }
    if ib2 > 0 {
        for (i, x) in i1.iter_mut().enumerate() {
            *x = r.get(ib2 - (i == 0) as u32);
        }
    }
    debug_assert_eq!(r.1, 128);
    let mut o = [[0u8; 4]; 16];
    for i in 0..16 {
        let s = subset(i);
        let (wc, wa) = if ib2 == 0 {
            (weight(ib, i0[i]), weight(ib, i0[i]))
        } else if isel == 0 {
            (weight(ib, i0[i]), weight(ib2, i1[i]))
        } else {
            (weight(ib2, i1[i]), weight(ib, i0[i]))
        };
        for ch in 0..4 {
            let w = if ch == 3 { wa } else { wc };
            o[i][ch] = ((e[2 * s][ch] * (64 - w) + e[2 * s + 1][ch] * w + 32) >> 6) as u8;
        }
        match rot {
            1 => o[i].swap(3, 0),
            2 => o[i].swap(3, 1),
            3 => o[i].swap(3, 2),
            _ => {}
        }
    }
    o
}
