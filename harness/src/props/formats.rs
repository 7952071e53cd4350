//! The fixed-block formats of the public API, with block generators that reach
//! every mode of each format.
use crate::engine::*;
use crate::refs::{self, Rgba};
use texture2ddecoder as t2d;

pub type BlockFn = fn(&[u8], &mut [u32]);
pub type ImageFn = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;

pub struct Fmt {
    pub name: &'static str,
    pub bytes: usize,
    pub bw: usize,
    pub bh: usize,
    pub block: BlockFn,
    pub image: ImageFn,
    /// a block of this format; labels what it is
    pub gen: fn(&mut Src, &mut Obs) -> Vec<u8>,
    pub class: Class,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Full,
    /// writes only some channels: start from opaque black
    Partial,
    /// RGB of texels with alpha 0 is not specified
    PunchThrough,
}

impl Fmt {
    pub fn blocks(&self, w: usize, h: usize) -> (usize, usize) {
        (w.div_ceil(self.bw), h.div_ceil(self.bh))
    }
}

pub fn gen_bc_color(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let q0 = s.edgy(16);
    let q1 = match s.below(8) {
        0 => q0,
        1 => (q0 + 1) & 0xffff,
        2 => q0.saturating_sub(1),
        _ => s.edgy(16),
    };
    o.label(if q0 > q1 {
        "c0>c1"
    } else if q0 == q1 {
        "c0==c1"
    } else {
        "c0<c1"
    });
    let mut v = vec![q0 as u8, (q0 >> 8) as u8, q1 as u8, (q1 >> 8) as u8];
    v.extend(s.bytes(4));
    v
}
pub fn gen_alpha_bc3(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let a = s.edgy(8);
    let b = if s.chance(1, 8) { a } else { s.edgy(8) };
    o.label(if a > b { "a0>a1" } else { "a0<=a1" });
    let mut v = vec![a as u8, b as u8];
    v.extend(s.bytes(6));
    v
}
fn cat(mut a: Vec<u8>, b: Vec<u8>) -> Vec<u8> {
    a.extend(b);
    a
}
fn gen_bc2(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(s.bytes(8), gen_bc_color(s, o))
}
fn gen_bc3(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_alpha_bc3(s, o), gen_bc_color(s, o))
}
fn gen_bc5(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_alpha_bc3(s, o), gen_alpha_bc3(s, o))
}

static BC7_LABELS: [&str; 9] =
    ["mode0", "mode1", "mode2", "mode3", "mode4", "mode5", "mode6", "mode7", "reserved"];
/// Mode, then the whole rest of the block free; sometimes all-equal fields.
pub fn gen_bc7(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let m = if s.chance(1, 40) { 8 } else { s.below(8) as usize };
    o.label(BC7_LABELS[m]);
    let mut v = fill(s, 16);
    if m == 8 {
        v[0] = 0;
    } else {
        if s.chance(1, 8) {
            echo(s, &mut v);
        }
        v[0] = (v[0] & !((1u16 << (m + 1)) - 1) as u8) | 1 << m;
    }
    v
}
/// Copies one run of bits over another, so that fields coincide.
fn echo(s: &mut Src, v: &mut [u8]) {
    let n = v.len() * 8;
    let len = s.pick(&[4usize, 5, 6, 7, 8, 10, 12, 14, 15, 16, 21, 28]);
    let (a, b) = (s.usize(0, n - len), s.usize(0, n - len));
    let mut w = 0u128;
    for (i, x) in v.iter().enumerate() {
        w |= (*x as u128) << (8 * i);
    }
    let mask = (1u128 << len) - 1;
    let f = w >> a & mask;
    w = w & !(mask << b) | f << b;
    v.copy_from_slice(&w.to_le_bytes()[..v.len()]);
}
/// n bytes: free, or saturated runs (extreme endpoints and indices).
fn fill(s: &mut Src, n: usize) -> Vec<u8> {
    match s.below(8) {
        0 => {
            let mut v = vec![0u8; n];
            for b in v.iter_mut() {
                *b = [0, 255, 0x55, 0xaa][s.below(4) as usize];
            }
            v
        }
        1 => {
            let mut v = s.bytes(n);
            let i = s.usize(0, n - 1);
            let x = if s.bool() { 255 } else { 0 };
            for b in v.iter_mut().skip(i) {
                *b = x;
            }
            v
        }
        _ => s.bytes(n),
    }
}
static BC6_LABELS: [&str; 14] = [
    "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14",
];
pub fn gen_bc6(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    static CODES: [u8; 14] = [
        0b00, 0b01, 0b00010, 0b00110, 0b01010, 0b01110, 0b10010, 0b10110, 0b11010, 0b11110,
        0b00011, 0b00111, 0b01011, 0b01111,
    ];
    let mut v = fill(s, 16);
    if s.chance(1, 40) {
        o.label("reserved");
        v[0] = v[0] & 0xe0 | s.pick(&[0b10011, 0b10111, 0b11011, 0b11111]);
        return v;
    }
    let m = s.below(14) as usize;
    o.label(BC6_LABELS[m]);
    v[0] = if m < 2 { v[0] & 0xfc | CODES[m] } else { v[0] & 0xe0 | CODES[m] };
    if s.chance(1, 8) {
        let keep = v[0] & 0x1f;
        echo(s, &mut v);
        v[0] = v[0] & 0xe0 | keep;
    }
    // endpoints at their extremes, so that unquantize's special cases are hit
    if m >= 10 && s.chance(1, 3) {
        let x = s.pick(&[0u16, 0x3ff, 0x1ff, 0x200, 1, 0x201, 0x3fe]);
        let mut w = u128::from_le_bytes(v[..].try_into().unwrap());
        let f = s.below(3) as u32;
        w &= !(0x3ffu128 << (5 + 10 * f));
        w |= (x as u128) << (5 + 10 * f);
        v = w.to_le_bytes().to_vec();
    }
    v
}

fn kind_label(k: refs::etc::Kind) -> &'static str {
    use refs::etc::Kind::*;
    match k {
        Individual => "individual",
        Differential => "differential",
        T => "T",
        H => "H",
        Planar => "planar",
    }
}
type Bits = &'static [u32];
// The bits of each logical field (high to low) of the T, H and planar modes,
// and the bits left free, whose values choose the mode by overflow.
static T_FIELDS: [Bits; 7] = [
    &[60, 59, 57, 56], &[55, 54, 53, 52], &[51, 50, 49, 48],
    &[47, 46, 45, 44], &[43, 42, 41, 40], &[39, 38, 37, 36], &[35, 34, 32],
];
static H_FIELDS: [Bits; 7] = [
    &[62, 61, 60, 59], &[58, 57, 56, 52], &[51, 49, 48, 47],
    &[46, 45, 44, 43], &[42, 41, 40, 39], &[38, 37, 36, 35], &[34, 32],
];
static P_FIELDS: [Bits; 9] = [
    &[62, 61, 60, 59, 58, 57], &[56, 54, 53, 52, 51, 50, 49], &[48, 44, 43, 41, 40, 39],
    &[38, 37, 36, 35, 34, 32], &[31, 30, 29, 28, 27, 26, 25], &[24, 23, 22, 21, 20, 19],
    &[18, 17, 16, 15, 14, 13], &[12, 11, 10, 9, 8, 7, 6], &[5, 4, 3, 2, 1, 0],
];
/// A word of the T, H or planar mode from its logical fields: colours at their
/// extremes, and often equal or one apart.
fn gen_etc_fields(s: &mut Src, punch: bool) -> Option<Vec<u8>> {
    use refs::etc::Kind;
    let (k, fields, free): (Kind, &[Bits], Bits) = match s.below(3) {
        0 => (Kind::T, &T_FIELDS, &[63, 62, 61, 58]),
        1 => (Kind::H, &H_FIELDS, &[63, 55, 54, 53, 50]),
        _ => (Kind::Planar, &P_FIELDS, &[63, 55, 47, 46, 45, 42]),
    };
    let mut f: Vec<u64> = vec![];
    for (i, b) in fields.iter().enumerate() {
        let n = b.len() as u32;
        let max = (1u64 << n) - 1;
        // the same channel of the colour before
        let same = (i >= 3 && n > 3).then(|| f[i - 3].min(max));
        f.push(match (s.below(8), same) {
            (0..=3, Some(x)) => x,
            (4, Some(x)) => (x + s.below(3)).saturating_sub(1).min(max),
            (5, _) => s.edgy(n),
            _ => s.bits(n),
        });
    }
    let mut w = s.bits(32);
    if k == Kind::Planar {
        w = 0;
    }
    for (x, b) in f.iter().zip(fields) {
        for (j, &bit) in b.iter().rev().enumerate() {
            w = w & !(1 << bit) | (x >> j & 1) << bit;
        }
    }
    if !punch || s.bool() {
        w |= 1 << 33;
    }
    let n = 1u64 << free.len();
    let start = s.below(n);
    for t in 0..n {
        let mut v = w;
        for (j, &bit) in free.iter().enumerate() {
            v = v & !(1 << bit) | (((start + t) & (n - 1)) >> j & 1) << bit;
        }
        let d = v.to_be_bytes().to_vec();
        if refs::etc::kind(&d, punch) == k {
            return Some(d);
        }
    }
    None
}
/// A 64-bit ETC word of a chosen kind, by its logical fields or by drawing
/// base/delta per channel.
fn gen_etc_word(s: &mut Src, o: &mut Obs, legal_only: bool, punch: bool) -> Vec<u8> {
    if !legal_only && s.chance(1, 4) {
        if let Some(v) = gen_etc_fields(s, punch) {
            o.label(kind_label(refs::etc::kind(&v, punch)));
            if punch && v[3] & 2 == 0 {
                o.label("non-opaque");
            }
            return v;
        }
    }
    let mut v = fill(s, 8);
    let want = if legal_only { s.below(2) } else { s.below(5) };
    // in range: base and delta sum inside 0..=31; out: outside
    let chan = |s: &mut Src, out: bool| -> u8 {
        if out {
            if s.bool() {
                let b = 28 + s.below(4);
                let lo = 32 - b; // deltas lo..=3 overflow
                let d = lo.min(3) + s.below(4 - lo.min(3));
                if b + d > 31 {
                    return (b << 3 | d) as u8;
                }
                return 31 << 3 | 1;
            }
            let b = s.below(4);
            let d = -((b + 1 + s.below(4 - b)) as i64);
            (b << 3) as u8 | (d & 7) as u8
        } else {
            let b = s.below(32) as i64;
            let d = s.range((-b).max(-4), (31 - b).min(3));
            (b << 3) as u8 | (d & 7) as u8
        }
    };
    let setdiff = |v: &mut Vec<u8>| {
        if !punch {
            v[3] |= 2;
        }
    };
    match want {
        0 => {
            if !punch {
                v[3] &= !2;
            } else {
                for c in 0..3 {
                    v[c] = chan(s, false);
                }
            }
        }
        1 => {
            setdiff(&mut v);
            for c in 0..3 {
                v[c] = chan(s, false);
            }
        }
        2 => {
            setdiff(&mut v);
            v[0] = chan(s, true);
        }
        3 => {
            setdiff(&mut v);
            v[0] = chan(s, false);
            v[1] = chan(s, true);
        }
        _ => {
            setdiff(&mut v);
            v[0] = chan(s, false);
            v[1] = chan(s, false);
            v[2] = chan(s, true);
        }
    }
    o.label(kind_label(refs::etc::kind(&v, punch)));
    if punch && v[3] & 2 == 0 {
        o.label("non-opaque");
    }
    v
}
fn gen_etc1(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    gen_etc_word(s, o, true, false)
}
fn gen_etc2(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    gen_etc_word(s, o, false, false)
}
fn gen_etc2_punch(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    gen_etc_word(s, o, false, true)
}
pub fn gen_eac(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let base = s.edgy(8) as u8;
    let mul = s.edgy(4) as u8;
    let tab = s.below(16) as u8;
    o.label(if mul == 0 { "multiplier 0" } else { "multiplier > 0" });
    let mut v = vec![base, mul << 4 | tab];
    v.extend(s.bytes(6));
    v
}
fn gen_eac_signed(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let mut v = gen_eac(s, o);
    if v[0] == 0x80 {
        v[0] = 0x81; // -128 is reserved in the signed format
    }
    v
}
fn gen_etc2a(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_eac(s, o), gen_etc2(s, o))
}
fn gen_eac2(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_eac(s, o), gen_eac(s, o))
}
fn gen_eac2_signed(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_eac_signed(s, o), gen_eac_signed(s, o))
}
fn gen_atc(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    let alpha_mode = s.bool();
    o.label(if alpha_mode { "mode bit 1" } else { "mode bit 0" });
    let c0 = s.edgy(15) | (alpha_mode as u64) << 15;
    let c1 = s.edgy(16);
    let mut v = vec![c0 as u8, (c0 >> 8) as u8, c1 as u8, (c1 >> 8) as u8];
    v.extend(s.bytes(4));
    v
}
fn gen_atca(s: &mut Src, o: &mut Obs) -> Vec<u8> {
    cat(gen_alpha_bc3(s, o), gen_atc(s, o))
}

use Class::*;
macro_rules! f {
    ($n:ident, $by:expr, $blk:path, $gen:expr, $cl:expr) => {
        paste_image!($n, $by, 4, 4, $blk, $gen, $cl)
    };
}
macro_rules! paste_image {
    ($n:ident, $by:expr, $bw:expr, $bh:expr, $blk:path, $gen:expr, $cl:expr) => {
        Fmt {
            name: stringify!($n),
            bytes: $by,
            bw: $bw,
            bh: $bh,
            block: $blk,
            image: t2d::$n,
            gen: $gen,
            class: $cl,
        }
    };
}
macro_rules! astc {
    ($n:ident, $x:expr, $y:expr) => {
        Fmt {
            name: stringify!($n),
            bytes: 16,
            bw: $x,
            bh: $y,
            block: |d, o| t2d::decode_astc_block(d, $x, $y, o),
            image: t2d::$n,
            gen: |s, o| super::astc::gen_block(s, o, $x, $y),
            class: Full,
        }
    };
}

pub static FORMATS: [Fmt; 35] = [
    f!(decode_bc1, 8, t2d::decode_bc1_block, gen_bc_color, Full),
    f!(decode_bc1a, 8, t2d::decode_bc1a_block, gen_bc_color, Full),
    f!(decode_bc2, 16, t2d::decode_bc2_block, gen_bc2, Full),
    f!(decode_bc3, 16, t2d::decode_bc3_block, gen_bc3, Full),
    f!(decode_bc4, 8, t2d::decode_bc4_block, gen_alpha_bc3, Partial),
    f!(decode_bc5, 16, t2d::decode_bc5_block, gen_bc5, Partial),
    f!(decode_bc6_signed, 16, t2d::decode_bc6_block_signed, gen_bc6, Full),
    f!(decode_bc6_unsigned, 16, t2d::decode_bc6_block_unsigned, gen_bc6, Full),
    f!(decode_bc7, 16, t2d::decode_bc7_block, gen_bc7, Full),
    f!(decode_etc1, 8, t2d::decode_etc1_block, gen_etc1, Full),
    f!(decode_etc2_rgb, 8, t2d::decode_etc2_rgb_block, gen_etc2, Full),
    f!(decode_etc2_rgba1, 8, t2d::decode_etc2_rgba1_block, gen_etc2_punch, PunchThrough),
    f!(decode_etc2_rgba8, 16, t2d::decode_etc2_rgba8_block, gen_etc2a, Full),
    f!(decode_eacr, 8, t2d::decode_eacr_block, gen_eac, Full),
    f!(decode_eacr_signed, 8, t2d::decode_eacr_signed_block, gen_eac_signed, Full),
    f!(decode_eacrg, 16, t2d::decode_eacrg_block, gen_eac2, Full),
    f!(decode_eacrg_signed, 16, t2d::decode_eacrg_signed_block, gen_eac2_signed, Full),
    f!(decode_atc_rgb4, 8, t2d::decode_atc_rgb4_block, gen_atc, Full),
    f!(decode_atc_rgba8, 16, t2d::decode_atc_rgba8_block, gen_atca, Full),
    astc!(decode_astc_4_4, 4, 4),
    astc!(decode_astc_5_4, 5, 4),
    astc!(decode_astc_5_5, 5, 5),
    astc!(decode_astc_6_5, 6, 5),
    astc!(decode_astc_6_6, 6, 6),
    astc!(decode_astc_8_5, 8, 5),
    astc!(decode_astc_8_6, 8, 6),
    astc!(decode_astc_8_8, 8, 8),
    astc!(decode_astc_10_5, 10, 5),
    astc!(decode_astc_10_6, 10, 6),
    astc!(decode_astc_10_8, 10, 8),
    astc!(decode_astc_10_10, 10, 10),
    astc!(decode_astc_12_10, 12, 10),
    astc!(decode_astc_12_12, 12, 12),
    // the generic entry points, through their parameters
    Fmt {
        name: "decode_bc6(signed)",
        bytes: 16,
        bw: 4,
        bh: 4,
        block: |d, o| t2d::decode_bc6_block(d, o, true),
        image: |d, w, h, i| t2d::decode_bc6(d, w, h, i, true),
        gen: gen_bc6,
        class: Full,
    },
    Fmt {
        name: "decode_bc6(unsigned)",
        bytes: 16,
        bw: 4,
        bh: 4,
        block: |d, o| t2d::decode_bc6_block(d, o, false),
        image: |d, w, h, i| t2d::decode_bc6(d, w, h, i, false),
        gen: gen_bc6,
        class: Full,
    },
];

pub fn fmt(name: &str) -> &'static Fmt {
    FORMATS.iter().find(|f| f.name == name).expect(name)
}

/// Reference for one block of a fixed-block format; None where the format
/// leaves the block undefined.
pub fn reference(f: &Fmt, d: &[u8]) -> Option<Vec<Rgba>> {
    use refs::*;
    Some(match f.name {
        "decode_bc1" => bc::bc1(d).to_vec(),
        "decode_bc1a" => bc::bc1a(d).to_vec(),
        "decode_bc2" => bc::bc2(d).to_vec(),
        "decode_bc3" => bc::bc3(d).to_vec(),
        "decode_bc4" => bc::bc4(d).to_vec(),
        "decode_bc5" => bc::bc5(d).to_vec(),
        "decode_bc6_signed" | "decode_bc6(signed)" => {
            bc6::decode(d, true).unwrap_or([[0, 0, 0, 255]; 16]).to_vec()
        }
        "decode_bc6_unsigned" | "decode_bc6(unsigned)" => {
            bc6::decode(d, false).unwrap_or([[0, 0, 0, 255]; 16]).to_vec()
        }
        "decode_bc7" => bc7::decode(d).to_vec(),
        "decode_etc1" => {
            if !etc::etc1_legal(d) {
                return None;
            }
            etc::etc1(d).to_vec()
        }
        "decode_etc2_rgb" => etc::etc2_rgb(d).to_vec(),
        "decode_etc2_rgba1" => etc::etc2_rgba1(d).to_vec(),
        "decode_etc2_rgba8" => etc::etc2_rgba8(d).to_vec(),
        "decode_eacr" => etc::eacr(d, false).to_vec(),
        "decode_eacr_signed" => {
            if d[0] == 0x80 {
                return None;
            }
            etc::eacr(d, true).to_vec()
        }
        "decode_eacrg" => etc::eacrg(d, false).to_vec(),
        "decode_eacrg_signed" => {
            if d[0] == 0x80 || d[8] == 0x80 {
                return None;
            }
            etc::eacrg(d, true).to_vec()
        }
        "decode_atc_rgb4" => atc::rgb(d).to_vec(),
        "decode_atc_rgba8" => atc::rgba(d).to_vec(),
        _ => astc::decode(d, f.bw as u32, f.bh as u32),
    })
}

/// First differing texel, respecting what the format leaves open.
pub fn differs(class: Class, want: &[Rgba], got: &[u32]) -> Option<usize> {
    want.iter().zip(got).position(|(w, g)| {
        let g = refs::rgba(*g);
        if class == PunchThrough && w[3] == 0 {
            g[3] != 0
        } else {
            *w != g
        }
    })
}
