//! C08, C09: ASTC blocks against the reference decoder.
use super::blocks::check_block;
use super::formats::*;
use crate::engine::*;
use crate::refs::astc::*;

pub static SIZES: [(usize, usize); 14] = [
    (4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8),
    (10, 10), (12, 10), (12, 12),
];

/// All 11-bit block modes legal in some footprint.
fn legal_modes(bw: u32, bh: u32) -> Vec<u32> {
    (0..2048u32)
        .filter(|&m| match block_mode(m) {
            Some(x) => {
                let n = x.w * x.h * (1 + x.dual as u32);
                let b = ise_bits(n, x.range);
                x.w <= bw && x.h <= bh && n <= 64 && (24..=96).contains(&b)
            }
            None => false,
        })
        .collect()
}
fn modes(bw: u32, bh: u32) -> &'static Vec<u32> {
    static T: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| SIZES.iter().map(|&(w, h)| legal_modes(w as u32, h as u32)).collect());
    let i = SIZES.iter().position(|&s| s == (bw as usize, bh as usize)).unwrap();
    &t[i]
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Ldr,
    Hdr,
    Any,
}

const LDR: [u64; 10] = [0, 1, 4, 5, 6, 8, 9, 10, 12, 13];
const HDR: [u64; 6] = [2, 3, 7, 11, 14, 15];

/// A block whose configuration is legal by construction (up to the number of
/// endpoint bits), with every other bit free.
pub fn gen_legal(s: &mut Src, bw: u32, bh: u32, want: Want) -> Vec<u8> {
    let ms = modes(bw, bh);
    let mode = ms[s.below(ms.len() as u64) as usize];
    let md = block_mode(mode).unwrap();
    let free = s.bytes(16);
    let mut v = u128::from_le_bytes(free.try_into().unwrap());
    if s.chance(1, 12) {
        v = if s.bool() { 0 } else { u128::MAX };
    }
    let mut set = |lo: u32, n: u32, x: u32| {
        let m = ((1u128 << n) - 1) << lo;
        v = v & !m | ((x as u128) << lo) & m;
    };
    set(0, 11, mode);
    let nw = md.w * md.h * (1 + md.dual as u32);
    let wbits = ise_bits(nw, md.range);
    let maxp = if md.dual { 3 } else { 4 };
    let parts = [1u32, 2, 3, 4][s.weighted(&[4, 3, 2, 2])].min(maxp);
    set(11, 2, parts - 1);
    let cem = |s: &mut Src| -> u32 {
        (match want {
            Want::Ldr => s.pick(&LDR),
            Want::Hdr => s.pick(&HDR),
            Want::Any => s.below(16),
        }) as u32
    };
    if parts == 1 {
        set(13, 4, cem(s));
    } else {
        let seed = s.bits(10) as u32;
        set(13, 10, seed);
        if s.below(3) == 0 {
            set(23, 2, 0);
            set(25, 4, cem(s));
        } else {
            let base = s.usize(1, 3) as u32;
            set(23, 2, base);
            let mut all = 0u32;
            for i in 0..parts {
                let c = s.below(2) as u32;
                let class = base - 1 + c;
                let pool: Vec<u32> = (0..4)
                    .filter(|m| {
                        let e = class * 4 + m;
                        let hdr = HDR.contains(&(e as u64));
                        match want {
                            Want::Ldr => !hdr,
                            _ => true,
                        }
                    })
                    .collect();
                let m = pool[s.below(pool.len() as u64) as usize];
                all |= c << i | m << (parts + 2 * i);
            }
            let extra = 3 * parts - 4;
            set(25, 4, all & 15);
            set(128 - wbits - extra, extra, all >> 4);
        }
    }
    v.to_le_bytes().to_vec()
}

fn gen_void(s: &mut Src) -> Vec<u8> {
    let hdr = s.bool();
    let mut b = vec![0xfc, 0x0d | (hdr as u8) << 1];
    // reserved bits set; extents either all ones or a proper rectangle
    let (x0, x1, y0, y1) = if s.bool() {
        (8191, 8191, 8191, 8191)
    } else {
        let x0 = s.below(8190);
        let y0 = s.below(8190);
        (x0, x0 + 1 + s.below(8190 - x0), y0, y0 + 1 + s.below(8190 - y0))
    };
    let mut v = u128::from_le_bytes([b[0], b[1], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    v |= (x0 as u128) << 12 | (x1 as u128) << 25 | (y0 as u128) << 38 | (y1 as u128) << 51;
    for k in 0..4 {
        let mut c = s.edgy(16) as u16;
        if hdr {
            c = match s.below(6) {
                0 => 0x3c00,                      // 1.0
                1 => s.bits(10) as u16,           // denormals
                2 => 0x8000 | s.bits(14) as u16,  // negatives
                3 => s.below(0x3c00) as u16,      // [0, 1)
                _ => c,
            };
            if c & 0x7c00 == 0x7c00 {
                c &= 0xbfff; // infinities and NaN are outside the format
            }
        }
        v |= (c as u128) << (64 + 16 * k);
    }
    b = v.to_le_bytes().to_vec();
    b
}

/// Legal except for one rule of the specification.
fn gen_illegal(s: &mut Src, bw: u32, bh: u32) -> Vec<u8> {
    let mut b = gen_legal(s, bw, bh, Want::Any);
    let mut v = u128::from_le_bytes(b[..].try_into().unwrap());
    let mut set = |lo: u32, n: u32, x: u32| {
        let m = ((1u128 << n) - 1) << lo;
        v = v & !m | ((x as u128) << lo) & m;
    };
    match s.below(5) {
        0 => set(0, 4, 0),
        1 => {
            set(0, 2, 0);
            set(6, 3, 7);
            let k = s.below(15) as u32; // not all ones: that is void-extent
            set(2, 4, k);
        }
        2 => set(0, 11, s.bits(11) as u32),
        3 => set(11, 2, 3),
        _ => {
            // many partitions of the largest classes
            set(11, 2, s.usize(1, 3) as u32);
            set(23, 2, 0);
            set(25, 4, 12 + s.below(4) as u32);
        }
    }
    b = v.to_le_bytes().to_vec();
    b
}

pub fn gen_block(s: &mut Src, o: &mut Obs, bw: usize, bh: usize) -> Vec<u8> {
    let (w, h) = (bw as u32, bh as u32);
    let b = match s.weighted(&[10, 3, 1, 1, 2]) {
        0 => gen_legal(s, w, h, Want::Any),
        1 => gen_legal(s, w, h, Want::Ldr),
        2 => gen_void(s),
        3 => gen_illegal(s, w, h),
        _ => s.bytes(16),
    };
    if b[0] == 0xfc && b[1] & 1 == 1 {
        // normalise random void-extent blocks to legal ones
        if !void_legal(&b) {
            let mut v = b.clone();
            v[1] = 0x0d | b[1] & 2;
            for x in v[2..8].iter_mut() {
                *x = 0xff;
            }
            v[1] |= 0xf0;
            for k in 0..4 {
                if v[9 + 2 * k] & 0x7c == 0x7c {
                    v[9 + 2 * k] &= 0xbf;
                }
            }
            label(o, &v, w, h);
            return v;
        }
    }
    label(o, &b, w, h);
    b
}
fn void_legal(b: &[u8]) -> bool {
    let v = u128::from_le_bytes(b[..16].try_into().unwrap());
    let f = |lo: u32, n: u32| (v >> lo & ((1 << n) - 1)) as u32;
    let ext = [f(12, 13), f(25, 13), f(38, 13), f(51, 13)];
    let rect = ext == [8191; 4] || (ext[0] < ext[1] && ext[2] < ext[3]);
    let fin = f(9, 1) == 0 || (0..4).all(|k| f(64 + 16 * k, 16) & 0x7c00 != 0x7c00);
    f(10, 2) == 3 && rect && fin
}

fn range_label(r: Range, weight: bool) -> &'static str {
    match (r, weight) {
        (Range::Bits(_), false) => "endpoints: bits",
        (Range::Trit(_), false) => "endpoints: trits",
        (Range::Quint(_), false) => "endpoints: quints",
        (Range::Bits(_), true) => "weights: bits",
        (Range::Trit(_), true) => "weights: trits",
        (Range::Quint(_), true) => "weights: quints",
    }
}
static CEM_LABELS: [&str; 16] = [
    "cem 0", "cem 1", "cem 2", "cem 3", "cem 4", "cem 5", "cem 6", "cem 7", "cem 8", "cem 9",
    "cem 10", "cem 11", "cem 12", "cem 13", "cem 14", "cem 15",
];
fn label(o: &mut Obs, b: &[u8], w: u32, h: u32) {
    match classify(b, w, h) {
        crate::refs::astc::Class::VoidLdr => o.label("void-extent LDR"),
        crate::refs::astc::Class::VoidHdr => o.label("void-extent HDR"),
        crate::refs::astc::Class::Reserved => o.label("reserved mode"),
        crate::refs::astc::Class::Illegal(why) => {
            o.label("illegal");
            o.label(why)
        }
        crate::refs::astc::Class::Normal { parts, dual, cems, range, wrange } => {
            o.label(["1 partition", "2 partitions", "3 partitions", "4 partitions"][parts as usize - 1]);
            if dual {
                o.label("dual plane");
            }
            for c in &cems {
                o.label(CEM_LABELS[*c as usize]);
            }
            if cems.windows(2).any(|c| c[0] != c[1]) {
                o.label("mixed endpoint modes");
            }
            o.label(range_label(range, false));
            o.label(range_label(wrange, true));
        }
    }
}

fn size_fmt(s: &mut Src) -> &'static Fmt {
    let (w, h) = SIZES[s.below(14) as usize];
    fmt(astc_name(w, h))
}
pub fn astc_name(w: usize, h: usize) -> &'static str {
    FORMATS
        .iter()
        .find(|f| f.name.starts_with("decode_astc") && f.bw == w && f.bh == h)
        .unwrap()
        .name
}

fn run(f: &'static Fmt, b: Vec<u8>, s: &mut Src, o: &mut Obs) -> Check {
    let tail = if s.chance(1, 8) { s.bytes(16) } else { vec![] };
    let fillw = s.bits(32) as u32;
    o.nontrivial(hash_bytes((f.bw * 16 + f.bh) as u64, &b));
    check_block(f, &b, &tail, fillw, o)
}
fn ldr(s: &mut Src, o: &mut Obs) -> Check {
    let f = size_fmt(s);
    let b = gen_legal(s, f.bw as u32, f.bh as u32, Want::Ldr);
    label(o, &b, f.bw as u32, f.bh as u32);
    run(f, b, s, o)
}
fn hdr(s: &mut Src, o: &mut Obs) -> Check {
    let f = size_fmt(s);
    let w = if s.below(3) == 0 { Want::Any } else { Want::Hdr };
    let b = gen_legal(s, f.bw as u32, f.bh as u32, w);
    label(o, &b, f.bw as u32, f.bh as u32);
    run(f, b, s, o)
}
fn void(s: &mut Src, o: &mut Obs) -> Check {
    let f = size_fmt(s);
    let b = gen_void(s);
    label(o, &b, f.bw as u32, f.bh as u32);
    run(f, b, s, o)
}
fn illegal(s: &mut Src, o: &mut Obs) -> Check {
    let f = size_fmt(s);
    let b = if s.below(4) == 0 {
        gen_block(s, o, f.bw, f.bh)
    } else {
        let b = gen_illegal(s, f.bw as u32, f.bh as u32);
        if b[0] == 0xfc && b[1] & 1 == 1 {
            gen_void(s)
        } else {
            b
        }
    };
    label(o, &b, f.bw as u32, f.bh as u32);
    run(f, b, s, o)
}
/// Every (footprint, block mode, partition count): 14 * 2048 * 4.
fn all_modes(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(14 * 2048 * 4);
    let (w, h) = SIZES[(k % 14) as usize];
    let m = (k / 14 % 2048) as u32;
    let p = (k / 14 / 2048) as u32;
    let mut v = u128::from_le_bytes(s.bytes(16).try_into().unwrap());
    v = v & !0x1fff | m as u128 | (p as u128) << 11;
    let mut b = v.to_le_bytes().to_vec();
    if b[0] == 0xfc && b[1] & 1 == 1 {
        b = gen_void(s);
    }
    label(o, &b, w as u32, h as u32);
    run(fmt(astc_name(w, h)), b, s, o)
}
/// Every partition seed and count in every footprint.
fn all_partitions(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(14 * 1024 * 3);
    let (w, h) = SIZES[(k % 14) as usize];
    let seed = (k / 14 % 1024) as u32;
    let parts = (k / 14 / 1024) as u32 + 2;
    // 4x2 weights of 8 levels... a small grid leaves room for four partitions
    let ms = modes(w as u32, h as u32);
    let small: Vec<u32> = ms
        .iter()
        .copied()
        .filter(|&m| {
            let x = block_mode(m).unwrap();
            !x.dual && ise_bits(x.w * x.h, x.range) <= 40
        })
        .collect();
    let mode = small[s.below(small.len() as u64) as usize];
    let mut v = u128::from_le_bytes(s.bytes(16).try_into().unwrap());
    v &= !((1u128 << 29) - 1);
    v |= mode as u128 | ((parts - 1) as u128) << 11 | (seed as u128) << 13;
    // luminance endpoints for all partitions
    let b = v.to_le_bytes().to_vec();
    label(o, &b, w as u32, h as u32);
    run(fmt(astc_name(w, h)), b, s, o)
}
fn half_values(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(65536) as u16;
    if k & 0x7c00 == 0x7c00 {
        return Ok(());
    }
    // void-extent, HDR, no extents given
    let mut v: u128 = 0xffff_ffff_ffff_fffc;
    for c in 0..4u32 {
        v |= (k as u128) << (64 + 16 * c);
    }
    let b = v.to_le_bytes().to_vec();
    label(o, &b, 4, 4);
    run(fmt("decode_astc_4_4"), b, s, o)
}

pub fn props() -> Vec<Prop> {
    let asm = vec![
        "the harness's ASTC reference transcribes the Khronos specification correctly",
        "8-bit conversion follows the library's documented-by-output convention (UNORM16 rounding for LDR, floor and clamp for HDR)",
    ];
    vec![
        Prop {
            id: "C08",
            relations: vec![
                Relation { name: "astc LDR blocks", rule: "a block legal by construction in one of the 14 footprints (block mode, partitions, per-partition LDR endpoint modes, dual plane drawn separately, all other bits free); distinct by footprint and bytes", quick: 10_000_000, thorough: 200_000_000, exhaustive: None, f: ldr },
                Relation { name: "astc partition seeds", rule: "every footprint x partition seed x 2..4 partitions, random grid and weights", quick: 43008 * 16, thorough: 43008 * 200, exhaustive: None, f: all_partitions },
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C09",
            relations: vec![
                Relation { name: "astc HDR blocks", rule: "as C08 with HDR endpoint modes, alone or mixed with LDR ones", quick: 5_000_000, thorough: 120_000_000, exhaustive: None, f: hdr },
                Relation { name: "astc void-extent blocks", rule: "LDR and HDR constant-colour blocks with legal extents", quick: 600_000, thorough: 10_000_000, exhaustive: None, f: void },
                Relation { name: "astc illegal blocks", rule: "blocks breaking one encoding rule, or free bytes: the error colour is expected", quick: 2_000_000, thorough: 60_000_000, exhaustive: None, f: illegal },
                Relation { name: "astc block modes", rule: "every footprint x 11-bit block mode x partition count, other bits random", quick: 114_688 * 10, thorough: 114_688 * 200, exhaustive: None, f: all_modes },
                Relation { name: "astc half floats", rule: "every finite half-float value as an HDR void-extent colour", quick: 65536, thorough: 65536, exhaustive: Some(65536), f: half_values },
            ],
            assumptions: asm,
        },
    ]
}
