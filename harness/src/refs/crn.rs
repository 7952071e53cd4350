//! Model and encoder of the Crunch container (.crn), both the original layout
//! and Unity's. It builds files from a logical texture (palettes and the
//! palette indices of every block) and computes, from that logical texture
//! alone, the block-compressed data the file stands for.
use crate::engine::Src;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Bits {
    pub out: Vec<u8>,
    n: u32,
}
impl Bits {
    pub fn put(&mut self, v: u32, k: u32) {
        for i in (0..k).rev() {
            if self.n % 8 == 0 {
                self.out.push(0);
            }
            let b = (v >> i & 1) as u8;
            *self.out.last_mut().unwrap() |= b << (7 - self.n % 8);
            self.n += 1;
        }
    }
}

/// A canonical prefix code: sizes per symbol.
#[derive(Clone, Default)]
pub struct Code {
    pub sizes: Vec<u8>,
    codes: Vec<u32>,
}
impl Code {
    fn from_sizes(sizes: Vec<u8>) -> Code {
        let mut codes = vec![0u32; sizes.len()];
        let mut next = 0u32;
        for l in 1..=16u8 {
            for (i, &s) in sizes.iter().enumerate() {
                if s == l {
                    codes[i] = next;
                    next += 1;
                }
            }
            next <<= 1;
        }
        Code { sizes, codes }
    }
    pub fn put(&self, b: &mut Bits, sym: u32) {
        b.put(self.codes[sym as usize], self.sizes[sym as usize] as u32);
    }
}

/// Random complete prefix code over the used symbols and a few others.
/// `style` 0: balanced, 1: skewed (long codes), 2: mixed.
fn make_code(s: &mut Src, used: &BTreeMap<u32, u32>, alphabet: u32, max_len: u32) -> Code {
    let mut syms: Vec<u32> = used.keys().copied().collect();
    if syms.is_empty() {
        syms.push(0);
    }
    // unused symbols that have a code all the same
    let room = (1u32 << max_len.min(13)) as usize;
    if s.chance(1, 3) {
        let extra = s.usize(1, 20);
        for _ in 0..extra {
            let x = s.below(alphabet as u64) as u32;
            if !syms.contains(&x) && syms.len() < room {
                syms.push(x);
            }
        }
    }
    syms.sort_unstable();
    // which symbols get the short codes
    let rot = s.below(syms.len() as u64) as usize;
    syms.rotate_left(rot);
    let total = *syms.iter().max().unwrap() as usize + 1;
    let mut sizes = vec![0u8; total];
    if syms.len() == 1 {
        sizes[syms[0] as usize] = 1;
        return Code::from_sizes(sizes);
    }
    let style = s.below(3);
    let mut stack: Vec<(usize, usize, u32)> = vec![(0, syms.len(), 0)];
    while let Some((lo, hi, d)) = stack.pop() {
        let n = hi - lo;
        if n == 1 {
            sizes[syms[lo] as usize] = d as u8;
            continue;
        }
        let cap = 1usize << (max_len - d - 1).min(20);
        let (kmin, kmax) = (1.max(n.saturating_sub(cap)), (n - 1).min(cap));
        let k = match style {
            0 => (n / 2).clamp(kmin, kmax),
            1 => kmin,
            _ if n <= 64 => s.usize(kmin, kmax),
            _ => (n / 2).clamp(kmin, kmax),
        };
        stack.push((lo + k, hi, d + 1));
        stack.push((lo, lo + k, d + 1));
    }
    Code::from_sizes(sizes)
}

const ORDER: [usize; 21] =
    [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];

/// A way for a file to have no meaning from one of its sections on.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Spoil {
    /// bits that are no code of the table in force
    Unassigned,
    /// the table's first length repeats the one before it
    RepeatFirst,
    /// a length of zero is repeated
    RepeatZero,
    /// a run of lengths goes past the table's end
    RunPast,
    /// the number of length codes is 0 or above 21
    LengthCodes,
    /// a selector symbol that stands for no pair of steps
    ForeignSymbol,
    /// a palette index past the palette, whichever index came before
    OutOfPalette,
}
impl Spoil {
    fn of_table(self) -> bool {
        matches!(self, Spoil::RepeatFirst | Spoil::RepeatZero | Spoil::RunPast | Spoil::LengthCodes)
    }
}
/// What to spoil, and whether it could be done. Places: 0 to 3 the palettes,
/// 4 the tables, 5 the first level.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Target {
    pub kind: Spoil,
    pub place: usize,
    pub done: bool,
}

/// Makes room for bits that are no code, and gives those bits.
fn open_end(c: &mut Code) -> Option<(u32, u32)> {
    let max = *c.sizes.iter().max()?;
    if c.sizes.iter().filter(|&&x| x != 0).count() == 1 {
        // a single code is 0
        return Some((1, 1));
    }
    if max >= 16 {
        return None;
    }
    let at = c.sizes.iter().rposition(|&x| x == max)?;
    c.sizes[at] += 1;
    *c = Code::from_sizes(std::mem::take(&mut c.sizes));
    Some(((1 << (max + 1)) - 1, max as u32 + 1))
}

/// Write a code in the container's run-length form.
pub fn transmit(s: &mut Src, b: &mut Bits, c: &Code) {
    transmit_as(s, b, c, None)
}
fn transmit_as(s: &mut Src, b: &mut Bits, c: &Code, spoil: Option<Spoil>) {
    // trailing zero sizes are allowed
    let mut sizes = c.sizes.clone();
    if s.chance(1, 8) && sizes.len() < 8000 {
        let n = s.usize(1, 30);
        sizes.extend(vec![0; n]);
    }
    let lazy = s.below(4); // how often a run is not taken
    let mut toks: Vec<(u32, u32, u32)> = vec![]; // symbol, extra, extra bits
    let mut i = 0;
    while i < sizes.len() {
        let v = sizes[i];
        let run = sizes[i..].iter().take_while(|&&x| x == v).count();
        let skip = lazy > 0 && s.below(4) < lazy;
        if v == 0 && run >= 11 && !skip {
            let len = if s.bool() { run.min(138) } else { s.usize(11, run.min(138)) };
            toks.push((18, (len - 11) as u32, 7));
            i += len;
        } else if v == 0 && run >= 3 && !skip {
            let len = if s.bool() { run.min(10) } else { s.usize(3, run.min(10)) };
            toks.push((17, (len - 3) as u32, 3));
            i += len;
        } else if v != 0 && i > 0 && sizes[i - 1] == v && run >= 7 && !skip {
            let len = if s.bool() { run.min(70) } else { s.usize(7, run.min(70)) };
            toks.push((20, (len - 7) as u32, 6));
            i += len;
        } else if v != 0 && i > 0 && sizes[i - 1] == v && run >= 3 && !skip {
            let len = if s.bool() { run.min(6) } else { s.usize(3, run.min(6)) };
            toks.push((19, (len - 3) as u32, 2));
            i += len;
        } else {
            toks.push((v as u32, 0, 0));
            i += 1;
        }
    }
    let mut announced = sizes.len() as u32;
    match spoil {
        Some(Spoil::RepeatFirst) => {
            let t = if s.bool() { (19, s.bits(2) as u32, 2) } else { (20, s.bits(6) as u32, 6) };
            toks.insert(0, t);
            announced = (announced + 70).min(8192);
        }
        Some(Spoil::RepeatZero) => {
            let z = match s.below(3) {
                0 => (0, 0, 0),
                1 => (17, s.bits(3) as u32, 3),
                _ => (18, s.bits(7) as u32, 7),
            };
            let t = if s.bool() { (19, s.bits(2) as u32, 2) } else { (20, s.bits(6) as u32, 6) };
            // as its own start, so that no more than 138 + 70 lengths come before the fault
            toks.splice(0..0, [z, t]);
            announced = (announced + 300).min(8192);
        }
        Some(Spoil::RunPast) => {
            announced += s.usize(1, 2) as u32;
            let zero = *sizes.last().unwrap() == 0;
            toks.push(match s.below(if zero { 2 } else { 4 }) {
                0 => (17, s.bits(3) as u32, 3),
                1 => (18, s.bits(7) as u32, 7),
                2 => (19, s.bits(2) as u32, 2),
                _ => (20, s.bits(6) as u32, 6),
            });
        }
        _ => (),
    }
    let mut used = BTreeMap::new();
    for t in &toks {
        *used.entry(t.0).or_insert(0) += 1;
    }
    let lc = make_code(s, &used, 21, 7);
    let at = |k: usize| lc.sizes.get(k).copied().unwrap_or(0);
    let mut last = ORDER.iter().rposition(|&k| at(k) != 0).unwrap() + 1;
    if s.chance(1, 4) {
        last = s.usize(last, 21);
    }
    b.put(announced, 14);
    if spoil == Some(Spoil::LengthCodes) {
        let n = s.pick(&[0, 22, 23, 31]);
        b.put(n, 5);
    } else {
        b.put(last as u32, 5);
    }
    for &k in ORDER.iter().take(last) {
        b.put(at(k) as u32, 3);
    }
    for (sym, ex, k) in toks {
        lc.put(b, sym);
        b.put(ex, k);
    }
}

fn histogram(v: impl Iterator<Item = u32>) -> BTreeMap<u32, u32> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}
/// A section made of its codes followed by symbols (code number, symbol).
fn section(s: &mut Src, alphabets: &[u32], syms: &[(usize, u32)], spoil: &mut Option<Target>, place: usize) -> Vec<u8> {
    let mut b = Bits::default();
    let mut t = spoil.as_mut().filter(|t| t.place == place);
    let mut syms = syms.to_vec();
    if let Some(t) = t.as_mut().filter(|t| t.kind == Spoil::ForeignSymbol) {
        let at = s.usize(0, syms.len() - 1);
        syms[at].1 = alphabets[syms[at].0] + s.below(200) as u32;
        t.done = true;
    }
    let mut codes: Vec<Code> = alphabets
        .iter()
        .enumerate()
        .map(|(k, &a)| {
            let h = histogram(syms.iter().filter(|x| x.0 == k).map(|x| x.1));
            make_code(s, &h, a, 16)
        })
        .collect();
    let mut bad = None;
    if let Some(t) = t.as_mut().filter(|t| t.kind == Spoil::Unassigned) {
        let at = s.usize(0, syms.len() - 1);
        bad = open_end(&mut codes[syms[at].0]).map(|x| (at, x));
        t.done = bad.is_some();
    }
    let mut table = None;
    if let Some(t) = t.filter(|t| t.kind.of_table()) {
        table = Some((s.usize(0, codes.len() - 1), t.kind));
        t.done = true;
    }
    for (k, c) in codes.iter().enumerate() {
        transmit_as(s, &mut b, c, table.filter(|x| x.0 == k).map(|x| x.1));
    }
    for (i, &(k, v)) in syms.iter().enumerate() {
        if let Some((_, (v, n))) = bad.filter(|x| x.0 == i) {
            b.put(v, n);
        }
        codes[k].put(&mut b, v);
    }
    b.out
}

pub const DXT1: u8 = 0;
pub const DXT5: u8 = 2;
pub const DXN_XY: u8 = 7;
pub const DXN_YX: u8 = 8;
pub const DXT5A: u8 = 9;
pub const ETC1: u8 = 10;
pub const ETC2: u8 = 11;
pub const ETC2A: u8 = 12;
pub const ETC1S: u8 = 13;
pub const ETC2AS: u8 = 14;
pub static CRUNCH_FORMATS: [u8; 9] = [0, 2, 3, 4, 5, 6, 7, 8, 9];
pub static UNITY_FORMATS: [u8; 14] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
pub static NAMES: [&str; 15] = [
    "DXT1", "DXT3", "DXT5", "DXT5 CCxY", "DXT5 xGxR", "DXT5 xGBR", "DXT5 AGBR", "DXN XY",
    "DXN YX", "DXT5A", "ETC1", "ETC2", "ETC2A", "ETC1S", "ETC2AS",
];

fn has_color(f: u8) -> bool {
    !matches!(f, DXN_XY | DXN_YX | DXT5A)
}
fn has_alpha(f: u8) -> bool {
    !matches!(f, DXT1 | ETC1 | ETC2 | ETC1S)
}
fn is_etc(f: u8) -> bool {
    f >= ETC1
}
fn subblocks(f: u8) -> bool {
    matches!(f, ETC1 | ETC2 | ETC2A)
}
pub fn block_bytes(f: u8) -> usize {
    if matches!(f, DXT1 | DXT5A | ETC1 | ETC2 | ETC1S) {
        8
    } else {
        16
    }
}

#[derive(Default, Clone)]
pub struct Palettes {
    /// r0 g0 b0 r1 g1 b1 (565), or r g b table for ETC
    pub color: Vec<[u8; 6]>,
    /// 16 linear values 0..=3, row major
    pub csel: Vec<[u8; 16]>,
    pub alpha: Vec<[u8; 2]>,
    /// 16 linear values 0..=7, row major
    pub asel: Vec<[u8; 16]>,
}

const FROM_LINEAR4: [u8; 4] = [0, 2, 3, 1];
const FROM_LINEAR8: [u8; 8] = [0, 2, 3, 4, 5, 6, 7, 1];

fn dxt_color_block(e: &[u8; 6], sel: &[u8; 16]) -> [u8; 8] {
    let q = |r: u8, g: u8, b: u8| (r as u16) << 11 | (g as u16) << 5 | b as u16;
    let mut v = 0u32;
    for (i, &x) in sel.iter().enumerate() {
        v |= (FROM_LINEAR4[x as usize] as u32) << (2 * i);
    }
    let (a, b) = (q(e[0], e[1], e[2]).to_le_bytes(), q(e[3], e[4], e[5]).to_le_bytes());
    let w = v.to_le_bytes();
    [a[0], a[1], b[0], b[1], w[0], w[1], w[2], w[3]]
}
fn dxt_alpha_block(e: &[u8; 2], sel: &[u8; 16]) -> [u8; 8] {
    let mut v = 0u64;
    for (i, &x) in sel.iter().enumerate() {
        v |= (FROM_LINEAR8[x as usize] as u64) << (3 * i);
    }
    let w = v.to_le_bytes();
    [e[0], e[1], w[0], w[1], w[2], w[3], w[4], w[5]]
}
/// Selectors of an ETC block; `sel` is row major.
fn etc_selector_word(sel: &[u8; 16]) -> [u8; 4] {
    // linear order: -large, -small, +small, +large
    let code = [3u32, 2, 0, 1];
    let mut v = 0u32;
    for y in 0..4 {
        for x in 0..4 {
            let c = code[sel[y * 4 + x] as usize];
            let p = x * 4 + y;
            v |= (c >> 1) << (16 + p) | (c & 1) << p;
        }
    }
    v.to_be_bytes()
}
fn transpose(sel: &[u8; 16]) -> [u8; 16] {
    core::array::from_fn(|i| sel[i % 4 * 4 + i / 4])
}
fn etc_color_block(e0: &[u8; 6], e1: &[u8; 6], flip: bool, sel: &[u8; 16]) -> [u8; 8] {
    let d: Vec<i32> = (0..3).map(|c| e1[c] as i32 - e0[c] as i32).collect();
    let diff = d.iter().all(|&x| (-4..=3).contains(&x));
    let mut b = [0u8; 8];
    for c in 0..3 {
        b[c] = if diff {
            e0[c] << 3 | (d[c] & 7) as u8
        } else {
            e0[c] >> 1 << 4 | e1[c] >> 1
        };
    }
    b[3] = e0[3] << 5 | e1[3] << 2 | (diff as u8) << 1 | flip as u8;
    // the palette is laid out for blocks split horizontally
    let s = if flip { *sel } else { transpose(sel) };
    b[4..].copy_from_slice(&etc_selector_word(&s));
    b
}
fn eac_block(e: &[u8; 2], sel: &[u8; 16]) -> [u8; 8] {
    let code = [3u64, 2, 1, 0, 4, 5, 6, 7];
    let mut v = 0u64;
    for y in 0..4 {
        for x in 0..4 {
            let p = x * 4 + y;
            v |= code[sel[y * 4 + x] as usize] << (45 - 3 * p);
        }
    }
    let w = v.to_be_bytes();
    [e[0], e[1], w[2], w[3], w[4], w[5], w[6], w[7]]
}

/// One block of the logical texture.
#[derive(Clone, Copy, Default)]
struct Blk {
    c: usize,
    c2: usize,
    flip: bool,
    a: usize,
    a2: usize,
    cs: usize,
    as_: usize,
    as2: usize,
}
fn block_data(f: u8, p: &Palettes, b: &Blk) -> Vec<u8> {
    let mut v = vec![];
    match f {
        DXT1 => v.extend(dxt_color_block(&p.color[b.c], &p.csel[b.cs])),
        2..=6 => {
            v.extend(dxt_alpha_block(&p.alpha[b.a], &p.asel[b.as_]));
            v.extend(dxt_color_block(&p.color[b.c], &p.csel[b.cs]));
        }
        DXN_XY | DXN_YX => {
            v.extend(dxt_alpha_block(&p.alpha[b.a], &p.asel[b.as_]));
            v.extend(dxt_alpha_block(&p.alpha[b.a2], &p.asel[b.as2]));
        }
        DXT5A => v.extend(dxt_alpha_block(&p.alpha[b.a], &p.asel[b.as_])),
        ETC1 | ETC2 => v.extend(etc_color_block(&p.color[b.c], &p.color[b.c2], b.flip, &p.csel[b.cs])),
        ETC2A => {
            let s = if b.flip { p.asel[b.as_] } else { transpose(&p.asel[b.as_]) };
            v.extend(eac_block(&p.alpha[b.a], &s));
            v.extend(etc_color_block(&p.color[b.c], &p.color[b.c2], b.flip, &p.csel[b.cs]));
        }
        ETC1S | ETC2AS => {
            if f == ETC2AS {
                v.extend(eac_block(&p.alpha[b.a], &p.asel[b.as_]));
            }
            // one endpoint for the whole block, delta 0, not flipped; the
            // selectors are laid out as they are
            let e = &p.color[b.c];
            v.extend([e[0] << 3, e[1] << 3, e[2] << 3, e[3] << 5 | e[3] << 2 | 2]);
            v.extend(etc_selector_word(&p.csel[b.cs]));
        }
        _ => unreachable!(),
    }
    v
}

#[derive(Clone)]
pub struct Shape {
    pub unity: bool,
    pub format: u8,
    pub w: usize,
    pub h: usize,
    pub faces: usize,
    pub levels: usize,
    /// at most this many entries per palette
    pub palette: usize,
    /// sections far apart: offsets that need all of their bytes
    pub far: bool,
    pub spoil: Option<Target>,
}
pub struct File {
    pub shape: Shape,
    pub data: Vec<u8>,
    /// block data of face 0, level 0
    pub blocks: Vec<u8>,
    pub userdata: [u32; 2],
    /// (offset, length) of each non-level section
    pub sections: Vec<(usize, usize)>,
    pub level_ofs: Vec<usize>,
    pub counts: [usize; 4],
    pub refs_used: u32,
    /// the defect asked for is in it
    pub spoiled: bool,
}

/// index + delta -> symbol that moves `prev` to `new` in a palette of n
fn step(prev: &mut usize, new: usize, n: usize) -> u32 {
    let d = (new + n - *prev) % n;
    *prev = new;
    d as u32
}

type Syms = Vec<(usize, u32)>;
// codes of the tables section: 0 chunk/reference, 1 color endpoint,
// 2 color selector, 3 alpha endpoint, 4 alpha selector

static TILES: [[usize; 4]; 8] = [
    [0, 0, 0, 0],
    [0, 0, 1, 1],
    [0, 1, 0, 1],
    [0, 0, 1, 2],
    [1, 2, 0, 0],
    [0, 1, 0, 2],
    [1, 0, 2, 0],
    [0, 1, 2, 3],
];

fn draw(s: &mut Src, n: usize, prev: usize) -> usize {
    if s.chance(1, 3) {
        (prev + s.usize(0, 1)) % n
    } else {
        s.below(n as u64) as usize
    }
}

fn crunch_level(s: &mut Src, f: u8, p: &Palettes, bx: usize, by: usize, faces: usize) -> (Syms, Vec<Vec<Blk>>) {
    let (cx, cy) = (bx.div_ceil(2), by.div_ceil(2));
    let mut syms: Syms = vec![];
    let mut out = vec![];
    let (mut ce, mut cs) = (0, 0);
    let mut ae = [0usize; 2];
    let mut asl = [0usize; 2];
    let planes = match f {
        DXT1 => 0,
        DXN_XY | DXN_YX => 2,
        _ => 1,
    };
    // chunk encodings are coded three at a time
    let total = cx * cy * faces;
    let plain = s.chance(1, 6);
    let encs: Vec<usize> = (0..total.div_ceil(3) * 3)
        .map(|_| if plain { 0 } else { s.below(8) as usize })
        .collect();
    let mut k = 0;
    for _ in 0..faces {
        let mut face = vec![Blk::default(); bx * by];
        for y in 0..cy {
            for i in 0..cx {
                let x = if y % 2 == 1 { cx - 1 - i } else { i };
                if k % 3 == 0 {
                    let v = encs[k] | encs[k + 1] << 3 | encs[k + 2] << 6;
                    syms.push((0, v as u32));
                }
                let tiles = &TILES[encs[k]];
                k += 1;
                let nt = *tiles.iter().max().unwrap() + 1;
                let mut a = [[0usize; 4]; 2];
                let mut c = [0usize; 4];
                for pl in 0..planes {
                    for t in 0..nt {
                        let new = draw(s, p.alpha.len(), ae[pl]);
                        syms.push((3, step(&mut ae[pl], new, p.alpha.len())));
                        a[pl][t] = new;
                    }
                }
                if has_color(f) {
                    for t in c.iter_mut().take(nt) {
                        let new = draw(s, p.color.len(), ce);
                        syms.push((1, step(&mut ce, new, p.color.len())));
                        *t = new;
                    }
                }
                for q in 0..4 {
                    let mut b = Blk { c: c[tiles[q]], a: a[0][tiles[q]], a2: a[1][tiles[q]], ..Blk::default() };
                    for pl in 0..planes {
                        let new = draw(s, p.asel.len(), asl[pl]);
                        syms.push((4, step(&mut asl[pl], new, p.asel.len())));
                        if pl == 0 {
                            b.as_ = new;
                        } else {
                            b.as2 = new;
                        }
                    }
                    if has_color(f) {
                        let new = draw(s, p.csel.len(), cs);
                        syms.push((2, step(&mut cs, new, p.csel.len())));
                        b.cs = new;
                    }
                    let (px, py) = (x * 2 + q % 2, y * 2 + q / 2);
                    if px < bx && py < by {
                        face[py * bx + px] = b;
                    }
                }
            }
        }
        out.push(face);
    }
    (syms, out)
}

/// Unity's block stream. Endpoints come new, from the previous block in scan
/// order, from the block above, or (ETC) from the block above and to the left.
fn unity_level(s: &mut Src, f: u8, p: &Palettes, bx: usize, by: usize, faces: usize, refs_used: &mut u32) -> (Syms, Vec<Vec<Blk>>) {
    let (w, h) = (bx.div_ceil(2) * 2, by.div_ceil(2) * 2);
    let mut syms: Syms = vec![];
    let mut out = vec![];
    let sub = subblocks(f);
    let dxn = matches!(f, DXN_XY | DXN_YX);
    // rows of all faces in one column of rows: "above" of a face's first row
    // is the last (padded) row of the face before it
    let mut rows: Vec<Vec<Blk>> = vec![];
    let zero = Blk::default();
    let kinds = if s.chance(1, 8) { 1 } else { 4 };
    for _ in 0..faces {
        // reference kinds of the face, decided two rows at a time
        let mut kind = vec![0usize; w * h];
        let mut second = vec![0usize; w * h];
        for k in kind.iter_mut() {
            *k = s.below(kinds) as usize;
        }
        if sub {
            for k in second.iter_mut() {
                *k = s.below(kinds) as usize;
            }
        }
        let first_row = rows.len();
        for y in 0..h {
            rows.push(vec![zero; w]);
            for x in 0..w {
                if y % 2 == 0 && (sub || x % 2 == 0) {
                    let g = if sub {
                        kind[y * w + x] | kind[(y + 1) * w + x] << 2 | second[y * w + x] << 4 | second[(y + 1) * w + x] << 6
                    } else {
                        kind[y * w + x] | kind[(y + 1) * w + x] << 2 | kind[y * w + x + 1] << 4 | kind[(y + 1) * w + x + 1] << 6
                    };
                    syms.push((0, g as u32));
                }
                let r = rows.len() - 1;
                // the block before this one in scan order
                let prev = if x > 0 {
                    rows[r][x - 1]
                } else if r > 0 {
                    rows[r - 1][w - 1]
                } else {
                    zero
                };
                let above = if r > 0 { rows[r - 1][x] } else { zero };
                // above and to the left; at the left edge, what the scan order
                // makes of it: the last block two rows up
                let diag = if x > 0 {
                    if r > 0 { rows[r - 1][x - 1] } else { zero }
                } else if r > 1 {
                    rows[r - 2][w - 1]
                } else {
                    zero
                };
                let mut b = Blk::default();
                let kd = kind[y * w + x];
                *refs_used |= 1 << kd;
                // with subblocks, "previous" and "diagonal" are the second
                // endpoint of that block, "above" the first
                let (pc, dc) = if sub { (prev.c2, diag.c2) } else { (prev.c, diag.c) };
                match kd {
                    0 => {
                        if has_color(f) {
                            let mut at = pc;
                            b.c = draw(s, p.color.len(), at);
                            syms.push((1, step(&mut at, b.c, p.color.len())));
                        }
                        if has_alpha(f) {
                            let mut at = prev.a;
                            b.a = draw(s, p.alpha.len(), at);
                            syms.push((3, step(&mut at, b.a, p.alpha.len())));
                        }
                        if dxn {
                            let mut at = prev.a2;
                            b.a2 = draw(s, p.alpha.len(), at);
                            syms.push((3, step(&mut at, b.a2, p.alpha.len())));
                        }
                    }
                    1 => {
                        b.c = pc;
                        b.a = prev.a;
                        b.a2 = prev.a2;
                    }
                    3 if sub => {
                        b.c = dc;
                        b.a = diag.a;
                    }
                    _ => {
                        b.c = above.c;
                        b.a = above.a;
                        b.a2 = above.a2;
                    }
                }
                b.c2 = b.c;
                if has_color(f) {
                    b.cs = draw(s, p.csel.len(), prev.cs);
                    syms.push((2, b.cs as u32));
                }
                if has_alpha(f) {
                    b.as_ = draw(s, p.asel.len(), prev.as_);
                    syms.push((4, b.as_ as u32));
                }
                if dxn {
                    b.as2 = draw(s, p.asel.len(), prev.as2);
                    syms.push((4, b.as2 as u32));
                }
                if sub {
                    let k2 = second[y * w + x];
                    b.flip = k2 < 2;
                    if k2 != 0 {
                        let mut at = b.c;
                        b.c2 = draw(s, p.color.len(), at);
                        syms.push((1, step(&mut at, b.c2, p.color.len())));
                    }
                }
                rows[r][x] = b;
            }
        }
        let mut face = vec![];
        for y in 0..by {
            face.extend_from_slice(&rows[first_row + y][..bx]);
        }
        out.push(face);
    }
    (syms, out)
}

fn gen_palettes(s: &mut Src, sh: &Shape) -> Palettes {
    let f = sh.format;
    let mut p = Palettes::default();
    let count = |s: &mut Src| -> usize {
        match s.below(6) {
            0 => 1,
            1 => s.usize(1, 4.min(sh.palette)),
            2 => sh.palette,
            _ => s.usize(1, sh.palette),
        }
    };
    if has_color(f) {
        for _ in 0..count(s) {
            p.color.push(if is_etc(f) {
                [s.bits(5) as u8, s.bits(5) as u8, s.bits(5) as u8, s.bits(3) as u8, 0, 0]
            } else {
                let v = s.bits(32) as u32;
                [v as u8 & 31, (v >> 5) as u8 & 63, (v >> 11) as u8 & 31, (v >> 16) as u8 & 31, (v >> 21) as u8 & 63, (v >> 27) as u8 & 31]
            });
        }
        for _ in 0..count(s) {
            let v = s.bits(32) as u32;
            p.csel.push(core::array::from_fn(|i| (v >> (2 * i)) as u8 & 3));
        }
    }
    if has_alpha(f) {
        for _ in 0..count(s) {
            p.alpha.push([s.edgy(8) as u8, s.edgy(8) as u8]);
        }
        for _ in 0..count(s) {
            let v = s.bits(48);
            p.asel.push(core::array::from_fn(|i| (v >> (3 * i)) as u8 & 7));
        }
    }
    p
}

fn pal_color(s: &mut Src, sh: &Shape, p: &Palettes, spoil: &mut Option<Target>) -> Vec<u8> {
    let mut syms: Syms = vec![];
    let mut cur = [0u8; 6];
    for e in &p.color {
        if is_etc(sh.format) {
            for c in 0..4 {
                let d = e[c].wrapping_sub(cur[c]) & 31;
                syms.push((0, d as u32));
            }
        } else {
            for c in 0..6 {
                let (k, m) = if c % 3 == 1 { (1, 63) } else { (0, 31) };
                syms.push((k, (e[c].wrapping_sub(cur[c]) & m) as u32));
            }
        }
        cur = *e;
    }
    let alph: &[u32] = if is_etc(sh.format) { &[32] } else { &[32, 64] };
    section(s, alph, &syms, spoil, 0)
}
fn pal_selectors(s: &mut Src, sh: &Shape, sel: &[[u8; 16]], max: i32, spoil: &mut Option<Target>) -> Vec<u8> {
    let mut syms: Syms = vec![];
    let mut cur = [0u8; 16];
    let bits = if max == 3 { 2 } else { 3 };
    for e in sel {
        for j in 0..8 {
            let v = if sh.unity {
                let x = |k: usize| (e[k] ^ cur[k]) as u32;
                x(2 * j) | x(2 * j + 1) << bits
            } else {
                let mut d = |k: usize| {
                    let mut d = e[k] as i32 - cur[k] as i32;
                    // deltas wrap around
                    if s.chance(1, 4) && d != 0 {
                        d += if d > 0 { -(max + 1) } else { max + 1 };
                    }
                    d
                };
                let (a, b) = (d(2 * j), d(2 * j + 1));
                ((a + max) + (b + max) * (2 * max + 1)) as u32
            };
            syms.push((0, v));
        }
        cur = *e;
    }
    let alphabet = if sh.unity { 1 << (2 * bits) } else { ((2 * max + 1) * (2 * max + 1)) as u32 };
    section(s, &[alphabet], &syms, spoil, if max == 3 { 1 } else { 3 })
}
fn pal_alpha(s: &mut Src, p: &Palettes, spoil: &mut Option<Target>) -> Vec<u8> {
    let mut syms: Syms = vec![];
    let mut cur = [0u8; 2];
    for e in &p.alpha {
        for c in 0..2 {
            syms.push((0, e[c].wrapping_sub(cur[c]) as u32));
        }
        cur = *e;
    }
    section(s, &[256], &syms, spoil, 2)
}

pub fn crc16(d: &[u8]) -> u16 {
    let mut crc = !0u16;
    for &x in d {
        let q = x as u16 ^ (crc >> 8);
        crc <<= 8;
        let mut r = (q >> 4) ^ q;
        crc ^= r;
        r <<= 5;
        crc ^= r;
        r <<= 7;
        crc ^= r;
    }
    !crc
}

pub fn put_be(d: &mut [u8], at: usize, n: usize, v: u64) {
    for i in 0..n {
        d[at + i] = (v >> (8 * (n - 1 - i))) as u8;
    }
}

/// Room before the next section, up to the offset `most`.
fn leap(s: &mut Src, d: &mut Vec<u8>, most: usize) {
    if d.len() >= most {
        return;
    }
    let at = match s.below(5) {
        0 => d.len(),
        1 => d.len() + s.usize(0, 1 << 17),
        // just short of, at and past a boundary
        2 => s.pick(&[1usize << 15, 1 << 16, 1 << 20, 1 << 23, 1 << 24]) + s.usize(0, 4) - 2,
        3 => most,
        _ => s.usize(d.len(), most),
    };
    if at > d.len() {
        d.resize(at.min(most), 0);
    }
}

/// Draw a whole file of this shape.
pub fn build(s: &mut Src, sh: &Shape) -> File {
    let f = sh.format;
    let p = gen_palettes(s, sh);
    let mut refs_used = 0;
    let mut levels: Vec<Syms> = vec![];
    let mut blocks = vec![];
    for l in 0..sh.levels {
        let (w, h) = ((sh.w >> l).max(1), (sh.h >> l).max(1));
        let (bx, by) = (w.div_ceil(4), h.div_ceil(4));
        let (syms, faces) = if sh.unity {
            unity_level(s, f, &p, bx, by, sh.faces, &mut refs_used)
        } else {
            crunch_level(s, f, &p, bx, by, sh.faces)
        };
        if l == 0 {
            for b in &faces[0] {
                blocks.extend(block_data(f, &p, b));
            }
        }
        levels.push(syms);
    }
    let mut spoil = sh.spoil;
    let whole = [p.color.len(), p.csel.len(), p.alpha.len(), p.asel.len()];
    if let Some(t) = spoil.as_mut().filter(|t| t.place == 5 && t.kind == Spoil::OutOfPalette) {
        let at = s.usize(0, levels[0].len() - 1);
        let k = levels[0][at].0;
        // Steps of twice the palette or more lead past it from anywhere. All
        // of them, since an index may be of a block outside the image.
        if k > 0 && 2 * whole[k - 1] < 8100 {
            for x in levels[0].iter_mut().filter(|x| x.0 == k) {
                x.1 = 2 * whole[k - 1] as u32 + s.below(40) as u32;
            }
            t.done = true;
        }
    }
    // tables: only the codes the palettes call for
    let sizes = [
        if sh.unity { 256 } else { 512 },
        p.color.len() as u32,
        p.csel.len() as u32,
        p.alpha.len() as u32,
        p.asel.len() as u32,
    ];
    let mut tb = Bits::default();
    let mut codes: Vec<Code> = vec![];
    for (k, &alphabet) in sizes.iter().enumerate() {
        let h = histogram(levels.iter().flatten().filter(|x| x.0 == k).map(|x| x.1));
        codes.push(if alphabet == 0 { Code::default() } else { make_code(s, &h, alphabet, 16) });
    }
    let mut bad = None;
    let mut table = None;
    match spoil.as_mut() {
        Some(t) if t.place == 5 && t.kind == Spoil::Unassigned => {
            let at = s.usize(0, levels[0].len() - 1);
            bad = open_end(&mut codes[levels[0][at].0]).map(|x| (at, x));
            t.done = bad.is_some();
        }
        Some(t) if t.place == 4 && t.kind.of_table() => {
            let some: Vec<usize> = (0..5).filter(|&k| sizes[k] != 0).collect();
            table = Some((s.pick(&some), t.kind));
            t.done = true;
        }
        _ => (),
    }
    for (k, c) in codes.iter().enumerate() {
        if sizes[k] != 0 {
            transmit_as(s, &mut tb, c, table.filter(|x| x.0 == k).map(|x| x.1));
        }
    }
    let mut secs: Vec<(usize, Vec<u8>)> = vec![(4, tb.out)];
    if has_color(f) {
        secs.push((0, pal_color(s, sh, &p, &mut spoil)));
        secs.push((1, pal_selectors(s, sh, &p.csel, 3, &mut spoil)));
    }
    if has_alpha(f) {
        secs.push((2, pal_alpha(s, &p, &mut spoil)));
        secs.push((3, pal_selectors(s, sh, &p.asel, 7, &mut spoil)));
    }
    let r = s.below(secs.len() as u64) as usize;
    secs.rotate_left(r);
    // sections after the levels
    let tail = if s.chance(1, 4) { s.usize(1, secs.len()) } else { 0 };
    let gaps = s.chance(1, 4);
    let head = 70 + 4 * sh.levels.max(1);
    let mut d = vec![0u8; head];
    let mut place = [(0usize, 0usize); 5];
    let n = secs.len();
    let room = secs.iter().map(|q| q.1.len() + 3).sum::<usize>();
    let put = |s: &mut Src, d: &mut Vec<u8>, place: &mut [(usize, usize); 5], q: &(usize, Vec<u8>), most: usize| {
        if sh.far {
            leap(s, d, most);
        }
        if gaps {
            let k = s.usize(0, 3);
            d.extend(s.bytes(k));
        }
        place[q.0] = (d.len(), q.1.len());
        d.extend_from_slice(&q.1);
    };
    // a section's offset has three bytes, a level's four
    let most = (1 << 24) - 1 - room;
    let early = if tail > 0 { 1 << 23 } else { most };
    for q in &secs[..n - tail] {
        put(s, &mut d, &mut place, q, early);
    }
    let mut level_ofs = vec![];
    for (nth, l) in levels.iter().enumerate() {
        if sh.far {
            leap(s, &mut d, if tail > 0 { early } else { 1 << 25 });
        }
        level_ofs.push(d.len());
        let mut b = Bits::default();
        for (i, &(k, v)) in l.iter().enumerate() {
            if let Some((_, (v, n))) = bad.filter(|x| nth == 0 && x.0 == i) {
                b.put(v, n);
            }
            codes[k].put(&mut b, v);
        }
        d.extend(b.out);
        if gaps {
            let k = s.usize(0, 3);
            d.extend(s.bytes(k));
        }
    }
    for q in &secs[n - tail..] {
        put(s, &mut d, &mut place, q, most);
    }
    let userdata = [s.bits(32) as u32, s.bits(32) as u32];
    let counts = [p.color.len(), p.csel.len(), p.alpha.len(), p.asel.len()];
    let total = d.len();
    put_be(&mut d, 0, 2, 0x4878);
    put_be(&mut d, 2, 2, head as u64);
    put_be(&mut d, 6, 4, total as u64);
    put_be(&mut d, 12, 2, sh.w as u64);
    put_be(&mut d, 14, 2, sh.h as u64);
    d[16] = sh.levels as u8;
    d[17] = sh.faces as u8;
    d[18] = f;
    put_be(&mut d, 25, 4, userdata[0] as u64);
    put_be(&mut d, 29, 4, userdata[1] as u64);
    for k in 0..4 {
        let at = 33 + 8 * k;
        put_be(&mut d, at, 3, place[k].0 as u64);
        put_be(&mut d, at + 3, 3, place[k].1 as u64);
        put_be(&mut d, at + 6, 2, counts[k] as u64);
    }
    put_be(&mut d, 65, 2, place[4].1 as u64);
    put_be(&mut d, 67, 3, place[4].0 as u64);
    for (l, &o) in level_ofs.iter().enumerate() {
        put_be(&mut d, 70 + 4 * l, 4, o as u64);
    }
    let dc = crc16(&d[head..]);
    put_be(&mut d, 10, 2, dc as u64);
    let hc = crc16(&d[6..head]);
    put_be(&mut d, 4, 2, hc as u64);
    File {
        shape: sh.clone(),
        data: d,
        blocks,
        userdata,
        sections: place.iter().copied().filter(|x| x.1 > 0).collect(),
        level_ofs,
        counts,
        refs_used,
        spoiled: spoil.is_some_and(|t| t.done),
    }
}
