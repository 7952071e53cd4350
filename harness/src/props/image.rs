//! C12, C13, C14: whole images, their buffers, and arbitrary bytes.
use super::formats::*;
use super::{crunch, pvrtc};
use crate::engine::*;
use crate::refs::crn;
use serde_json::{json, Value};
use texture2ddecoder as t2d;

pub const OPAQUE_BLACK: u32 = 0xff00_0000;

/// An image decoder of the public API with fixed-size blocks.
#[derive(Clone, Copy)]
pub enum Dec {
    F(&'static Fmt),
    Astc(usize, usize),
    Pvrtc { two: bool, by_param: bool },
}
impl Dec {
    pub fn name(&self) -> String {
        match self {
            Dec::F(f) => f.name.to_string(),
            Dec::Astc(a, b) => format!("decode_astc({a}x{b})"),
            Dec::Pvrtc { two, by_param: true } => format!("decode_pvrtc({two})"),
            Dec::Pvrtc { two: true, .. } => "decode_pvrtc_2bpp".into(),
            Dec::Pvrtc { .. } => "decode_pvrtc_4bpp".into(),
        }
    }
    pub fn dims(&self) -> (usize, usize, usize) {
        match *self {
            Dec::F(f) => (f.bw, f.bh, f.bytes),
            Dec::Astc(a, b) => (a, b, 16),
            Dec::Pvrtc { two, .. } => (if two { 8 } else { 4 }, 4, 8),
        }
    }
    pub fn is_pvrtc(&self) -> bool {
        matches!(self, Dec::Pvrtc { .. })
    }
    /// Bytes of a w x h image.
    pub fn need(&self, w: usize, h: usize) -> u128 {
        let (bw, bh, n) = self.dims();
        let blocks = (w as u128).div_ceil(bw as u128) * (h as u128).div_ceil(bh as u128);
        blocks.saturating_mul(n as u128)
    }
    /// Is the block grid one the format allows?
    pub fn grid_ok(&self, w: usize, h: usize) -> bool {
        let (bw, bh, _) = self.dims();
        let (x, y) = (w.div_ceil(bw), h.div_ceil(bh));
        !self.is_pvrtc() || x == 0 || y == 0 || (x.is_power_of_two() && y.is_power_of_two())
    }
    pub fn run(&self, d: &[u8], w: usize, h: usize, img: &mut [u32]) -> Result<(), &'static str> {
        match *self {
            Dec::F(f) => (f.image)(d, w, h, img),
            Dec::Astc(a, b) => t2d::decode_astc(d, w, h, a, b, img),
            Dec::Pvrtc { two, by_param: true } => t2d::decode_pvrtc(d, w, h, img, two),
            Dec::Pvrtc { two: true, .. } => t2d::decode_pvrtc_2bpp(d, w, h, img),
            Dec::Pvrtc { .. } => t2d::decode_pvrtc_4bpp(d, w, h, img),
        }
    }
    pub fn block(&self, d: &[u8], out: &mut [u32]) {
        match *self {
            Dec::F(f) => (f.block)(d, out),
            Dec::Astc(a, b) => t2d::decode_astc_block(d, a, b, out),
            Dec::Pvrtc { .. } => unreachable!(),
        }
    }
}

/// The block sizes of the ASTC specification.
pub static FOOTPRINTS: [(usize, usize); 14] = [
    (4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8),
    (10, 10), (12, 10), (12, 12),
];
/// Any block size `decode_astc` takes.
pub fn any_footprint(s: &mut Src) -> (usize, usize) {
    if s.bool() {
        return s.pick(&FOOTPRINTS);
    }
    let a = s.usize(2, 16);
    let b = s.usize(2, (144 / a).min(16));
    if s.chance(1, 6) {
        // any other the decoder takes, up to 72 by 2
        let a = s.usize(2, 72);
        let b = s.usize(2, 144 / a);
        return if s.bool() { (a, b) } else { (b, a) };
    }
    (a, b)
}

pub fn any_dec(s: &mut Src, pvr: bool) -> Dec {
    // 35 table entries, decode_astc, and PVRTC
    let n = if pvr { 44 } else { 39 };
    match s.below(n) {
        k if k < 35 => Dec::F(&FORMATS[k as usize]),
        k if k < 39 => {
            let (a, b) = any_footprint(s);
            Dec::Astc(a, b)
        }
        _ => Dec::Pvrtc { two: s.bool(), by_param: s.bool() },
    }
}
pub fn dec_label(d: &Dec) -> &'static str {
    match d {
        Dec::F(f) => f.name,
        Dec::Astc(..) => "decode_astc",
        Dec::Pvrtc { two: true, .. } => "pvrtc 2bpp",
        Dec::Pvrtc { .. } => "pvrtc 4bpp",
    }
}

/// A size, mostly small; for PVRTC usually one with a power-of-two grid.
pub fn any_size(s: &mut Src, d: &Dec) -> (usize, usize) {
    let (bw, bh, _) = d.dims();
    if d.is_pvrtc() && s.chance(3, 4) {
        let (x, y) = (bw << s.below(4), bh << s.below(4));
        return (x - s.usize(0, bw - 1), y - s.usize(0, bh - 1));
    }
    let one = |s: &mut Src, b: usize| match s.below(8) {
        0 => s.usize(0, 2),
        1 => b * s.usize(1, 4),
        2 => b * s.usize(1, 4) + 1,
        3 => (b * s.usize(1, 4)).saturating_sub(1),
        4 => s.usize(20, 70),
        _ => s.usize(1, 3 * b + 2),
    };
    (one(s, bw), one(s, bh))
}

/// Data of `n` blocks: generated blocks, repeated and mixed, or random bytes.
pub fn image_data(s: &mut Src, d: &Dec, n: usize) -> Vec<u8> {
    let (_, _, bytes) = d.dims();
    let kind = s.below(4);
    if kind == 0 {
        return s.bytes(n * bytes);
    }
    let mut o = Obs::default();
    let fresh = n.min(s.usize(1, 6));
    let mut pool: Vec<Vec<u8>> = (0..fresh)
        .map(|_| match d {
            Dec::F(f) => (f.gen)(s, &mut o),
            Dec::Astc(a, b) if FOOTPRINTS.contains(&(*a, *b)) => super::astc::gen_block(s, &mut o, *a, *b),
            Dec::Astc(..) => s.bytes(16),
            Dec::Pvrtc { two, .. } => pvrtc::gen_block(s, &mut o, *two).to_vec(),
        })
        .collect();
    // relatives: blocks that share most of their bytes with another one
    if kind >= 2 {
        for _ in 0..s.usize(1, 6).min(n.saturating_sub(fresh)) {
            let mut b = pool[s.below(pool.len() as u64) as usize].clone();
            match s.below(4) {
                0 => {
                    let i = s.below(8 * bytes as u64) as usize;
                    b[i / 8] ^= 1 << (i % 8);
                }
                1 => {
                    let i = s.below(bytes as u64) as usize;
                    b[i] = s.bits(8) as u8;
                }
                2 => {
                    let other = &pool[s.below(pool.len() as u64) as usize];
                    let cut = s.usize(1, bytes - 1);
                    b[cut..].copy_from_slice(&other[cut..]);
                }
                _ => {
                    let fill = s.bytes(bytes / 2);
                    if s.bool() {
                        b[..bytes / 2].copy_from_slice(&fill);
                    } else {
                        b[bytes - bytes / 2..].copy_from_slice(&fill);
                    }
                }
            }
            pool.push(b);
        }
    }
    let mut v = Vec::with_capacity(n * bytes);
    if n > 4000 {
        // a large image: runs of blocks of the pool, by one draw each 64 blocks
        v.extend(pool.iter().flatten());
        let mut order = Rng::new(0);
        for i in pool.len()..n {
            if i % 64 == 0 {
                order = Rng::new(s.bits(32));
            }
            let r = order.next() >> 20;
            let k = r as usize % pool.len();
            v.extend_from_slice(&pool[k]);
            if r >> 32 & 3 == 0 {
                // one bit changed: more blocks than the pool holds
                let bit = (r >> 34) as usize % (bytes * 8);
                let at = v.len() - bytes + bit / 8;
                v[at] ^= 1 << (bit % 8);
            }
        }
        return v;
    }
    for i in 0..n {
        if i < pool.len() {
            v.extend_from_slice(&pool[i]);
        } else {
            let k = s.below(pool.len() as u64) as usize;
            v.extend_from_slice(&pool[k]);
        }
    }
    v
}

fn detail(d: &Dec, w: usize, h: usize, data: &[u8], img_len: usize) -> Value {
    json!({"function": d.name(), "width": w, "height": h, "data_bytes": data.len(),
           "image_len": img_len, "data": hex(&data[..data.len().min(2048)])})
}

// ---------------------------------------------------------------- C13

fn tiling(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let (w, h) = any_size(s, &d);
    check_tiling(s, o, &d, w, h)
}
/// Every size around a block boundary, for every decoder.
fn tiling_sizes(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(33 * 9 * 9) as usize;
    let d = Dec::F(&FORMATS[k % 33]);
    let (bw, bh, _) = d.dims();
    // 1, b-1, b, b+1, 2b-1, 2b, 2b+1, 3b, 3b+2
    let side = |b: usize, i: usize| [1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 3 * b + 2][i];
    check_tiling(s, o, &d, side(bw, k / 33 % 9), side(bh, k / 297))
}
fn strips(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let long = s.usize(200, 2600);
    let short = s.usize(1, 14);
    if s.bool() {
        check_tiling(s, o, &d, long, short)
    } else {
        check_tiling(s, o, &d, short, long)
    }
}
/// A long side past every 16-bit bound, the other short.
fn long_side(s: &mut Src) -> usize {
    match s.below(6) {
        0 => 65536 + s.usize(1, 40),
        1 => 65536 - s.usize(0, 20),
        2 => 32768 + s.usize(0, 24) - 12,
        3 => 131072 + s.usize(0, 30) - 15,
        4 => s.usize(2600, 33000),
        _ => s.usize(33000, 270_000),
    }
}
fn very_long_strips(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let long = long_side(s);
    let short = s.usize(1, 9);
    if s.bool() {
        check_tiling(s, o, &d, long, short)
    } else {
        check_tiling(s, o, &d, short, long)
    }
}
fn large_images(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let (w, h) = (s.usize(70, 1400), s.usize(70, 1400));
    check_tiling(s, o, &d, w, h)
}
/// More than 2^24 pixels.
fn vast_size(s: &mut Src) -> (usize, usize) {
    let area = s.usize(1 << 24, 3 << 24);
    match s.below(6) {
        // one side alone past what a float can count
        4 => ((1 << 24) + s.usize(1, 60), 1),
        5 => (1, (1 << 24) + s.usize(1, 60)),
        0 => {
            let w = s.usize(9000, 70_000);
            (w, area / w + 1)
        }
        1 => {
            let h = s.usize(9000, 70_000);
            (area / h + 1, h)
        }
        _ => {
            let w = s.usize(3000, 6000);
            (w, area / w + 1)
        }
    }
}
fn vast_images(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let (w, h) = vast_size(s);
    check_tiling(s, o, &d, w, h)
}
fn check_tiling(s: &mut Src, o: &mut Obs, d: &Dec, w: usize, h: usize) -> Check {
    let (bw, bh, bytes) = d.dims();
    let (nx, ny) = (w.div_ceil(bw), h.div_ceil(bh));
    let data = image_data(s, d, nx * ny);
    o.label(dec_label(d));
    if w % bw != 0 || h % bh != 0 {
        o.label("cropped");
    }
    if w > 0 && h > 0 {
        o.nontrivial(hash_bytes(hash64(&[hash_str(&d.name()), w as u64, h as u64]), &data));
    }
    let mut img = vec![s.bits(32) as u32; w * h];
    let r = guarded(|| d.run(&data, w, h, &mut img));
    o.calls += 1 + (nx * ny) as u64;
    match r {
        Err(p) => return fail(format!("{} {w}x{h} panics: {p}", d.name()), detail(d, w, h, &data, w * h)),
        Ok(Err(e)) => return fail(format!("{} {w}x{h} with exact buffers is rejected: {e}", d.name()), detail(d, w, h, &data, w * h)),
        Ok(Ok(())) => {}
    }
    let mut tile = vec![0u32; bw * bh];
    for by in 0..ny {
        for bx in 0..nx {
            tile.fill(OPAQUE_BLACK);
            let at = (by * nx + bx) * bytes;
            if let Err(p) = guarded(|| d.block(&data[at..at + bytes], &mut tile)) {
                return fail(format!("block decoder of {} panics: {p}", d.name()), json!({"block": hex(&data[at..at + bytes])}));
            }
            for y in 0..bh.min(h - by * bh) {
                for x in 0..bw.min(w - bx * bw) {
                    let (px, py) = (bx * bw + x, by * bh + y);
                    if img[py * w + px] != tile[y * bw + x] {
                        return fail(
                            format!(
                                "{} {w}x{h}: pixel ({px}, {py}) is {:08x}, texel ({x}, {y}) of block ({bx}, {by}) decodes to {:08x}",
                                d.name(),
                                img[py * w + px],
                                tile[y * bw + x]
                            ),
                            detail(d, w, h, &data, w * h),
                        );
                    }
                }
            }
        }
    }
    o.sample(|| json!({"function": d.name(), "width": w, "height": h, "blocks": nx * ny}));
    Ok(())
}

// ---------------------------------------------------------------- C12

fn buffers(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, true);
    let (w, h) = any_size(s, &d);
    sized(s, o, &d, w, h)
}
/// The same with sides past 16 bits, and with large areas.
fn large_buffers(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, true);
    let (bw, bh, _) = d.dims();
    let (mut w, mut h) = match s.below(3) {
        0 => (s.usize(70, 900), s.usize(70, 900)),
        1 => (long_side(s), s.usize(1, 9)),
        _ => (s.usize(1, 9), long_side(s)),
    };
    if d.is_pvrtc() {
        let up = |s: &mut Src, x: usize, b: usize| {
            let n = x.div_ceil(b).next_power_of_two();
            let n = if n * b > 140_000 { n / 2 } else { n };
            // mostly a power of two, cropped or not; sometimes one off
            match s.below(6) {
                0 => n * b - s.usize(0, b - 1),
                1 => n * b + 1,
                _ => n * b,
            }
        };
        w = up(s, w, bw);
        h = up(s, h, bh);
        if w.max(h) > 60_000 {
            (w, h) = if w > h { (w, h.min(2 * bh)) } else { (w.min(2 * bw), h) };
        }
    }
    sized(s, o, &d, w, h)
}
fn vast_buffers(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, true);
    let (w, h) = if d.is_pvrtc() {
        let (bw, bh, _) = d.dims();
        let lx = s.usize(9, 12);
        (bw << lx, bh << (21 - lx))
    } else {
        vast_size(s)
    };
    sized(s, o, &d, w, h)
}
fn sized(s: &mut Src, o: &mut Obs, d: &Dec, w: usize, h: usize) -> Check {
    let need = d.need(w, h) as usize;
    let (_, _, bytes) = d.dims();
    let full = image_data(s, d, need / bytes);
    let data = match s.below(8) {
        0 if need > 0 => full[..need - 1].to_vec(),
        1 if need > 0 => full[..need - s.usize(1, need.min(2 * bytes))].to_vec(),
        2 if need > 0 => full[..s.usize(0, need - 1)].to_vec(),
        3 | 4 => {
            let mut v = full.clone();
            let n = s.usize(1, 40);
            v.extend(s.bytes(n));
            v
        }
        _ => full.clone(),
    };
    let px = w * h;
    let len = match s.below(8) {
        0 if px > 0 => px - 1,
        1 if px > 0 => s.usize(0, px - 1),
        2 | 3 => px + s.usize(1, 60),
        _ => px,
    };
    check_buffers(o, d, w, h, &data, len, &full)
}
/// What must happen with these buffers; `full` is the exact data.
fn check_buffers(o: &mut Obs, d: &Dec, w: usize, h: usize, data: &[u8], len: usize, full: &[u8]) -> Check {
    let (need, px) = (d.need(w, h), w as u128 * h as u128);
    let want_ok = data.len() as u128 >= need && len as u128 >= px && d.grid_ok(w, h);
    o.label(dec_label(d));
    o.label(if !d.grid_ok(w, h) {
        "grid not a power of two"
    } else if (data.len() as u128) < need {
        "data short"
    } else if (len as u128) < px {
        "image short"
    } else if data.len() as u128 > need || len as u128 > px {
        "surplus"
    } else {
        "exact"
    });
    o.nontrivial(hash_bytes(hash64(&[hash_str(&d.name()), w as u64, h as u64, len as u64]), data));
    let sentinel = 0x0bad_f00d;
    let mut img = vec![sentinel; len];
    let r = guarded(|| d.run(data, w, h, &mut img));
    o.calls += 1;
    let det = || detail(d, w, h, data, len);
    let say = |x: &str| format!("{} {w}x{h}, {} bytes of {need}, image {len} of {px}: {x}", d.name(), data.len());
    let r = match r {
        Err(p) => return fail(say(&format!("panics: {p}")), det()),
        Ok(r) => r,
    };
    match (r, want_ok) {
        (Ok(()), false) => return fail(say("accepted"), det()),
        (Err(e), true) => return fail(say(&format!("rejected: {e}")), det()),
        (Err(_), false) => {
            if img.iter().any(|&x| x != sentinel) {
                return fail(say("rejected, but the image was written"), det());
            }
        }
        (Ok(()), true) => {
            let px = px as usize;
            if img[px..].iter().any(|&x| x != sentinel) {
                return fail(say("pixels past width*height were written"), det());
            }
            // exact buffers with other contents give the same pixels
            let mut again = vec![!sentinel; px];
            match guarded(|| d.run(full, w, h, &mut again)) {
                Ok(Ok(())) => {}
                x => return fail(say(&format!("with exact buffers: {x:?}")), det()),
            }
            o.calls += 1;
            if let Some(i) = (0..px).find(|&i| img[i] != again[i]) {
                return fail(
                    say(&format!("pixel ({}, {}) is {:08x} here and {:08x} with exact buffers that held something else", i % w, i / w, img[i], again[i])),
                    det(),
                );
            }
        }
    }
    o.sample(|| json!({"function": d.name(), "width": w, "height": h, "data_bytes": data.len(), "image_len": len, "accepted": want_ok}));
    Ok(())
}
/// ASTC block sizes, mostly ones the decoder cannot take.
pub fn odd_footprint(s: &mut Src) -> (usize, usize) {
    let big = |s: &mut Src| match s.below(6) {
        0 => usize::MAX - s.usize(0, 3),
        1 => 1usize << s.usize(31, 63),
        2 => s.usize(0, 1),
        3 => s.usize(73, 300),
        _ => s.usize(0, 40),
    };
    match s.below(8) {
        0 | 1 => any_footprint(s),
        2 | 3 => {
            // usable, were its high bits dropped
            let (mut a, mut b) = any_footprint(s);
            let high = |s: &mut Src| s.usize(1, 3) << s.pick(&[8usize, 12, 16, 24, 31, 32, 48, 62]);
            match s.below(3) {
                0 => a += high(s),
                1 => b += high(s),
                _ => {
                    a += high(s);
                    b += high(s);
                }
            }
            (a, b)
        }
        _ => (big(s), big(s)),
    }
}
fn footprints(s: &mut Src, o: &mut Obs) -> Check {
    let (a, b) = odd_footprint(s);
    let ok = a >= 2 && b >= 2 && (a as u128 * b as u128) <= 144;
    let (w, h) = (s.usize(1, 30), s.usize(1, 30));
    o.nontrivial(hash64(&[a as u64, b as u64, w as u64, h as u64]));
    if ok {
        o.label("usable block size");
        let d = Dec::Astc(a, b);
        let full = image_data(s, &d, d.need(w, h) as usize / 16);
        return check_buffers(o, &d, w, h, &full, w * h, &full);
    }
    o.label("unusable block size");
    let data = s.bytes(16 * 900);
    let mut img = vec![7u32; w * h];
    match guarded(|| t2d::decode_astc(&data, w, h, a, b, &mut img)) {
        Err(p) => fail(format!("decode_astc with {a}x{b} blocks panics: {p}"), json!(null)),
        Ok(Ok(())) => fail(format!("decode_astc accepts {a}x{b} blocks"), json!(null)),
        Ok(Err(_)) if img.iter().any(|&x| x != 7) => fail(format!("decode_astc rejects {a}x{b} blocks, but the image was written"), json!(null)),
        Ok(Err(_)) => Ok(()),
    }
}
/// Crunch files with the caller's size and buffers off.
fn crunch_buffers(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let sh = crunch::gen_shape(s, unity, 24, 8);
    let f = crn::build(s, &sh);
    let (w, h) = (sh.w, sh.h);
    o.nontrivial(hash_bytes(31, &f.data));
    o.label(if unity { "unity crunch" } else { "crunch" });
    let all = crunch::expected(&f);
    // the same width and fewer rows: the top of the image
    let rows = if s.chance(1, 3) { s.usize(0, h) } else { h };
    let px = w * rows;
    let len = match s.below(4) {
        0 if px > 0 => s.usize(0, px - 1),
        1 => px + s.usize(1, 30),
        _ => px,
    };
    // every coded face is stored one after the other; asking for more rows
    // than one face has is only safe to call wrong with a single face
    let (h2, too_big) = if s.chance(1, 6) && sh.faces == 1 {
        (h.div_ceil(4) * 4 + s.usize(1, 9), true)
    } else {
        (rows, false)
    };
    let len = if too_big { w * h2 + 3 } else { len };
    let sentinel = 0x1357_9bdf;
    let mut img = vec![sentinel; len];
    let r = guarded(|| crunch::decode(unity, &f.data, w, h2, &mut img));
    o.calls += 1;
    let det = || json!({"unity": unity, "format": sh.format, "width": w, "height": h, "asked_height": h2, "image_len": len, "bytes": hex(&f.data)});
    let want_ok = !too_big && len >= px;
    o.label(if too_big { "more rows than coded" } else if len < px { "image short" } else { "fits" });
    match (r, want_ok) {
        (Err(p), _) => fail(format!("crunch {w}x{h2}, image {len}: panics: {p}"), det()),
        (Ok(Ok(())), false) => fail(format!("crunch file of {w}x{h} decoded as {w}x{h2} into {len} pixels is accepted"), det()),
        (Ok(Err(e)), true) => fail(format!("crunch file of {w}x{h} decoded as {w}x{h2} into {len} pixels is rejected: {e}"), det()),
        (Ok(Err(_)), false) if img.iter().any(|&x| x != sentinel) => {
            fail("rejected, but the image was written", det())
        }
        (Ok(Err(_)), false) => Ok(()),
        (Ok(Ok(())), true) => {
            if img[px..].iter().any(|&x| x != sentinel) {
                return fail("pixels past width*height were written", det());
            }
            if img[..px] != all[..px] {
                return fail(format!("{rows} rows of a {w}x{h} file differ from the top of the image"), det());
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C14

fn raw_blocks(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, false);
    let (bw, bh, n) = d.dims();
    let mut data = match s.below(4) {
        0 => {
            // saturated and repeated bytes
            let x = s.edgy(8) as u8;
            let mut v = vec![x; n];
            for _ in 0..s.usize(0, 4) {
                let i = s.usize(0, n - 1);
                v[i] = s.edgy(8) as u8;
            }
            v
        }
        _ => s.bytes(n),
    };
    if s.chance(1, 4) {
        let k = s.usize(1, 9);
        data.extend(s.bytes(k));
    }
    o.label(dec_label(&d));
    o.nontrivial(hash_bytes(hash_str(&d.name()), &data));
    let mut out = vec![s.bits(32) as u32; bw * bh];
    o.calls += 1;
    match guarded(|| d.block(&data, &mut out)) {
        Ok(()) => {
            o.sample(|| json!({"function": d.name(), "block": hex(&data)}));
            Ok(())
        }
        Err(p) => fail(format!("block decoder of {} panics: {p}", d.name()), json!({"block": hex(&data)})),
    }
}
fn raw_images(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, true);
    let n = if s.bool() { s.usize(0, 64) } else { s.usize(0, 1500) };
    let data = s.bytes(n);
    let (w, h) = any_size(s, &d);
    let len = if s.chance(1, 4) { s.usize(0, w * h) } else { w * h };
    // the outcome must follow from the sizes; the pixels are free
    let need = d.need(w, h) as usize;
    let full = if data.len() >= need { data[..need].to_vec() } else { vec![] };
    check_buffers(o, &d, w, h, &data, len, &full)
}
// ---------------------------------------------------------------- C21

/// A block decoder, one of those with a format or one of those for a channel.
enum One {
    Whole(Dec),
    Eac { signed: bool, channel: usize },
    EtcAlpha,
}
impl One {
    fn name(&self) -> String {
        match self {
            One::Whole(d) => format!("block decoder of {}", d.name()),
            One::Eac { signed: false, channel } => format!("decode_eac_block, channel {channel}"),
            One::Eac { channel, .. } => format!("decode_eac_signed_block, channel {channel}"),
            One::EtcAlpha => "decode_etc2_a8_block".into(),
        }
    }
    fn run(&self, d: &[u8], out: &mut [u32]) {
        match self {
            One::Whole(x) => x.block(d, out),
            One::Eac { signed: false, channel } => t2d::decode_eac_block(d, *channel, out),
            One::Eac { channel, .. } => t2d::decode_eac_signed_block(d, *channel, out),
            One::EtcAlpha => t2d::decode_etc2_a8_block(d, out),
        }
    }
}
fn room(s: &mut Src, o: &mut Obs) -> Check {
    let one = match s.below(12) {
        0 => One::Eac { signed: s.bool(), channel: s.usize(0, 3) },
        1 => One::EtcAlpha,
        _ => One::Whole(any_dec(s, false)),
    };
    let (bw, bh, n) = match &one {
        One::Whole(d) => d.dims(),
        _ => (4, 4, 8),
    };
    let block = match &one {
        One::Whole(Dec::F(f)) if s.chance(3, 4) => (f.gen)(s, o),
        One::Whole(Dec::Astc(a, b)) if FOOTPRINTS.contains(&(*a, *b)) && s.chance(1, 2) => super::astc::gen_block(s, o, *a, *b),
        _ => s.bytes(n),
    };
    let texels = bw * bh;
    // past the block: nothing, a few pixels, or the rest of a row of blocks
    let more = match s.below(4) {
        0 => 0,
        1 => s.usize(1, 4),
        2 => texels * s.usize(1, 3),
        _ => s.usize(1, 300),
    };
    let mut init = vec![s.bits(32) as u32; texels + more];
    if s.bool() {
        // former contents that differ from pixel to pixel
        let mut x = s.bits(63) | 1;
        init.iter_mut().for_each(|p| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *p = (x >> 32) as u32;
        });
    }
    let mut data = block.clone();
    if s.bool() {
        let k = s.usize(1, 40);
        data.extend(s.bytes(k));
    }
    if more > 0 || data.len() > n {
        o.nontrivial(hash_bytes(hash_str(&one.name()) ^ more as u64, &data));
    }
    o.label(match &one {
        One::Whole(d) => dec_label(d),
        One::Eac { .. } => "one channel",
        One::EtcAlpha => "alpha alone",
    });
    let det = || json!({"function": one.name(), "block": hex(&block), "bytes_after_block": data.len() - n, "pixels_after_block": more});
    let mut exact = init[..texels].to_vec();
    let mut out = init.clone();
    o.calls += 2;
    if let Err(p) = guarded(|| one.run(&block, &mut exact)) {
        return fail(format!("{} panics on exactly one block: {p}", one.name()), det());
    }
    if let Err(p) = guarded(|| one.run(&data, &mut out)) {
        return fail(format!("{} panics with room past the block: {p}", one.name()), det());
    }
    if let Some(i) = (texels..out.len()).find(|&i| out[i] != init[i]) {
        return fail(format!("{} writes pixel {} past its block: {:08x} over {:08x}", one.name(), i - texels, out[i], init[i]), det());
    }
    if let Some(i) = (0..texels).find(|&i| out[i] != exact[i]) {
        return fail(format!("{}: texel {i} is {:08x}, but {:08x} from exactly one block into exactly its room", one.name(), out[i], exact[i]), det());
    }
    o.sample(det);
    Ok(())
}

/// A side around a power of two or around overflow, or none at all.
pub fn huge_side(s: &mut Src) -> usize {
    match s.below(8) {
        0 => usize::MAX - s.usize(0, 20),
        1 => 1usize << s.usize(16, 63),
        2 => (1usize << s.usize(16, 63)) - s.usize(1, 12),
        3 => (1usize << s.usize(16, 63)) + s.usize(1, 12),
        4 => usize::MAX / s.usize(2, 20) + s.usize(0, 4),
        5 => s.usize(0, 16),
        6 => s.usize(1 << 31, 1 << 33),
        _ => s.bits(62) as usize,
    }
}
/// Sizes whose products do not fit a machine word.
fn huge(s: &mut Src, o: &mut Obs) -> Check {
    let d = any_dec(s, true);
    let (w, h) = (huge_side(s), huge_side(s));
    let n = s.usize(0, 200);
    let data = s.bytes(n);
    let len = s.usize(0, 64);
    o.label(dec_label(&d));
    let (need, px) = (d.need(w, h), w as u128 * h as u128);
    if w == 0 || h == 0 {
        // no pixels: nothing to read or write
        let mut img = vec![5u32; len];
        return match guarded(|| d.run(&data, w, h, &mut img)) {
            Err(p) => fail(format!("{} {w}x{h} panics: {p}", d.name()), detail(&d, w, h, &data, len)),
            Ok(_) if img.iter().any(|&x| x != 5) => fail(format!("{} {w}x{h} writes pixels", d.name()), detail(&d, w, h, &data, len)),
            Ok(_) => Ok(()),
        };
    }
    if px > usize::MAX as u128 || need > usize::MAX as u128 {
        o.label("product overflows");
    }
    o.nontrivial(hash64(&[hash_str(&d.name()), w as u64, h as u64, n as u64, len as u64]));
    if data.len() as u128 >= need && len as u128 >= px {
        return Ok(());
    }
    let mut img = vec![5u32; len];
    o.calls += 1;
    match guarded(|| d.run(&data, w, h, &mut img)) {
        Err(p) => fail(format!("{} {w}x{h} with {n} bytes and {len} pixels panics: {p}", d.name()), detail(&d, w, h, &data, len)),
        Ok(Ok(())) => fail(format!("{} {w}x{h} with {n} bytes and {len} pixels is accepted", d.name()), detail(&d, w, h, &data, len)),
        Ok(Err(_)) if img.iter().any(|&x| x != 5) => fail(format!("{} {w}x{h} is rejected, but the image was written", d.name()), detail(&d, w, h, &data, len)),
        Ok(Err(_)) => {
            o.sample(|| json!({"function": d.name(), "width": w, "height": h}));
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            relations: vec![
                Relation { name: "buffer sizes", rule: "any image decoder, any small size, data and image short, exact or in surplus; accepted exactly when both suffice (and a PVRTC grid is a power of two), nothing written otherwise or past width*height, surplus ignored, former contents without effect", quick: 3_000_000, thorough: 50_000_000, exhaustive: None, f: buffers },
                Relation { name: "large buffers", rule: "the same with areas of up to 900x900 pixels and with strips of up to 270000 pixels", quick: 1_200, thorough: 40_000, exhaustive: None, f: large_buffers },
                Relation { name: "vast buffers", rule: "the same with images of more than 2^24 pixels, some in one row or column", quick: 24, thorough: 400, exhaustive: None, f: vast_buffers },
                Relation { name: "astc block sizes", rule: "decode_astc with block sizes zero, one, large, huge or usable", quick: 300_000, thorough: 4_000_000, exhaustive: None, f: footprints },
                Relation { name: "crunch buffers", rule: "a crunch file decoded with fewer or more rows than it has, into a short, exact or longer image", quick: 150_000, thorough: 2_000_000, exhaustive: None, f: crunch_buffers },
            ],
            assumptions: vec!["images without pixels need no data and decode without an error"],
        },
        Prop {
            id: "C13",
            relations: vec![
                Relation { name: "tilings", rule: "any decoder with blocks, any small size, data of generated and random blocks; every pixel against the block decoder's texel; non-trivial: at least one pixel", quick: 1_200_000, thorough: 20_000_000, exhaustive: None, f: tiling },
                Relation { name: "sizes around block boundaries", rule: "every decoder with every pair of sides among 1, b-1, b, b+1, 2b-1, 2b, 2b+1, 3b, 3b+2", quick: 2673 * 40, thorough: 2673 * 1500, exhaustive: Some(2673), f: tiling_sizes },
                Relation { name: "long strips", rule: "images of 200..2600 by 1..14 pixels, lying and standing", quick: 15_000, thorough: 400_000, exhaustive: None, f: strips },
                Relation { name: "very long strips", rule: "images of 2600..270000 by 1..9 pixels, most around 32768, 65536 and 131072, lying and standing", quick: 900, thorough: 20_000, exhaustive: None, f: very_long_strips },
                Relation { name: "vast images", rule: "images of more than 2^24 pixels, up to 70000 a side, or in a strip with one side of more than 2^24", quick: 24, thorough: 400, exhaustive: None, f: vast_images },
                Relation { name: "large images", rule: "images of 70..1400 pixels a side, past 65536 blocks", quick: 250, thorough: 8_000, exhaustive: None, f: large_images },
            ],
            assumptions: vec![],
        },
        Prop {
            id: "C14",
            relations: vec![
                Relation { name: "arbitrary blocks", rule: "any block decoder on arbitrary bytes (every ASTC block size of at most 144 texels)", quick: 24_000_000, thorough: 800_000_000, exhaustive: None, f: raw_blocks },
                Relation { name: "arbitrary images", rule: "any image decoder on arbitrary bytes of any length; accepted exactly when the sizes fit", quick: 1_200_000, thorough: 30_000_000, exhaustive: None, f: raw_images },
                Relation { name: "huge sizes", rule: "any image decoder with sides up to the largest integer, around powers of two and around overflow, and small buffers; must be an error; non-trivial: both sides positive", quick: 8_000_000, thorough: 100_000_000, exhaustive: None, f: huge },
                Relation { name: "unoptimised build", rule: "a build without optimisation, which removes no loop or recursion: any block decoder on arbitrary bytes, any image decoder with any small size and buffers, and with sides up to the largest integer or zero; it decodes or is rejected; non-trivial: every call", quick: 300_000, thorough: 10_000_000, exhaustive: None, f: super::builds::total_unoptimised },
            ],
            assumptions: vec!["built with overflow checks and debug assertions, so that a silent wrap-around is a panic here"],
        },
        Prop {
            id: "C21",
            relations: vec![
                Relation { name: "room past the block", rule: "any block decoder on a drawn or arbitrary block, with and without bytes after the block and pixels after its room; the pixels after it keep their value, its texels are those of a decode from exactly one block into exactly its room; non-trivial: something after the block or its room", quick: 6_000_000, thorough: 300_000_000, exhaustive: None, f: room },
            ],
            assumptions: vec!["outputs hold at least the block's texels"],
        },
    ]
}
