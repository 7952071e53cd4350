//! C07: PVRTC images against the texel-by-texel reference.
use crate::engine::*;
use crate::refs;
use serde_json::json;
use texture2ddecoder as t2d;

pub struct Img {
    pub two: bool,
    pub w: usize,
    pub h: usize,
    pub data: Vec<u8>,
}

pub fn gen_block(s: &mut Src, o: &mut Obs, two: bool) -> [u8; 8] {
    let m: u32 = match s.below(6) {
        0 => s.pick(&[0, u32::MAX, 0xaaaa_aaaa, 0x5555_5555]),
        _ => s.bits(32) as u32,
    };
    let mode = s.bool();
    let opaque_a = s.bool();
    let opaque_b = s.bool();
    let mut c = (s.edgy(14) << 1 | mode as u64) as u32 | (opaque_a as u32) << 15;
    c |= ((s.edgy(15) as u32) | (opaque_b as u32) << 15) << 16;
    o.label(match (two, mode) {
        (false, false) => "4bpp standard block",
        (false, true) => "4bpp punch-through block",
        (true, false) => "2bpp direct block",
        (true, true) => {
            if m & 1 == 0 {
                "2bpp four-way block"
            } else if m >> 20 & 1 == 1 {
                "2bpp vertical block"
            } else {
                "2bpp horizontal block"
            }
        }
    });
    let mut b = [0u8; 8];
    b[..4].copy_from_slice(&m.to_le_bytes());
    b[4..].copy_from_slice(&c.to_le_bytes());
    b
}

pub fn gen_image(s: &mut Src, o: &mut Obs, max_log: u64) -> Img {
    let two = s.bool();
    let bw = if two { 8 } else { 4 };
    let nx = 1usize << s.below(max_log + 1);
    let ny = 1usize << s.below(max_log + 1);
    // full blocks, or a width/height that ends inside the last block
    let w = if s.chance(1, 4) { nx * bw - s.usize(0, bw - 1) } else { nx * bw };
    let h = if s.chance(1, 4) { ny * 4 - s.usize(0, 3) } else { ny * 4 };
    o.label(if nx == ny {
        "square grid"
    } else if nx > ny {
        "wide grid"
    } else {
        "tall grid"
    });
    let mut data = vec![];
    let uniform = s.chance(1, 10);
    let first = gen_block(s, o, two);
    for i in 0..nx * ny {
        let b = if i == 0 || uniform { first } else { gen_block(s, o, two) };
        data.extend_from_slice(&b);
    }
    Img { two, w, h, data }
}

fn images(s: &mut Src, o: &mut Obs) -> Check {
    let im = gen_image(s, o, 3);
    check_image(&im, s, o)
}
fn big_images(s: &mut Src, o: &mut Obs) -> Check {
    let im = gen_image(s, o, 5);
    check_image(&im, s, o)
}

/// Grids of up to 2^18 blocks of any proportion, down to one block wide.
fn huge_grids(s: &mut Src, o: &mut Obs) -> Check {
    let two = s.bool();
    let bw = if two { 8 } else { 4 };
    let total = if s.chance(1, 8) { s.range(14, 18) } else { s.range(8, 14) } as u32;
    let lx = if s.bool() {
        s.below(total as u64 + 1) as u32
    } else {
        // square, or nearly
        (total - 1 + s.below(3) as u32) / 2
    };
    let (nx, ny) = (1usize << lx, 1usize << (total - lx));
    o.label(if nx == ny { "square grid" } else if nx > ny { "wide grid" } else { "tall grid" });
    let pool: Vec<[u8; 8]> = (0..16).map(|_| gen_block(s, o, two)).collect();
    let mut order = Rng::new(s.bits(40));
    let mut data = Vec::with_capacity(nx * ny * 8);
    for _ in 0..nx * ny {
        let r = order.next() >> 16;
        // a pool block with one bit changed, so that no two places agree
        let v = u64::from_le_bytes(pool[(r & 15) as usize]) ^ 1 << (r >> 4 & 63);
        data.extend_from_slice(&v.to_le_bytes());
    }
    let w = if s.chance(1, 4) { nx * bw - s.usize(0, bw - 1) } else { nx * bw };
    let h = if s.chance(1, 4) { ny * 4 - s.usize(0, 3) } else { ny * 4 };
    check_image(&Img { two, w, h, data }, s, o)
}

fn check_image(im: &Img, s: &mut Src, o: &mut Obs) -> Check {
    let want = refs::pvrtc::decode(&im.data, im.w, im.h, im.two);
    let mut data = im.data.clone();
    if s.chance(1, 4) {
        data.extend(s.bytes(9));
    }
    let fillw = s.bits(32) as u32;
    let mut out = vec![fillw; im.w * im.h];
    o.nontrivial(hash_bytes((im.w << 20 | im.h << 1) as u64 | im.two as u64, &im.data));
    let by_param = s.bool();
    let r = guarded(|| match (by_param, im.two) {
        (true, two) => t2d::decode_pvrtc(&data, im.w, im.h, &mut out, two),
        (false, true) => t2d::decode_pvrtc_2bpp(&data, im.w, im.h, &mut out),
        (false, false) => t2d::decode_pvrtc_4bpp(&data, im.w, im.h, &mut out),
    });
    let name = if im.two { "pvrtc 2bpp" } else { "pvrtc 4bpp" };
    let detail = json!({"format": name, "width": im.w, "height": im.h, "data": hex(&im.data[..im.data.len().min(2048)])});
    match r {
        Err(p) => return fail(format!("{name} {}x{} panics: {p}", im.w, im.h), detail),
        Ok(Err(e)) => {
            return fail(format!("{name} {}x{} is refused: {e}", im.w, im.h), detail)
        }
        Ok(Ok(())) => {}
    }
    for i in 0..want.len() {
        if refs::word(want[i]) != out[i] {
            return fail(
                format!(
                    "{name} {}x{}: texel ({}, {}) decodes to {:?}, reference {:?}",
                    im.w,
                    im.h,
                    i % im.w,
                    i / im.w,
                    refs::rgba(out[i]),
                    want[i]
                ),
                detail,
            );
        }
    }
    o.sample(|| detail);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        relations: vec![
            Relation { name: "pvrtc images", rule: "2bpp/4bpp images of 1..8 x 1..8 blocks, square and not, with cropped widths and heights, blocks of every modulation mode and opacity; non-trivial: every image, distinct by size and data", quick: 800_000, thorough: 16_000_000, exhaustive: None, f: images },
            Relation { name: "larger pvrtc images", rule: "the same with 1..32 x 1..32 blocks", quick: 10_000, thorough: 400_000, exhaustive: None, f: big_images },
            Relation { name: "pvrtc images of any proportion", rule: "2^8 to 2^14 blocks, some up to 2^18, in a grid of any proportion, from one column to one row, half of them square or twice as long as wide", quick: 400, thorough: 20_000, exhaustive: None, f: huge_grids },
        ],
        assumptions: vec!["images with one block in a dimension wrap onto themselves (the specification's minimum is two blocks)"],
    }]
}
