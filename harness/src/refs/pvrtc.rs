//! PVRTC1 4bpp / 2bpp, texel by texel: bilinear upscale of the two low
//! resolution images, then modulation (Khronos Data Format, chapter PVRTC).
use super::Rgba;

/// Position of block (x, y) in the data: interleaved low bits (y in the even
/// bits), then the remaining bits of the longer side.
pub fn block_index(x: usize, y: usize, nx: usize, ny: usize) -> usize {
    let k = nx.min(ny).trailing_zeros();
    let mut o = 0;
    for b in 0..k {
        o |= (y >> b & 1) << (2 * b);
        o |= (x >> b & 1) << (2 * b + 1);
    }
    let rest = if nx > ny { x >> k } else { y >> k };
    o | rest << (2 * k)
}

struct Blk {
    m: u32,
    mode: bool,
    a: [i32; 4],
    b: [i32; 4],
}

fn parse(d: &[u8]) -> Blk {
    let m = u32::from_le_bytes(d[..4].try_into().unwrap());
    let c = u32::from_le_bytes(d[4..8].try_into().unwrap());
    let f = |hi: u32, lo: u32| (c >> lo & ((1 << (hi - lo + 1)) - 1)) as i32;
    let x4 = |v: i32| v << 1 | v >> 3;
    let x3 = |v: i32| v << 2 | v >> 1;
    let a = if f(15, 15) == 1 {
        [f(14, 10), f(9, 5), x4(f(4, 1)), 15]
    } else {
        [x4(f(11, 8)), x4(f(7, 4)), x3(f(3, 1)), f(14, 12) << 1]
    };
    let b = if f(31, 31) == 1 {
        [f(30, 26), f(25, 21), f(20, 16), 15]
    } else {
        [x4(f(27, 24)), x4(f(23, 20)), x4(f(19, 16)), f(30, 28) << 1]
    };
    Blk { m, mode: c & 1 == 1, a, b }
}

/// 2-bit code of a stored texel of a 2bpp mode-1 block, as weight.
fn stored2(b: &Blk, x: usize, y: usize) -> i32 {
    let k = y * 4 + x / 2;
    let code = b.m >> (2 * k) & 3;
    let top = if code >= 2 { 8 } else { 0 };
    if k == 0 {
        return top; // its low bit is the interpolation flag
    }
    if k == 10 && b.m & 1 == 1 {
        return top; // its low bit is the direction flag
    }
    [0, 3, 5, 8][code as usize]
}

pub fn decode(data: &[u8], w: usize, h: usize, two: bool) -> Vec<Rgba> {
    let bw = if two { 8 } else { 4 };
    let nx = w.div_ceil(bw);
    let ny = h.div_ceil(4);
    let blks: Vec<Blk> = (0..nx * ny)
        .map(|i| {
            let (x, y) = (i % nx, i / nx);
            parse(&data[block_index(x, y, nx, ny) * 8..])
        })
        .collect();
    let (pw, ph) = (nx * bw, ny * 4);
    // weight of texel (x, y) of the padded, wrapped image when it is stored
    let stored = |x: usize, y: usize| -> i32 {
        let b = &blks[(y / 4) * nx + x / bw];
        let (ix, iy) = (x % bw, y % 4);
        if !two {
            let code = (b.m >> (2 * (iy * 4 + ix)) & 3) as usize;
            if b.mode {
                [0, 4, 4 | 16, 8][code] // 16 marks punch-through
            } else {
                [0, 3, 5, 8][code]
            }
        } else if !b.mode {
            (b.m >> (iy * 8 + ix) & 1) as i32 * 8
        } else {
            stored2(b, ix, iy)
        }
    };
    let mut out = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            // bilinear upscale: block colours sit at (bw/2, 2) of each block
            let fx = (x + pw - bw / 2) % pw;
            let fy = (y + ph - 2) % ph;
            let (bx, by) = (fx / bw, fy / 4);
            let (tx, ty) = ((fx % bw) as i32, (fy % 4) as i32);
            let at = |i: usize, j: usize| &blks[((by + j) % ny) * nx + (bx + i) % nx];
            let q = [at(0, 0), at(1, 0), at(0, 1), at(1, 1)];
            let s = bw as i32;
            let wt = [(s - tx) * (4 - ty), tx * (4 - ty), (s - tx) * ty, tx * ty];
            let mut ca = [0i32; 4];
            let mut cb = [0i32; 4];
            for k in 0..4 {
                for c in 0..4 {
                    ca[c] += q[k].a[c] * wt[k];
                    cb[c] += q[k].b[c] * wt[k];
                }
            }
            // rescale 5-bit x (s*4) and 4-bit x (s*4) sums to 8 bits
            let sh = if two { 1 } else { 0 };
            for v in [&mut ca, &mut cb] {
                for c in v.iter_mut().take(3) {
                    *c = (*c >> (1 + sh)) + (*c >> (6 + sh));
                }
                v[3] = (v[3] >> sh) + (v[3] >> (4 + sh));
            }
            let b = &blks[(y / 4) * nx + x / bw];
            let (mut m, mut punch) = (0, false);
            if two && b.mode && (x + y) % 2 == 1 {
                let l = stored((x + pw - 1) % pw, y);
                let r = stored((x + 1) % pw, y);
                let u = stored(x, (y + ph - 1) % ph);
                let d = stored(x, (y + 1) % ph);
                m = if b.m & 1 == 0 {
                    (l + r + u + d + 2) / 4
                } else if b.m >> 20 & 1 == 1 {
                    (u + d + 1) / 2
                } else {
                    (l + r + 1) / 2
                };
            } else {
                let s = stored(x, y);
                punch = s & 16 != 0;
                m += s & 15;
            }
            let mut p = [0u8; 4];
            for c in 0..4 {
                p[c] = ((ca[c] * (8 - m) + cb[c] * m) / 8) as u8;
            }
            if punch {
                p[3] = 0;
            }
            out.push(p);
        }
    }
    out
}
