//! C10, C11, C15, C16: the Crunch containers.
use crate::engine::*;
use crate::refs::{self, crn, Rgba};
use serde_json::{json, Value};
use texture2ddecoder as t2d;
use texture2ddecoder::CrnTextureInfo;

const SENTINEL: u32 = 0x5aa5_c33c;

pub fn decode(unity: bool, d: &[u8], w: usize, h: usize, img: &mut [u32]) -> Result<(), &'static str> {
    if unity {
        t2d::decode_unity_crunch(d, w, h, img)
    } else {
        t2d::decode_crunch(d, w, h, img)
    }
}

fn block_ref(f: u8, d: &[u8]) -> [Rgba; 16] {
    use refs::*;
    match f {
        0 => bc::bc1(d),
        2..=6 => bc::bc3(d),
        7 | 8 => bc::bc5(d),
        9 => bc::bc4(d),
        10 | 13 => etc::etc1(d),
        11 => etc::etc2_rgb(d),
        _ => etc::etc2_rgba8(d),
    }
}
/// The image the file stands for.
pub fn expected(f: &crn::File) -> Vec<u32> {
    let (w, h, n) = (f.shape.w, f.shape.h, crn::block_bytes(f.shape.format));
    let bx = w.div_ceil(4);
    let mut img = vec![0u32; w * h];
    for (k, b) in f.blocks.chunks(n).enumerate() {
        let t = block_ref(f.shape.format, b);
        for (i, c) in t.iter().enumerate() {
            let (x, y) = (k % bx * 4 + i % 4, k / bx * 4 + i / 4);
            if x < w && y < h {
                img[y * w + x] = refs::word(*c);
            }
        }
    }
    img
}

pub fn gen_shape(s: &mut Src, unity: bool, max_dim: usize, max_palette: usize) -> crn::Shape {
    let format = if unity { s.pick(&crn::UNITY_FORMATS) } else { s.pick(&crn::CRUNCH_FORMATS) };
    let dim = |s: &mut Src| match s.below(4) {
        0 => s.usize(1, 12),
        1 => 4 * s.usize(1, max_dim / 4),
        _ => s.usize(1, max_dim),
    };
    let (w, h) = (dim(s), dim(s));
    let faces = if s.chance(1, 3) { s.usize(1, 6) } else { 1 };
    let levels = if s.chance(1, 3) {
        let most = if s.chance(1, 5) { 16 } else { 5 };
        s.usize(1, most)
    } else {
        1
    };
    let palette = s.usize(1, max_palette);
    crn::Shape { unity, format, w, h, faces, levels, palette, far: false, spoil: None }
}
fn shape_json(f: &crn::File) -> Value {
    let sh = &f.shape;
    json!({"container": if sh.unity { "unity crunch" } else { "crunch" },
           "format": crn::NAMES[sh.format as usize], "width": sh.w, "height": sh.h,
           "faces": sh.faces, "levels": sh.levels, "palette_entries": f.counts,
           "file_bytes": f.data.len()})
}
fn labels(f: &crn::File, o: &mut Obs) {
    o.label(crn::NAMES[f.shape.format as usize]);
    if f.shape.faces > 1 {
        o.label("several faces");
    }
    if f.shape.levels > 1 {
        o.label("several levels");
    }
    if f.shape.w.div_ceil(4) % 2 == 1 || f.shape.h.div_ceil(4) % 2 == 1 {
        o.label("odd block count");
    }
}

fn check_file(f: &crn::File, s: &mut Src, o: &mut Obs) -> Check {
    labels(f, o);
    o.nontrivial(hash_bytes(11, &f.data));
    let sh = &f.shape;
    let mut data = f.data.clone();
    if s.chance(1, 6) {
        // bytes after the file are not part of it
        let n = s.usize(1, 40);
        let mut x = s.bytes(n);
        data.append(&mut x);
        o.label("bytes after the file");
    }
    let extra = if s.chance(1, 6) { s.usize(1, 9) } else { 0 };
    let mut img = vec![SENTINEL; sh.w * sh.h + extra];
    let want = expected(f);
    let r = guarded(|| decode(sh.unity, &data, sh.w, sh.h, &mut img));
    let detail = || json!({"file": shape_json(f), "bytes": hex(&data[..data.len().min(4000)])});
    match r {
        Err(p) => return fail(format!("a well-formed file panics: {p}"), detail()),
        Ok(Err(e)) => return fail(format!("a well-formed file is rejected: {e}"), detail()),
        Ok(Ok(())) => {}
    }
    o.calls += 1;
    if let Some(i) = (0..sh.w * sh.h).find(|&i| img[i] != want[i]) {
        return fail(
            format!(
                "{} {} {}x{} ({} faces): pixel ({}, {}) is {:?}, the file says {:?}",
                if sh.unity { "unity crunch" } else { "crunch" },
                crn::NAMES[sh.format as usize],
                sh.w,
                sh.h,
                sh.faces,
                i % sh.w,
                i / sh.w,
                refs::rgba(img[i]),
                refs::rgba(want[i])
            ),
            detail(),
        );
    }
    if img[sh.w * sh.h..].iter().any(|&p| p != SENTINEL) {
        return fail("pixels past width*height were written", detail());
    }
    o.sample(|| shape_json(f));
    Ok(())
}

fn files(s: &mut Src, o: &mut Obs, unity: bool, dim: usize, pal: usize) -> Check {
    let sh = gen_shape(s, unity, dim, pal);
    let f = crn::build(s, &sh);
    check_file(&f, s, o)
}
/// Many symbols: codes up to the coder's limit of 8192, and more chunks.
fn wide_files(s: &mut Src, o: &mut Obs, unity: bool) -> Check {
    let mut sh = gen_shape(s, unity, 48, 1);
    sh.palette = s.pick(&[6usize, 40, 300, 2000, 4097, 8000, 8191, 8192]);
    let thin = s.usize(1, 24);
    match s.below(5) {
        0 => (sh.w, sh.h) = (s.usize(1000, 5000), thin),
        1 => (sh.w, sh.h) = (thin, s.usize(1000, 5000)),
        2 => (sh.w, sh.h) = (s.usize(5000, 65535), thin.min(8)),
        3 => (sh.w, sh.h) = (thin.min(8), s.usize(5000, 65535)),
        _ => (sh.w, sh.h) = (s.usize(100, 500), s.usize(100, 500)),
    }
    sh.faces = sh.faces.min(2);
    let f = crn::build(s, &sh);
    o.label(if sh.palette > 4096 { "more than 4096 palette entries" } else { "fewer palette entries" });
    check_file(&f, s, o)
}
/// Sections and levels megabytes apart.
fn far_files(s: &mut Src, o: &mut Obs, unity: bool) -> Check {
    let mut sh = gen_shape(s, unity, 24, 12);
    sh.far = true;
    let f = crn::build(s, &sh);
    let last = f.sections.iter().map(|x| x.0).chain(f.level_ofs.iter().copied()).max().unwrap();
    o.label(match last {
        0..=0xffff => "all within 64 KiB",
        0x10000..=0xff_ffff => "offsets of three bytes",
        _ => "offsets of four bytes",
    });
    check_file(&f, s, o)
}
/// Small shapes, every one of them in turn.
fn shapes(s: &mut Src, o: &mut Obs, unity: bool) -> Check {
    let formats: &[u8] = if unity { &crn::UNITY_FORMATS } else { &crn::CRUNCH_FORMATS };
    let nf = formats.len() as u64;
    let k = s.enumerated(nf * 24 * 24);
    let format = formats[(k % nf) as usize];
    let (w, h) = ((k / nf % 24) as usize + 1, (k / nf / 24) as usize + 1);
    let faces = s.usize(1, 3);
    let sh = crn::Shape { unity, format, w, h, faces, levels: 1, palette: 12, far: false, spoil: None };
    let f = crn::build(s, &sh);
    check_file(&f, s, o)
}

fn info_of(d: &[u8], size: u32) -> Option<[u32; 8]> {
    let mut t = CrnTextureInfo::default();
    if !t.crnd_get_texture_info(d, size) {
        return None;
    }
    Some([t.width, t.height, t.levels, t.faces, t.format as u32, t.bytes_per_block, t.userdata0, t.userdata1])
}
/// What the header's layout says; None where it is not a header.
/// Some(None): not specified here (format code 15).
fn info_want(d: &[u8], size: usize) -> Option<Option<[u32; 8]>> {
    let be = |at: usize, n: usize| d[at..at + n].iter().fold(0u32, |a, &b| a << 8 | b as u32);
    if size < 74 || size > d.len() {
        return None;
    }
    let levels = be(16, 1);
    if be(0, 2) != 0x4878 || be(2, 2) < 74 || be(6, 4) as usize > size || 70 + 4 * levels as usize > size {
        return None;
    }
    let fm = be(18, 1);
    match fm {
        15 => Some(None),
        0..=14 => {
            let bpb = if matches!(fm, 0 | 9 | 10 | 11 | 13) { 8 } else { 16 };
            Some(Some([be(12, 2), be(14, 2), levels, be(17, 1), fm, bpb, be(25, 4), be(29, 4)]))
        }
        _ => None,
    }
}
fn check_info(d: &[u8], size: usize, o: &mut Obs) -> Check {
    let want = info_want(d, size);
    let got = match guarded(|| info_of(d, size as u32)) {
        Ok(g) => g,
        Err(p) => return fail(format!("reading the header panics: {p}"), json!({"bytes": hex(&d[..d.len().min(400)]), "size": size})),
    };
    o.calls += 1;
    let ok = match (&want, &got) {
        (None, None) | (Some(None), _) => true,
        (Some(Some(w)), Some(g)) => w == g,
        _ => false,
    };
    o.label(match want {
        None => "not a header",
        Some(None) => "format code 15",
        Some(Some(_)) => "a header",
    });
    if !ok {
        return fail(
            format!("header information (width, height, levels, faces, format, bytes per block, userdata) is {got:?}, the header says {want:?}"),
            json!({"bytes": hex(&d[..d.len().min(400)]), "length": d.len(), "size": size}),
        );
    }
    o.sample(|| json!({"size": size, "info": got}));
    Ok(())
}

fn info_files(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let sh = gen_shape(s, unity, 40, 6);
    let f = crn::build(s, &sh);
    o.nontrivial(hash_bytes(12, &f.data));
    let want = [sh.w as u32, sh.h as u32, sh.levels as u32, sh.faces as u32, sh.format as u32,
        crn::block_bytes(sh.format) as u32, f.userdata[0], f.userdata[1]];
    let got = guarded(|| info_of(&f.data, f.data.len() as u32));
    if got != Ok(Some(want)) {
        return fail(format!("a file written with {want:?} reads back as {got:?}"), json!({"bytes": hex(&f.data)}));
    }
    check_info(&f.data, f.data.len(), o)
}
/// A header with free fields, and none, one or several of them off.
fn info_headers(s: &mut Src, o: &mut Obs) -> Check {
    let levels = match s.below(3) {
        0 => 1,
        1 => s.usize(0, 16),
        _ => s.edgy(8) as usize,
    };
    let mut head = 70 + 4 * levels.max(1);
    if s.chance(1, 6) {
        head = s.usize(74, 300);
    }
    let pad = if s.chance(1, 2) { s.usize(0, 40) } else { 0 };
    let mut d = s.bytes(head + pad);
    crn::put_be(&mut d, 0, 2, 0x4878);
    crn::put_be(&mut d, 2, 2, head as u64);
    let n = d.len() as u64;
    crn::put_be(&mut d, 6, 4, n);
    let dims = [s.edgy(16), s.edgy(16)];
    crn::put_be(&mut d, 12, 2, dims[0]);
    crn::put_be(&mut d, 14, 2, dims[1]);
    d[16] = levels as u8;
    d[17] = s.edgy(8) as u8;
    d[18] = s.below(15) as u8;
    let mut size = d.len();
    match s.below(16) {
        0 => d[18] = s.edgy(8) as u8,
        1 => {
            let i = s.usize(0, 1);
            d[i] ^= 1 << s.below(8);
        }
        2 => {
            let v = s.below(80);
            crn::put_be(&mut d, 2, 2, v);
        }
        3 => {
            let v = match s.below(3) {
                0 => n + s.below(3),
                1 => s.edgy(32),
                _ => s.below(n + 1),
            };
            crn::put_be(&mut d, 6, 4, v);
        }
        4 => size = s.usize(0, d.len()),
        5 => size = d.len() + s.usize(1, 5),
        6 => d[16] = s.edgy(8) as u8,
        7 => {
            let i = s.usize(0, d.len() - 1);
            d[i] ^= 1 << s.below(8);
        }
        8 => {
            let cut = s.usize(0, d.len());
            d.truncate(cut);
            size = cut;
        }
        _ => {}
    }
    o.nontrivial(hash_bytes(13 + size as u64, &d));
    check_info(&d, size, o)
}
fn info_struct_size(s: &mut Src, o: &mut Obs) -> Check {
    // a record of another size is refused
    let sh = gen_shape(s, false, 20, 3);
    let f = crn::build(s, &sh);
    let mut t = CrnTextureInfo::default();
    let keep = t.struct_size;
    t.struct_size = match s.below(3) {
        0 => keep.wrapping_add(s.below(9) as u32),
        1 => keep.wrapping_sub(s.below(9) as u32),
        _ => s.bits(32) as u32,
    };
    let want = t.struct_size == keep;
    o.nontrivial(t.struct_size as u64);
    let got = t.crnd_get_texture_info(&f.data, f.data.len() as u32);
    if got != want {
        return fail(format!("record size {} (right: {keep}) gives {got}", t.struct_size), json!(null));
    }
    Ok(())
}

/// Decode bytes that need not be a file. Ok(accepted).
fn hostile(unity: bool, d: &[u8], w: usize, h: usize, what: &str) -> Result<bool, Fail> {
    let mut img = vec![SENTINEL; w * h + 16];
    let r = guarded(|| decode(unity, d, w, h, &mut img));
    let detail = || json!({"unity": unity, "width": w, "height": h, "what": what, "bytes": hex(&d[..d.len().min(4000)])});
    let r = match r {
        Err(p) => return fail(format!("{what}: panics: {p}"), detail()),
        Ok(r) => r,
    };
    if img[w * h..].iter().any(|&p| p != SENTINEL) {
        return fail(format!("{what}: pixels past width*height were written"), detail());
    }
    match r {
        Ok(()) => Ok(true),
        Err(e) => {
            if img.iter().any(|&p| p != SENTINEL) {
                return fail(format!("{what}: rejected with {e:?}, but the image was written"), detail());
            }
            Ok(false)
        }
    }
}

fn truncated(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let sh = gen_shape(s, unity, 32, 10);
    let f = crn::build(s, &sh);
    // every prefix of small files, some of others
    let n = f.data.len();
    let cuts: Vec<usize> = if n <= 160 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = vec![0, 1, 69, 70, 73, 74, 75, n - 1, n - 2];
        for _ in 0..16 {
            v.push(s.usize(0, n - 1));
        }
        v
    };
    o.nontrivial(hash_bytes(14, &f.data));
    o.label(crn::NAMES[sh.format as usize]);
    for c in cuts {
        o.calls += 1;
        if hostile(unity, &f.data[..c], sh.w, sh.h, "a truncated file")? {
            return fail(
                format!("the first {c} of {n} bytes of a file decode without an error"),
                json!({"file": shape_json(&f), "bytes": hex(&f.data)}),
            );
        }
    }
    o.sample(|| shape_json(&f));
    Ok(())
}

/// One defect that makes the file unusable, whatever else it holds.
fn broken(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let sh = gen_shape(s, unity, 32, 10);
    let f = crn::build(s, &sh);
    let mut d = f.data.clone();
    let n = d.len() as u64;
    let fm = sh.format;
    let color = !matches!(fm, 7..=9);
    let alpha = !matches!(fm, 0 | 10 | 11 | 13);
    let mut pals = vec![];
    if color {
        pals.extend([33usize, 41]);
    }
    if alpha {
        pals.extend([49, 57]);
    }
    let what = match s.below(12) {
        0 => {
            let i = s.usize(0, 1);
            d[i] ^= 1 << s.below(8);
            "the signature is off"
        }
        1 => {
            let v = s.below(74);
            crn::put_be(&mut d, 2, 2, v);
            "the header size is below the header's"
        }
        2 => {
            let v = n + 1 + s.below(1 << 20);
            crn::put_be(&mut d, 6, 4, v);
            "the data size is larger than the data"
        }
        3 => {
            d[18] = if unity { 15 + s.below(241) as u8 } else { s.pick(&[10, 11, 12, 13, 14, 15, 16, 255, 200]) };
            "the format code is not one of the container's"
        }
        4 => {
            d[18] = 1;
            "DXT3 has no Crunch coding"
        }
        5 => {
            let at = s.pick(&pals);
            let v = n + s.below((1 << 24) - n);
            crn::put_be(&mut d, at, 3, v);
            "a palette lies past the end"
        }
        6 => {
            let at = s.pick(&pals);
            crn::put_be(&mut d, at + 3, 3, 0);
            "a palette has no bytes"
        }
        7 => {
            let v = n + s.below((1 << 24) - n);
            crn::put_be(&mut d, 67, 3, v);
            "the tables lie past the end"
        }
        8 => {
            crn::put_be(&mut d, 65, 2, 0);
            "the tables have no bytes"
        }
        9 => {
            let v = n + s.below((1 << 32) - n);
            crn::put_be(&mut d, 70, 4, v);
            "the first level lies past the end"
        }
        10 => {
            d[16] = 0;
            "there is no level"
        }
        _ => {
            // no endpoint palette at all
            crn::put_be(&mut d, 39, 2, 0);
            crn::put_be(&mut d, 55, 2, 0);
            "no palette has entries"
        }
    };
    o.label(what);
    o.nontrivial(hash_bytes(15, &d));
    o.calls += 1;
    if hostile(unity, &d, sh.w, sh.h, what)? {
        return fail(
            format!("{what}, and the file still decodes without an error"),
            json!({"file": shape_json(&f), "bytes": hex(&d)}),
        );
    }
    o.sample(|| json!({"defect": what, "file": shape_json(&f)}));
    Ok(())
}

/// One defect in the coded sections that leaves them without a meaning.
fn spoiled(s: &mut Src, o: &mut Obs) -> Check {
    use crn::Spoil::*;
    let unity = s.bool();
    let mut sh = gen_shape(s, unity, 24, 12);
    let color = !matches!(sh.format, 7..=9);
    let alpha = !matches!(sh.format, 0 | 10 | 11 | 13);
    let mut pals = vec![];
    if color {
        pals.extend([0usize, 1]);
    }
    if alpha {
        pals.extend([2, 3]);
    }
    let (kind, place) = match s.below(8) {
        0 | 1 => (Unassigned, s.pick(&pals)),
        2 => (Unassigned, 5),
        3 => (OutOfPalette, 5),
        4 if !unity => (ForeignSymbol, *pals.iter().filter(|&&x| x % 2 == 1).nth(s.usize(0, pals.len() / 2 - 1)).unwrap()),
        4 | 5 => (s.pick(&[RepeatFirst, RepeatZero, RunPast, LengthCodes]), 4),
        _ => (s.pick(&[RepeatFirst, RepeatZero, RunPast, LengthCodes]), s.pick(&pals)),
    };
    if kind == OutOfPalette {
        // no coded blocks outside the image or in faces nobody asks for
        sh.w = sh.w.next_multiple_of(8);
        sh.h = sh.h.next_multiple_of(8);
        sh.faces = 1;
    }
    sh.spoil = Some(crn::Target { kind, place, done: false });
    let f = crn::build(s, &sh);
    if !f.spoiled {
        return Ok(());
    }
    let what = match kind {
        Unassigned => "bits that are no code",
        RepeatFirst => "a table whose first length is a repetition",
        RepeatZero => "a table that repeats a zero",
        RunPast => "a table with a run past its end",
        LengthCodes => "a table with an impossible number of length codes",
        ForeignSymbol => "a selector symbol without a meaning",
        OutOfPalette => "an index past the palette",
    };
    o.label(what);
    o.label(["in colour endpoints", "in colour selectors", "in alpha endpoints", "in alpha selectors", "in tables", "in the first level"][place]);
    o.nontrivial(hash_bytes(16, &f.data));
    o.calls += 1;
    if hostile(unity, &f.data, sh.w, sh.h, what)? {
        return fail(
            format!("{what} (place {place}), and the file still decodes without an error"),
            json!({"file": shape_json(&f), "bytes": hex(&f.data)}),
        );
    }
    o.sample(|| json!({"defect": what, "file": shape_json(&f)}));
    Ok(())
}

pub fn mutate(s: &mut Src, d: &mut Vec<u8>, f: &crn::File, o: &mut Obs) {
    for _ in 0..s.usize(1, 4) {
        let n = d.len();
        match s.below(9) {
            0 => {
                o.label("bit flip");
                let i = s.usize(0, n - 1);
                d[i] ^= 1 << s.below(8);
            }
            1 => {
                o.label("byte set");
                let i = s.usize(0, n - 1);
                d[i] = s.edgy(8) as u8;
            }
            2 => {
                o.label("section bytes");
                let (a, l) = s.pick(&f.sections);
                let i = a + s.usize(0, l - 1);
                if i < n {
                    d[i] = s.bits(8) as u8;
                }
            }
            3 => {
                o.label("section place or size");
                let at = s.pick(&[33usize, 36, 41, 44, 49, 52, 57, 60, 67]);
                let v = match s.below(4) {
                    0 => s.edgy(24),
                    1 => s.below(n as u64 + 2),
                    2 => s.pick(&f.sections).0 as u64,
                    _ => s.below(8),
                };
                crn::put_be(d, at, 3, v);
            }
            4 => {
                o.label("palette count");
                let at = s.pick(&[39usize, 47, 55, 63]);
                let v = match s.below(3) {
                    0 => s.edgy(16),
                    _ => s.below(20),
                };
                crn::put_be(d, at, 2, v);
            }
            5 => {
                o.label("dimensions");
                let at = s.pick(&[12usize, 14]);
                let v = if s.bool() { s.edgy(16) } else { s.below(70) };
                crn::put_be(d, at, 2, v);
            }
            6 => {
                o.label("levels, faces, format");
                let at = s.usize(16, 18);
                d[at] = s.edgy(8) as u8 & if at == 18 { 15 } else { 255 };
            }
            7 => {
                o.label("level offset or tables size");
                if s.bool() {
                    let v = s.edgy(16);
                    crn::put_be(d, 65, 2, v);
                } else {
                    let v = if s.bool() { s.edgy(32) } else { s.below(n as u64 + 2) };
                    crn::put_be(d, 70, 4, v);
                }
            }
            _ => {
                o.label("run of bytes");
                let i = s.usize(0, n - 1);
                let k = s.usize(1, 16).min(n - i);
                let v = s.bytes(k);
                d[i..i + k].copy_from_slice(&v);
            }
        }
    }
}

fn mutated(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let sh = gen_shape(s, unity, 40, 12);
    let f = crn::build(s, &sh);
    let mut d = f.data.clone();
    mutate(s, &mut d, &f, o);
    if s.chance(1, 6) {
        // the other container's reader
        let ok = hostile(!unity, &d, sh.w, sh.h, "a damaged file of the other container")?;
        o.label(if ok { "accepted" } else { "rejected" });
        o.nontrivial(hash_bytes(17, &d));
        return Ok(());
    }
    o.calls += 1;
    let ok = hostile(unity, &d, sh.w, sh.h, "a damaged file")?;
    o.label(if ok { "accepted" } else { "rejected" });
    o.nontrivial(hash_bytes(16, &d));
    o.sample(|| json!({"file": shape_json(&f), "accepted": ok}));
    Ok(())
}
fn random_bytes(s: &mut Src, o: &mut Obs) -> Check {
    let unity = s.bool();
    let n = if s.bool() { s.usize(0, 90) } else { s.usize(74, 700) };
    let mut d = s.bytes(n);
    if n >= 74 && s.chance(7, 8) {
        crn::put_be(&mut d, 0, 2, 0x4878);
        crn::put_be(&mut d, 2, 2, 74);
        crn::put_be(&mut d, 6, 4, n as u64);
        let (w, h) = (s.below(40), s.below(40));
        crn::put_be(&mut d, 12, 2, w);
        crn::put_be(&mut d, 14, 2, h);
        d[16] = 1;
        d[17] = s.below(7) as u8;
        d[18] = s.below(15) as u8;
        for k in 0..4 {
            let at = 33 + 8 * k;
            let v = 74 + s.below(n as u64 - 73);
            crn::put_be(&mut d, at, 3, v);
            let v = s.below(n as u64);
            crn::put_be(&mut d, at + 3, 3, v);
            let v = s.below(6);
            crn::put_be(&mut d, at + 6, 2, v);
        }
        let v = s.below(n as u64);
        crn::put_be(&mut d, 65, 2, v);
        let v = 74 + s.below(n as u64 - 73);
        crn::put_be(&mut d, 67, 3, v);
        let v = 74 + s.below(n as u64 - 73);
        crn::put_be(&mut d, 70, 4, v);
        o.label("plausible header");
    }
    let (w, h) = (s.usize(0, 24), s.usize(0, 24));
    o.nontrivial(hash_bytes(18, &d));
    o.calls += 1;
    let ok = hostile(unity, &d, w, h, "random bytes")?;
    o.label(if ok { "accepted" } else { "rejected" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let model = "the harness's .crn writer and model follow the container's format (checked against the sample files the crunch tools wrote)";
    let rule = "a file drawn from its logical content: format, size, faces, levels, palettes, prefix codes of every shape, chunk layouts / references, section order and gaps; non-trivial: every file, distinct by its bytes";
    vec![
        Prop {
            id: "C10",
            relations: vec![
                Relation { name: "crunch files", rule, quick: 400_000, thorough: 8_000_000, exhaustive: None, f: |s, o| files(s, o, false, 48, 40) },
                Relation { name: "crunch shapes", rule: "every format with every size from 1x1 to 24x24, 1 to 3 faces", quick: 5184 * 20, thorough: 5184 * 400, exhaustive: Some(5184), f: |s, o| shapes(s, o, false) },
                Relation { name: "crunch files with large palettes", rule, quick: 6_000, thorough: 120_000, exhaustive: None, f: |s, o| files(s, o, false, 100, 3000) },
                Relation { name: "crunch files of many blocks and symbols", rule: "palettes of up to 8192 entries; long images of up to 65535 pixels a side, and some of 100 to 500", quick: 3_000, thorough: 60_000, exhaustive: None, f: |s, o| wide_files(s, o, false) },
                Relation { name: "crunch files with distant sections", rule: "a drawn file whose sections and levels are up to megabytes apart, at and around the offsets where another byte of theirs is needed", quick: 400, thorough: 4_000, exhaustive: None, f: |s, o| far_files(s, o, false) },
            ],
            assumptions: vec![model],
        },
        Prop {
            id: "C11",
            relations: vec![
                Relation { name: "unity crunch files", rule, quick: 400_000, thorough: 8_000_000, exhaustive: None, f: |s, o| files(s, o, true, 48, 40) },
                Relation { name: "unity crunch shapes", rule: "every format with every size from 1x1 to 24x24, 1 to 3 faces", quick: 8064 * 12, thorough: 8064 * 260, exhaustive: Some(8064), f: |s, o| shapes(s, o, true) },
                Relation { name: "unity crunch files with large palettes", rule, quick: 6_000, thorough: 120_000, exhaustive: None, f: |s, o| files(s, o, true, 100, 3000) },
                Relation { name: "unity crunch files of many blocks and symbols", rule: "palettes of up to 8192 entries; long images of up to 65535 pixels a side, and some of 100 to 500", quick: 3_000, thorough: 60_000, exhaustive: None, f: |s, o| wide_files(s, o, true) },
                Relation { name: "unity crunch files with distant sections", rule: "a drawn file whose sections and levels are up to megabytes apart, at and around the offsets where another byte of theirs is needed", quick: 400, thorough: 4_000, exhaustive: None, f: |s, o| far_files(s, o, true) },
            ],
            assumptions: vec![model],
        },
        Prop {
            id: "C15",
            relations: vec![
                Relation { name: "truncated files", rule: "a drawn file cut at every length (files of at most 160 bytes) or at 25 lengths; each must be rejected with the image untouched", quick: 20_000, thorough: 600_000, exhaustive: None, f: truncated },
                Relation { name: "unusable files", rule: "a drawn file with one defect that leaves it without a meaning; must be rejected with the image untouched", quick: 300_000, thorough: 3_000_000, exhaustive: None, f: broken },
                Relation { name: "meaningless sections", rule: "a drawn file in which one section (a palette, the tables, the first level) has one defect that leaves it without a meaning: bits that are no code, a table with an impossible run or number of lengths, a selector symbol or palette index that does not exist; must be rejected with the image untouched; non-trivial: the defect could be placed", quick: 250_000, thorough: 3_000_000, exhaustive: None, f: spoiled },
                Relation { name: "damaged files", rule: "a drawn file with 1 to 4 mutations, aimed at every header field and section; any result but no panic, no endless loop, nothing written past the image, nothing at all on an error", quick: 500_000, thorough: 8_000_000, exhaustive: None, f: mutated },
                Relation { name: "random bytes", rule: "random bytes, mostly behind a plausible header", quick: 500_000, thorough: 6_000_000, exhaustive: None, f: random_bytes },
            ],
            assumptions: vec!["a case that gives no answer within 60 s counts as an endless loop"],
        },
        Prop {
            id: "C16",
            relations: vec![
                Relation { name: "headers of files", rule: "a file with drawn fields reads back as written", quick: 150_000, thorough: 2_000_000, exhaustive: None, f: info_files },
                Relation { name: "headers", rule: "a header with free fields at their boundary values, and often one field, the length or the given size off; accepted exactly when it is a header, with the fields of the layout", quick: 8_000_000, thorough: 200_000_000, exhaustive: None, f: info_headers },
                Relation { name: "record size", rule: "the caller's record size right or wrong", quick: 20_000, thorough: 200_000, exhaustive: None, f: info_struct_size },
            ],
            assumptions: vec!["format code 15 is not specified"],
        },
    ]
}
