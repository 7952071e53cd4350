//! C01-C06: block decoders against the reference decoders.
use super::formats::*;
use crate::engine::*;
use crate::refs;
use serde_json::json;

pub const OPAQUE_BLACK: u32 = 0xff00_0000;

/// Decode one block with the library and compare with the reference.
pub fn check_block(f: &Fmt, block: &[u8], tail: &[u8], fillw: u32, o: &mut Obs) -> Check {
    let want = match reference(f, block) {
        Some(w) => w,
        None => return Ok(()),
    };
    let n = f.bw * f.bh;
    let init = if f.class == Class::Partial { OPAQUE_BLACK } else { fillw };
    let mut out = vec![init; n];
    let mut data = block.to_vec();
    data.extend_from_slice(tail);
    let r = guarded(|| (f.block)(&data, &mut out));
    let detail = |got: serde_json::Value, msg: &str| {
        json!({"function": format!("block decoder of {}", f.name), "block": hex(block),
               "trailing_bytes": tail.len(), "what": msg, "got": got})
    };
    if let Err(p) = r {
        return fail(format!("{} block panics: {p}", f.name), detail(json!(p), "panic"));
    }
    if let Some(i) = differs(f.class, &want, &out) {
        return fail(
            format!(
                "{} block {}: texel {} (x {}, y {}) decodes to rgba {:?}, reference {:?}",
                f.name,
                hex(block),
                i,
                i % f.bw,
                i / f.bw,
                refs::rgba(out[i]),
                want[i]
            ),
            detail(json!(refs::rgba(out[i])), "texel differs from the reference decoder"),
        );
    }
    o.sample(|| json!({"format": f.name, "block": hex(block), "texel0": refs::rgba(out[0])}));
    Ok(())
}

fn go(f: &'static Fmt, s: &mut Src, o: &mut Obs) -> Check {
    let b = (f.gen)(s, o);
    let tail = if s.chance(1, 4) {
        let n = s.usize(1, 20);
        s.bytes(n)
    } else {
        vec![]
    };
    let fillw = s.bits(32) as u32;
    o.nontrivial(hash_bytes(hash_str(f.name), &b));
    check_block(f, &b, &tail, fillw, o)
}

const RULE: &str = "a block of the format drawn field by field (endpoints at their boundary \
    values, every mode with its own weight, indices free), decoded into a pre-filled buffer, \
    with or without trailing bytes; non-trivial: every block, distinct by its bytes";

macro_rules! rel {
    ($name:expr, $fmt:expr, $q:expr) => {
        Relation {
            name: $name,
            rule: RULE,
            quick: $q,
            thorough: $q * 15,
            exhaustive: None,
            f: |s, o| go(fmt($fmt), s, o),
        }
    };
}

/// All (e0, e1) byte pairs of a BC3-alpha/BC4 block, every index present.
fn bc4_pairs(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(65536);
    let mut b = vec![k as u8, (k >> 8) as u8];
    // indices 0..7 twice: 0o7654321076543210 packed low first
    let mut v = 0u64;
    for i in 0..16u64 {
        v |= (i & 7) << (3 * i);
    }
    b.extend_from_slice(&v.to_le_bytes()[..6]);
    o.nontrivial(hash_bytes(1, &b));
    check_block(fmt("decode_bc4"), &b, &[], 0, o)
}
/// Every RGB565 value as either endpoint, with all four indices.
fn bc1_565(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(131072);
    let q = (k >> 1) as u16;
    let other = s.bits(16) as u16;
    let (a, b) = if k & 1 == 0 { (q, other) } else { (other, q) };
    let mut d = a.to_le_bytes().to_vec();
    d.extend_from_slice(&b.to_le_bytes());
    d.extend_from_slice(&[0xe4, 0x1b, 0xe4, 0x4e]);
    o.nontrivial(hash_bytes(2, &d));
    check_block(fmt("decode_bc1"), &d, &[], 0, o)?;
    check_block(fmt("decode_bc1a"), &d, &[], 0, o)
}
/// EAC: every (base, multiplier, table) with every index.
fn eac_all(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(65536);
    let mut b = vec![k as u8, (k >> 8) as u8];
    let mut v = 0u64;
    for i in 0..16u64 {
        v |= (i & 7) << (3 * i);
    }
    b.extend_from_slice(&v.to_be_bytes()[2..]);
    o.nontrivial(hash_bytes(3, &b));
    check_block(fmt("decode_eacr"), &b, &[], 0, o)?;
    check_block(fmt("decode_eacr_signed"), &b, &[], 0, o)
}
fn etc2a_all(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(65536);
    let mut b = vec![k as u8, (k >> 8) as u8];
    let mut v = 0u64;
    for i in 0..16u64 {
        v |= (i & 7) << (3 * i);
    }
    b.extend_from_slice(&v.to_be_bytes()[2..]);
    b.extend(s.bytes(8));
    o.nontrivial(hash_bytes(4, &b));
    check_block(fmt("decode_etc2_rgba8"), &b, &[], 0, o)
}
/// Every first colour with its mode bit, in turn.
fn atc_all(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(65536) as u16;
    let other = s.edgy(16) as u16;
    let mut d = k.to_le_bytes().to_vec();
    d.extend_from_slice(&other.to_le_bytes());
    d.extend_from_slice(&[0xe4, 0x1b, 0xe4, 0x4e]);
    o.nontrivial(hash_bytes(5, &d));
    check_block(fmt("decode_atc_rgb4"), &d, &[], 0, o)
}
/// Every (mode, partition) of the two-subset modes, with random endpoints.
fn bc7_partitions(s: &mut Src, o: &mut Obs) -> Check {
    let k = s.enumerated(8 * 64 * 4) as u32;
    let (mode, part, rot) = (k & 7, k >> 3 & 63, k >> 9);
    let mut v = u128::from_le_bytes(s.bytes(16).try_into().unwrap());
    v &= !((1u128 << (mode + 1)) - 1);
    v |= 1 << mode;
    let pos = mode + 1;
    let bits = [4, 6, 6, 6, 3, 2, 0, 6][mode as usize];
    let mask = ((1u128 << bits) - 1) << pos;
    let field = if mode == 4 || mode == 5 { part & 4 | rot } else { part };
    v = v & !mask | ((field as u128) << pos) & mask;
    let b = v.to_le_bytes();
    o.nontrivial(hash_bytes(6, &b));
    check_block(fmt("decode_bc7"), &b, &[], 0, o)
}

/// The one-channel EAC decoders add their bits to what is there.
fn eac_channel(s: &mut Src, o: &mut Obs) -> Check {
    let signed = s.bool();
    let b = (fmt(if signed { "decode_eacr_signed" } else { "decode_eacr" }).gen)(s, o);
    let want = refs::etc::eacr(&b, signed);
    let ch = s.usize(0, 3);
    let mut init = [0u32; 16];
    if s.chance(1, 4) {
        init.iter_mut().for_each(|p| *p = s.bits(32) as u32);
    } else {
        let x = if s.bool() { OPAQUE_BLACK } else { s.bits(32) as u32 };
        init.fill(x);
    }
    let mut out = init;
    o.nontrivial(hash_bytes(7 + ch as u64 * 2 + signed as u64, &b));
    let name = if signed { "decode_eac_signed_block" } else { "decode_eac_block" };
    o.label(name);
    let r = guarded(|| {
        if signed {
            texture2ddecoder::decode_eac_signed_block(&b, ch, &mut out)
        } else {
            texture2ddecoder::decode_eac_block(&b, ch, &mut out)
        }
    });
    let det = || json!({"function": name, "channel": ch, "block": hex(&b)});
    if let Err(p) = r {
        return fail(format!("{name} panics: {p}"), det());
    }
    for i in 0..16 {
        // the reference reports the value in red
        let w = init[i] | (want[i][0] as u32) << (8 * ch);
        if out[i] != w {
            return fail(format!("{name}, channel {ch}, texel {i}: {:08x} over {:08x}, expected {w:08x}", out[i], init[i]), det());
        }
    }
    o.sample(det);
    Ok(())
}
/// The alpha half on its own replaces alpha and leaves colour alone.
fn etc2_alpha_alone(s: &mut Src, o: &mut Obs) -> Check {
    let b = gen_eac(s, o);
    let mut full = b.clone();
    full.extend_from_slice(&[0; 8]);
    let want = refs::etc::etc2_rgba8(&full);
    let init = [s.bits(32) as u32; 16];
    let mut out = init;
    o.nontrivial(hash_bytes(9, &b));
    let det = || json!({"function": "decode_etc2_a8_block", "block": hex(&b)});
    if let Err(p) = guarded(|| texture2ddecoder::decode_etc2_a8_block(&b, &mut out)) {
        return fail(format!("decode_etc2_a8_block panics: {p}"), det());
    }
    for i in 0..16 {
        let w = init[i] & 0x00ff_ffff | (want[i][3] as u32) << 24;
        if out[i] != w {
            return fail(format!("decode_etc2_a8_block, texel {i}: {:08x} over {:08x}, expected {w:08x}", out[i], init[i]), det());
        }
    }
    o.sample(det);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let asm = vec![
        "the harness's reference decoders transcribe the published format specifications correctly",
        "interpolants that a specification leaves to the implementation round down, as the library documents by its outputs",
    ];
    vec![
        Prop {
            id: "C01",
            relations: vec![
                rel!("bc1 blocks", "decode_bc1", 6_000_000),
                rel!("bc1a blocks", "decode_bc1a", 6_000_000),
                rel!("bc2 blocks", "decode_bc2", 6_000_000),
                rel!("bc3 blocks", "decode_bc3", 6_000_000),
                rel!("bc4 blocks", "decode_bc4", 6_000_000),
                rel!("bc5 blocks", "decode_bc5", 6_000_000),
                Relation { name: "bc4 endpoint pairs", rule: "all 65536 endpoint pairs with every index", quick: 65536, thorough: 65536, exhaustive: Some(65536), f: bc4_pairs },
                Relation { name: "565 endpoints", rule: "every 565 value as first and as second endpoint, every index, random partner", quick: 131072 * 8, thorough: 131072 * 40, exhaustive: None, f: bc1_565 },
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C02",
            relations: vec![
                rel!("bc7 blocks", "decode_bc7", 24_000_000),
                Relation { name: "bc7 partitions", rule: "every mode with every partition / rotation field, the rest random", quick: 2048 * 1000, thorough: 2048 * 4000, exhaustive: None, f: bc7_partitions },
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C03",
            relations: vec![
                rel!("bc6h unsigned blocks", "decode_bc6_unsigned", 10_000_000),
                rel!("bc6h signed blocks", "decode_bc6_signed", 10_000_000),
                rel!("bc6h by parameter, unsigned", "decode_bc6(unsigned)", 600_000),
                rel!("bc6h by parameter, signed", "decode_bc6(signed)", 600_000),
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C04",
            relations: vec![
                rel!("atc rgb blocks", "decode_atc_rgb4", 10_000_000),
                rel!("atc rgba blocks", "decode_atc_rgba8", 8_000_000),
                Relation { name: "atc first colours", rule: "all 65536 first colours with the mode bit, every index, random second colour", quick: 65536 * 8, thorough: 65536 * 400, exhaustive: None, f: atc_all },
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C05",
            relations: vec![
                rel!("etc1 blocks", "decode_etc1", 8_000_000),
                rel!("etc2 rgb blocks", "decode_etc2_rgb", 8_000_000),
                rel!("etc2 punch-through blocks", "decode_etc2_rgba1", 8_000_000),
                rel!("etc2 rgba8 blocks", "decode_etc2_rgba8", 8_000_000),
                Relation { name: "etc2 alpha words", rule: "all 65536 base/multiplier/table combinations with every index", quick: 65536, thorough: 65536 * 20, exhaustive: Some(65536), f: etc2a_all },
                Relation { name: "etc2 alpha alone", rule: "the alpha decoder on a drawn alpha word over drawn pixels: alpha replaced, colour kept", quick: 1_000_000, thorough: 40_000_000, exhaustive: None, f: etc2_alpha_alone },
            ],
            assumptions: asm.clone(),
        },
        Prop {
            id: "C06",
            relations: vec![
                rel!("eac r11 blocks", "decode_eacr", 6_000_000),
                rel!("eac signed r11 blocks", "decode_eacr_signed", 6_000_000),
                rel!("eac rg11 blocks", "decode_eacrg", 6_000_000),
                rel!("eac signed rg11 blocks", "decode_eacrg_signed", 6_000_000),
                Relation { name: "eac words", rule: "all 65536 base/multiplier/table combinations with every index, unsigned and signed (signed base -128 is reserved and skipped)", quick: 65536, thorough: 65536, exhaustive: Some(65536), f: eac_all },
                Relation { name: "eac channels", rule: "the one-channel decoders, signed and unsigned, any channel, over drawn pixels: bits added to that channel only", quick: 2_000_000, thorough: 60_000_000, exhaustive: None, f: eac_channel },
            ],
            assumptions: asm,
        },
    ]
}
