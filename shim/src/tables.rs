// Every decoder by number; shared with ../../wasm.
type Image = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
type Block = fn(&[u8], &mut [u32]);

static IMAGES: [Image; 19] = [
    t::decode_bc1,
    t::decode_bc1a,
    t::decode_bc2,
    t::decode_bc3,
    t::decode_bc4,
    t::decode_bc5,
    t::decode_bc6_signed,
    t::decode_bc6_unsigned,
    t::decode_bc7,
    t::decode_etc1,
    t::decode_etc2_rgb,
    t::decode_etc2_rgba1,
    t::decode_etc2_rgba8,
    t::decode_eacr,
    t::decode_eacr_signed,
    t::decode_eacrg,
    t::decode_eacrg_signed,
    t::decode_atc_rgb4,
    t::decode_atc_rgba8,
];
static BLOCKS: [Block; 19] = [
    t::decode_bc1_block,
    t::decode_bc1a_block,
    t::decode_bc2_block,
    t::decode_bc3_block,
    t::decode_bc4_block,
    t::decode_bc5_block,
    t::decode_bc6_block_signed,
    t::decode_bc6_block_unsigned,
    t::decode_bc7_block,
    t::decode_etc1_block,
    t::decode_etc2_rgb_block,
    t::decode_etc2_rgba1_block,
    t::decode_etc2_rgba8_block,
    t::decode_eacr_block,
    t::decode_eacr_signed_block,
    t::decode_eacrg_block,
    t::decode_eacrg_signed_block,
    t::decode_atc_rgb4_block,
    t::decode_atc_rgba8_block,
];
static ASTC: [Image; 14] = [
    t::decode_astc_4_4,
    t::decode_astc_5_4,
    t::decode_astc_5_5,
    t::decode_astc_6_5,
    t::decode_astc_6_6,
    t::decode_astc_8_5,
    t::decode_astc_8_6,
    t::decode_astc_8_8,
    t::decode_astc_10_5,
    t::decode_astc_10_6,
    t::decode_astc_10_8,
    t::decode_astc_10_10,
    t::decode_astc_12_10,
    t::decode_astc_12_12,
];

/// 0..19: formats; 19..33: ASTC by name; 33, 34: BC6H by parameter; 40: ASTC
/// by parameter; 50, 51: PVRTC 2/4bpp by parameter; 52, 53: by name;
/// 60, 61: Crunch, Unity Crunch. `block`: the block decoder, into `img`.
/// 0: decoded, 1: an error, 2: a panic, 3: not in this build.
/// None: not in this build.
#[allow(clippy::too_many_arguments)]
pub fn dispatch(op: u32, block: bool, a: usize, b: usize, data: &[u8], w: usize, h: usize, img: &mut [u32]) -> Option<Result<(), &'static str>> {
    if block {
        match op {
            0..=18 => BLOCKS[op as usize](data, img),
            33 => t::decode_bc6_block(data, img, true),
            34 => t::decode_bc6_block(data, img, false),
            _ => t::decode_astc_block(data, a, b, img),
        }
        return Some(Ok(()));
    }
    Some(match op {
        0..=18 => IMAGES[op as usize](data, w, h, img),
        19..=32 => ASTC[op as usize - 19](data, w, h, img),
        33 => t::decode_bc6(data, w, h, img, true),
        34 => t::decode_bc6(data, w, h, img, false),
        40 => t::decode_astc(data, w, h, a, b, img),
        50 => t::decode_pvrtc(data, w, h, img, true),
        51 => t::decode_pvrtc(data, w, h, img, false),
        52 => t::decode_pvrtc_2bpp(data, w, h, img),
        53 => t::decode_pvrtc_4bpp(data, w, h, img),
        #[cfg(feature = "alloc")]
        60 => t::decode_crunch(data, w, h, img),
        #[cfg(feature = "alloc")]
        61 => t::decode_unity_crunch(data, w, h, img),
        _ => return None,
    })
}
