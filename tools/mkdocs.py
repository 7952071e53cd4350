#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the table below is their source)."""
import json, os
HOME = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SAMPLES = "The tests decode a few 512x512 sample files per format and only look at whether the call succeeded"

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, claimed=claimed, reason=reason, state=state))

prop("C01", "BC1 to BC5 blocks decode to the S3TC/RGTC texels",
     "For every 8-byte BC1 and BC4 block and every 16-byte BC2, BC3 and BC5 block, decoding gives the sixteen RGBA texels the S3TC and RGTC definitions give, with colours interpolated in 8 bits by integer division and the block's own index order. BC1 yields opaque colours and black for the fourth entry of three-colour blocks, its alpha variant yields transparent black there, BC2 and BC3 colour blocks always have four colours, and BC2 and BC3 take alpha from their own half. BC4 writes only red and BC5 only red and green; every other channel of the output stays as it was.",
     ["inputs"], "every block of 64 or 128 bits, both orders of the two endpoint colours and of the two alpha endpoints, every index value at every texel, and every former content of the output",
     SAMPLES + "; no test compares a texel, so any wrong interpolation or bit position passes.",
     ["src/bcn/bc1.rs", "src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc4.rs", "src/bcn/bc5.rs", "src/color.rs"],
     [("colour block", "src/bcn/bc1.rs"), ("explicit alpha", "src/bcn/bc2.rs"), ("interpolated channel", "src/bcn/bc3.rs decode_bc3_alpha")],
     "generated blocks (all endpoint orders, enumerated index patterns, random) against independent reference decoders; shrinking to a minimal block",
     "Differential against references written from the format definitions; enumerated 8-bit endpoint pairs, random elsewhere.")
prop("C02", "BC7 blocks decode to the texels of the BPTC definition",
     "For every 128-bit BC7 block of modes 0 to 7, decoding gives the sixteen RGBA texels the BPTC definition prescribes: partition and anchor tables, endpoint expansion with p-bits, index bits, index selection, channel rotation and rounded interpolation. A block without a mode bit decodes to the reserved result, transparent black.",
     ["inputs"], "every 128-bit block: all eight modes, all partitions, rotations, index selections, p-bits, endpoints and indices, and reserved blocks",
     SAMPLES + "; most modes, partitions and rotations never occur in the sample and no texel is compared.",
     ["src/bcn/bc7.rs", "src/bcn/consts.rs", "src/bitreader.rs"],
     [("mode table and block decode", "src/bcn/bc7.rs decode_bc7_block"), ("partition and weight tables", "src/bcn/consts.rs")],
     "structured generation of every mode, partition, rotation and index pattern against an independent BPTC reference decoder",
     "Every (mode, partition, rotation, index-selection) combination is enumerated; endpoints and indices are random with boundary values.")
prop("C03", "BC6H blocks decode to the half-float texels of the BPTC definition",
     "For every 128-bit BC6H block of the fourteen modes, signed or unsigned, decoding gives the texels of the BPTC definition: endpoint bit layout, delta transform and wrap, unquantisation, interpolation and the half-float value, each channel then stored as the 8-bit value of 255 times it clamped to 0..1, with alpha 255. Blocks of the reserved modes decode to opaque black.",
     ["inputs"], "every block, all fourteen modes and the reserved ones, all 32 partitions, signed and unsigned, negative and wrapping deltas, all indices",
     SAMPLES + "; one signed and one unsigned sample reach a few modes and nothing compares values.",
     ["src/bcn/bc6.rs", "src/bcn.rs", "src/f16.rs", "src/bcn/consts.rs"],
     [("endpoint layout, transform and unquantisation", "src/bcn/bc6.rs"), ("half to 8 bits", "src/bcn/bc6.rs f16_to_u8, src/f16.rs")],
     "structured generation of every mode and partition against an independent BC6H reference decoder",
     "Every (mode, partition, signedness) combination is enumerated; deltas include wrap-around and extreme values.")
prop("C04", "ATC blocks decode to the texels of the ATC definition",
     "For every 8-byte ATC RGB block and every 16-byte ATC RGBA block with interpolated alpha, decoding gives the texels of the ATC definition: a 1-5-5-5 and a 5-6-5 colour, with the top bit choosing between four interpolated colours and the mode that has black and a darkened second colour. The RGBA form takes alpha from its interpolated-alpha half.",
     ["inputs"], "every 64- or 128-bit block, both colour modes, both alpha orders, every index at every texel",
     SAMPLES + "; no texel is compared.",
     ["src/atc.rs", "src/bcn/bc3.rs"], [("colour table", "src/atc.rs decode_atc_rgb4_block"), ("alpha half", "src/bcn/bc3.rs")],
     "generated blocks against an independent ATC reference decoder", "Differential; colour pairs and mode bit random with boundary values, index patterns enumerated.")
prop("C05", "ETC1 and ETC2 blocks decode to the texels of the ETC definition",
     "For every 8-byte block, ETC2 RGB and punch-through RGB decoding gives the texels of the ETC2 definition in each of the individual, differential, T, H and planar modes, chosen by the overflow rules, with texels in column order; punch-through blocks without the opaque bit make texels of index 2 transparent. Every ETC1 block whose base colours are in range decodes as ETC1 defines, and the RGBA form adds the 8-bit alpha its first half encodes and leaves colour to the second half.",
     ["inputs"], "every 64- or 128-bit block: all modes including those signalled by overflow, flip and opaque bits, tables, indices, and boundary base colours",
     SAMPLES + "; the rarer modes (T, H, planar, punch-through) are not verified at all.",
     ["src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/consts.rs", "src/color.rs"],
     [("ETC1", "src/etc/etc1.rs"), ("ETC2 modes, punch-through and alpha", "src/etc/etc2.rs")],
     "blocks generated per mode against an independent ETC reference decoder",
     "Every mode is generated on purpose as well as by chance. ETC1 blocks whose differential sum overflows are undefined and not compared; RGB of transparent punch-through texels is not compared.")
prop("C06", "EAC blocks decode to the values of the EAC definition",
     "For every EAC R11 and RG11 block, unsigned and signed, each channel decodes to the 11-bit value the EAC definition gives (base, multiplier, modifier table, 48 big-endian index bits in column order, clamped), reduced to 8 bits: the top eight bits when unsigned, and for signed the value shifted into 0..2046 before that reduction. Channels the format lacks are zero, alpha is 255, and the one-channel block decoder adds its bits only to the channel it is asked for.",
     ["inputs"], "every 64- or 128-bit block: all bases, multipliers including zero, tables and indices; signed base -128 excluded (reserved by the format)",
     SAMPLES + "; a value that is off in every texel passes.",
     ["src/etc/eac.rs", "src/etc/consts.rs"], [("channel decode", "src/etc/eac.rs decode_eac_block, decode_eac_signed_block")],
     "generated blocks (base, multiplier and table enumerated) against an independent EAC reference decoder",
     "All (base, multiplier, table) triples are enumerated with random indices; signed base -128 is excluded.")
prop("C07", "PVRTC images decode to the texels of the PVRTC definition",
     "For every PVRTC image of 2 or 4 bits per pixel whose numbers of blocks in both directions are powers of two, each texel is what the PVRTC definition gives: blocks in Morton order, endpoint colours opaque or with alpha, bilinear interpolation across the four nearest blocks with wrap-around at the edges, and modulation in every mode, including punch-through at 4 bits and interpolated modulation at 2 bits.",
     ["inputs"], "every block content in every neighbourhood, all modulation modes mixed between neighbours, square and non-square grids down to a single row or column or block, cropped sizes",
     SAMPLES + "; one square grid per bit rate and no comparison of texels; non-square grids and mixed modes are never decoded.",
     ["src/pvrtc.rs"], [("Morton order", "src/pvrtc.rs morton_index"), ("texel colours and weights", "src/pvrtc.rs get_texel_colors, get_texel_weights_*"), ("interpolation", "src/pvrtc.rs applicate_color_*")],
     "whole generated images against an independent PVRTC reference decoder (texel by texel, from the definition)",
     "Grids of up to 32x32 blocks, and of up to 2^18 blocks in any proportion.")
prop("C08", "ASTC LDR blocks decode to the texels of the ASTC definition",
     "For every legal ASTC block of the fourteen two-dimensional block sizes whose endpoint modes are low dynamic range, decoding gives the RGBA texels of the ASTC definition, including one to four partitions, dual plane, every weight grid and infill, every weight and colour quantisation in trits, quints and bits, blue contraction and base-plus-offset endpoints. Results are the 8-bit values of the unsigned-normalised decode.",
     ["inputs"], "every legal 128-bit block of every block size: all block modes, partition counts and seeds, endpoint mode combinations, quantisation levels, weights",
     SAMPLES + "; a sample file per size reaches a small part of the mode space, no texel is compared.",
     ["src/astc.rs"], [("block mode", "src/astc.rs decode_block_params"), ("integer sequences", "src/astc.rs decode_intseq"), ("endpoints, weights, partitions", "src/astc.rs decode_endpoints, decode_weights, select_partition"), ("texels", "src/astc.rs applicate_color")],
     "an ASTC block builder that covers all modes, plus random and mutated blocks, against an independent ASTC reference decoder",
     "All 2048 block-mode values x 14 sizes are swept, all 1024 partition seeds x counts x sizes; the rest is random.")
prop("C09", "ASTC HDR, void-extent and illegal blocks decode as defined",
     "ASTC blocks with high-dynamic-range endpoint modes decode to the half-float values of the ASTC definition, and constant-colour blocks to their 16-bit or half-float constant, each stored as an 8-bit value clamped to 0..1. Every illegal or reserved encoding decodes to the error colour (opaque magenta) in every texel.",
     ["inputs"], "every 128-bit block with an HDR endpoint mode in any partition, every constant-colour block, every reserved block mode and every overfull or inconsistent encoding, for every block size",
     SAMPLES + "; no HDR or illegal block exists in the samples.",
     ["src/astc.rs", "src/f16.rs"], [("HDR endpoints", "src/astc.rs decode_endpoints_hdr7, decode_endpoints_hdr11"), ("void extent and error colour", "src/astc.rs decode_astc_block"), ("half to 8 bits", "src/f16.rs, src/astc.rs f16ptr_to_u8")],
     "built HDR, constant and illegal blocks, and random ones, against an independent ASTC reference decoder",
     "HDR sub-modes are enumerated. Constants that are NaN or infinite and the reserved bits of constant-colour blocks are left open.")
prop("C10", "Crunch files decode to the image their blocks encode",
     "For every well-formed Crunch file of the DXT1, DXT5, DXT5A, DXN and swizzled DXT5 formats, with any palettes, Huffman tables, sizes, numbers of faces and mip levels, decoding gives the pixels that decoding the original DXT blocks gives for the first face of the first level. Bytes after the file and pixels beyond width times height have no effect and are left alone.",
     ["inputs"], "every file an encoder can produce: palette sizes, code-length distributions, chunk encodings, endpoint and selector deltas with wrap, odd block counts, 1 to 6 faces, 1 to 5 levels",
     SAMPLES + "; a handful of files, square and even-sized, one face.",
     ["src/crunch.rs", "src/crnlib.rs", "src/crunch/"], [("unpack per format", "src/crunch/crn_unpacker.rs"), ("Huffman tables", "src/crunch/crn_static_huffman_data_model.rs, crn_symbol_codec.rs"), ("header", "src/crunch/crn_decomp.rs")],
     "a Crunch encoder (in the harness) builds random files whose block contents are known; round-trip through the decoder, blocks decoded by the reference decoders",
     "Files are built from the container's definition; the encoder is independent of the decoder's code.")
prop("C11", "Unity Crunch files decode to the image their blocks encode",
     "For every well-formed Unity-variant Crunch file of its DXT, ETC1, ETC2 and ETC2 with alpha formats, with any palettes, Huffman tables, reference patterns, sizes and numbers of faces and levels, decoding gives the pixels that decoding the original blocks gives for the first face of the first level. Bytes after the file and pixels beyond width times height have no effect and are left alone.",
     ["inputs"], "every file an encoder can produce: references to left and upper blocks, palettes, deltas, odd block counts, faces and levels, ETC flips and subset colours",
     SAMPLES + "; a handful of files, square and even-sized, one face.",
     ["src/unitycrunch.rs", "src/unitycrunch/", "src/crunch/"], [("unpack per format", "src/unitycrunch/crn_unpacker.rs")],
     "a Unity Crunch encoder (in the harness) builds random files whose block contents are known; round-trip through the decoder",
     "Files are built from the container's definition; the encoder is independent of the decoder's code.")
prop("C12", "Buffers of the right size suffice and shorter ones are refused",
     "An image decoder succeeds exactly when the data holds all blocks of the image (block count rounded up in each direction, times the block's byte size), the image buffer holds width times height pixels and, for PVRTC, the block grid is a power of two each way; otherwise it returns an error and writes nothing. On success it writes every pixel of width times height and nothing beyond them, and neither extra data nor extra room nor former contents change a pixel. ASTC block sizes with a side below two or more than 144 texels are refused, and a Crunch file is decoded into any image that holds the rows asked for.",
     ["inputs"], "every decoder, every width and height including zero, every data and image length from zero past the need, for Crunch every image length",
     "The tests always pass exactly fitting buffers of one size.",
     ["src/macros.rs", "src/astc.rs", "src/bcn.rs", "src/pvrtc.rs", "src/crunch.rs", "src/unitycrunch.rs"], [("size checks", "src/macros.rs block_decoder, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc")],
     "generated sizes and buffer lengths around every boundary, sentinel-filled buffers, compared with the predicted outcome", "Sizes up to a few hundred pixels each way, with strips and areas past 2^16 and 2^24 pixels; the refusal rule is predicted from the definition.")
prop("C13", "An image is the cropped tiling of its decoded blocks",
     "For every format with independent blocks and every width and height, an image decodes to its blocks placed left to right and top to bottom, each decoded as on its own, with the last column and row cropped to the image.",
     ["inputs"], "every format, every width and height (including smaller than a block, and not multiples of it), every block content",
     "The tests decode 512x512 images only, where for most formats nothing is cropped.",
     ["src/color.rs", "src/macros.rs", "src/astc.rs", "src/bcn.rs", "src/pvrtc.rs"], [("placement and crop", "src/color.rs copy_block_buffer")],
     "metamorphic: image decode against tiling of single-block decodes; long strips", "Sizes around every block boundary up to three blocks are enumerated for every format; larger ones are random.")
prop("C14", "No input makes a decoder panic, hang or read out of bounds",
     "Whatever the bytes, the width, the height and the buffer lengths, including sizes whose product overflows, an image decoder returns success or an error: it does not panic, overflow, recurse without end or hang. A block decoder given at least one block of arbitrary bytes and an output of one block's size likewise always returns.",
     ["inputs"], "every byte string and size for every image decoder, every block for every block decoder, ASTC block sizes of any value, in a build with overflow checks and debug assertions",
     "The tests decode well-formed files in which illegal encodings and huge sizes do not occur.",
     ["src/astc.rs", "src/bcn/", "src/etc/", "src/atc.rs", "src/pvrtc.rs", "src/macros.rs"], [("illegal encodings", "src/astc.rs"), ("size arithmetic", "src/macros.rs")],
     "fuzzing every entry point with random, structured and mutated inputs under overflow and debug assertions and again under the address sanitiser, with crash and hang attribution", "Blocks are random or structured; image sizes small, or so large that no buffer could hold them.")
prop("C15", "Damaged Crunch files are rejected or decoded, never fatal",
     "For every byte string given to the two Crunch decoders, with any width, height and image length, the call returns success or an error, without panic, overflow or endless loop, and writes nothing past the image. Every proper prefix of a file, and a file whose signature, sizes, format, palettes, tables or first level cannot be what its header says, is reported as an error with the image untouched.",
     ["inputs", "fault_sequences"], "every truncation point, every header field with every value, bit flips and splices of well-formed files, random bytes",
     "The tests decode intact files only.",
     ["src/crunch/", "src/unitycrunch/", "src/crunch.rs", "src/unitycrunch.rs", "src/crnlib.rs"], [("bounds on offsets, counts and indices", "src/crunch/crn_unpacker.rs, src/unitycrunch/crn_unpacker.rs"), ("bit reader", "src/crunch/crn_symbol_codec.rs"), ("Huffman tables", "src/crunch/crn_static_huffman_data_model.rs")],
     "mutation fuzzing of generated Crunch files (truncation, header fields, flips, splices), under overflow checks and again under the address sanitiser, with crash and hang attribution", "Mutations of generated files; memory is limited to 20 GB during the run.")
prop("C16", "The texture info of a Crunch header is exactly what the header says",
     "For every Crunch header, querying the texture info succeeds exactly when the caller's record has the right size, the signature is right, the header is at least as long as the format's, the stated sizes and all level offsets fit the data, and the format code is known. It then reports the stored width, height, levels, faces, user words and format together with the format's bytes per block; anything else is reported as failure without a panic.",
     ["inputs"], "every header field value and data length, intact, contradictory and truncated headers",
     "The tests only read width and height of the intact samples.",
     ["src/crnlib.rs", "src/crunch/crn_decomp.rs"], [("texture info", "src/crnlib.rs crnd_get_texture_info"), ("header parse", "src/crunch/crn_decomp.rs crnd_get_header")],
     "generated headers, valid and with each field damaged, against a reference parser", "The unspecified format code 15 is left open; checksums are not verified by the library.")
prop("C17", "The Python functions return what the Rust decoders give",
     "For every argument, each Python function returns a bytes object of width times height BGRA pixels equal to the Rust decoder's output, by position or by keyword, and raises ValueError exactly where the Rust decoder reports an error. Arguments of a wrong type or range raise an ordinary exception; nothing crashes the interpreter, alters an argument or an earlier result.",
     ["inputs", "histories"], "every exported function, all widths and heights including zero, negative and overflowing ones, data of every length, wrong types, sequences of calls in one interpreter",
     "The Python tests decode one sample per function and compare nothing but success.",
     ["bindings/python/src/lib.rs", "bindings/python/texture2ddecoder_rs.pyi"], [("function wrappers", "bindings/python/src/lib.rs pybind, decode_astc")],
     "generated calls in live Python interpreters against the Rust decoders (differential, stateful)", "Runs the module in the repository's Python 3.12; results below a few MB.")
prop("C18", "A decode gives the same pixels in every build, call order and thread",
     "The outcome and every pixel of a decode depend only on its arguments: they are the same in optimised and unoptimised builds, with and without overflow checks, in any order of earlier calls, from several threads at once, at any alignment of the data, and whatever the buffer held before, except for channels the format does not write. Named and parameterised entry points of one format agree.",
     ["inputs", "histories", "schedules", "configurations"], "every image and block decoder and Crunch, intact and damaged inputs, call sequences, three threads, release, checked and unoptimised builds",
     "The tests run each decoder once in one build on one thread.",
     ["src/lib.rs", "src/astc.rs", "src/bcn.rs", "src/pvrtc.rs", "src/crunch/", "src/unitycrunch/"], [("entry points", "src/lib.rs"), ("wrapping arithmetic", "all decoders")],
     "differential between builds of the same tree, stateful histories and threads against isolated calls", "Three builds by the installed stable compiler; schedules are those the host produces.")
prop("C19", "Building without the allocator changes no result",
     "The library builds without its allocator feature, also for a host that has no allocator at all, and then every decoder other than the Crunch ones gives the same outcome and the same pixels as with it, for every input, PVRTC included.",
     ["inputs", "configurations"], "every non-Crunch decoder, every size and content, both feature settings",
     "The tests are built with the default features only.",
     ["src/lib.rs", "src/pvrtc.rs", "src/astc.rs"], [("PVRTC without alloc", "src/pvrtc.rs decode_pvrtc, second definition"), ("feature gates", "src/lib.rs")],
     "differential between the builds with and without the feature on generated inputs", "Both builds by the installed stable compiler on this host; the host without an allocator is WebAssembly as node runs it.")
prop("C20", "32-bit and big-endian hosts decode to the same pixel values",
     "On a host with 32-bit words or with big-endian byte order, every decoder gives the same outcome and the same 32-bit pixel values as on a 64-bit little-endian one, for every input of the same arguments.",
     ["inputs", "configurations"], "every decoder including Crunch, on a 32-bit little-endian host (WebAssembly) and a 64-bit big-endian one (s390x), intact and damaged inputs",
     "The tests run on the build host only.",
     ["src/color.rs", "src/macros.rs", "src/bitreader.rs", "src/etc/", "src/bcn/", "src/crunch/"], [("pixel word", "src/color.rs color"), ("index fields", "src/etc, src/bcn")],
     "generated calls executed by builds for other hosts (WebAssembly under node, s390x under Miri), compared with the native answers (differential)", "32-bit word size at full speed with thousands of calls; big-endian in an interpreter with hundreds of small calls.")
prop("C21", "A block decoder writes its own texels and nothing else",
     "Every block decoder (those of the fixed formats, ASTC of any block size, and the one-channel EAC and ETC2 alpha decoders) gives the same texels whether it has exactly one block of data and exactly its room or more of either, and leaves every pixel past its block as it was, whatever the block, legal or not.",
     ["inputs"], "every block decoder of the public API, every block, any number of bytes after the block and pixels after its room, any former contents",
     "The tests never call a block decoder on its own.",
     ["src/bcn/", "src/etc/", "src/astc.rs", "src/atc.rs"], [("alpha halves", "src/bcn/bc2.rs, src/bcn/bc3.rs, src/etc/eac.rs, src/etc/etc2.rs"), ("constant and illegal blocks", "src/astc.rs decode_astc_block, src/bcn/bc6.rs, src/bcn/bc7.rs")],
     "generated blocks decoded with and without surplus data and room, compared texel by texel (metamorphic)", "Outputs shorter than a block are outside the property.")

def main():
    with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d, ensure_ascii=True) + "\n")
    m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": [], "not_applicable": [],
         "notes": "No hooks: every property is observed through the public API. Repairs are the fix: commits listed in known-findings.txt."}
    for p in P:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(HOME, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
