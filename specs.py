BUDGET = {"quick": {"total": 240, "job": 100, "query_ms": 45000}, "thorough": {"total": 780, "job": 600, "query_ms": 120000}}
ASSUMPTIONS = []
UN, SN, UI, SI, UF, FL = 1, 2, 4, 8, 16, 32
FMT = [("R4G4", UN), ("R4G4B4A4", UN), ("B4G4R4A4", UN), ("A4R4G4B4", UN), ("R5G6B5", UN), ("B5G6R5", UN), ("R5G5B5A1", UN), ("B5G5R5A1", UN), ("A1R5G5B5", UN),
       ("R8", 15), ("R8G8", 15), ("R8G8B8", 15), ("B8G8R8", UN), ("R8G8B8A8", 15), ("B8G8R8A8", UN), ("A8B8G8R8", UN), ("A2R10G10B10", UN | UI), ("A2B10G10R10", UN | UI),
       ("R16", 15 | FL), ("R16G16", 15 | FL), ("R16G16B16", 15 | FL), ("R16G16B16A16", 15 | FL), ("R32", UI | SI | FL), ("R32G32", UI | SI | FL), ("R32G32B32", UI | SI | FL),
       ("R32G32B32A32", UI | SI | FL), ("B10G11R11", UF), ("E5B9G9R9", UF)]
SPECS = {}


def spec(id, harness, jobs, **kw):
    SPECS[id] = dict(harness=harness, jobs=jobs, **kw)


spec("C01", ["c01.cpp"], [{"entry": "c01", "params": {"f": f, "t": t}, "covers": ["done"]} for f, (n, m) in enumerate(FMT) for t in range(4) if m >> t & 1] +
     [{"entry": "c01_placed", "params": {"f": f, "t": t}, "covers": ["done"]} for f, (n, m) in enumerate(FMT) for t in range(4) if m >> t & 1],
     bounds="One texel whose four channels are independent arbitrary 32-bit floats (NaN excluded, infinities included), for each of the 26 formats with normalised or integer types and every such type. The texel alone, and repeated between two constant texels over the two layers and two levels of a 35x3 texture: every position is checked.",
     outside="NaN. Other sizes (C03 shows that every texel is converted on its own).")

spec("C02", ["c02.cpp"],
     [{"entry": "c02", "params": {"f": f}, "covers": ["done"]} for f, (n, m) in enumerate(FMT) if m & (FL | UF) and f != 27] +
     [{"entry": "c02", "params": {"f": 27, "k": k}, "covers": ["done"], "weight": 3} for k in range(11)] +
     [{"entry": "c02", "params": {"f": f, "soft": 1}, "opts": ["--f16c=0"], "covers": ["done"], "no_validate": True} for f, (n, m) in enumerate(FMT) if m & FL and n[:3] == "R16"] +
     [{"entry": "c02_placed", "params": {"f": f}, "covers": ["done"]} for f, (n, m) in enumerate(FMT) if m & (FL | UF) and f != 27] +
     [{"entry": "c02_placed", "params": {"f": 27, "k": k}, "covers": ["done"], "weight": 3} for k in (0, 5, 10)] +
     [{"entry": "c02_placed", "params": {"f": f, "soft": 1}, "opts": ["--f16c=0"], "covers": ["done"], "no_validate": True} for f, (n, m) in enumerate(FMT) if m & FL and n[:3] == "R16"],
     bounds="One texel whose channels are independent arbitrary 32-bit floats (NaN excluded, infinities included for half and single precision; magnitudes up to 1e30 for the packed formats), for every floating-point format; half precision both by the conversion instruction and by the table-driven code. The texel alone, and repeated between two constant texels over the two layers and two levels of a 35x3 texture (the shared-exponent format with three of its eleven ranges of the largest channel): every position is checked.",
     outside="NaN. Other sizes (C03).",
     assumptions=["VCVTPS2PH rounds as IEEE 754 says, to nearest even."])

spec("C03", ["c03.cpp"],
     [{"entry": "c03_formats", "params": {"f": f, "t": t, "sizes": 5}, "covers": ["done"], "traces": 2} for f, (n, m) in enumerate(FMT) for t in range(6) if m >> t & 1] +
     [{"entry": "c03_sizes", "params": {"w0": 4*k + 1, "w1": 4*k + 4, "h1": 6}, "covers": ["done"], "traces": 2} for k in range(9)] +
     [{"entry": "c03_surfaces", "covers": ["done"], "traces": 4}] +
     [{"entry": "c03_surfaces", "params": dict(kind=k, w=w, h=h, layers=l, levels=v, threads=n), "covers": ["done"], "traces": 2, "weight": 3}
      for (k, w, h, l, v, n) in [(0, 200, 1, 2, 9, 1), (0, 2060, 1, 0, 12, 1), (1, 40, 21, 2, 9, 1), (1, 7, 90, 0, 3, 1), (2, 24, 10, 5, 9, 1), (3, 17, 17, 2, 9, 1), (0, 66, 1, 0, 2, 2), (1, 33, 2, 2, 1, 2), (2, 33, 2, 2, 2, 2), (1, 64, 2, 0, 2, 3)]] +
     [{"entry": "c03_large", "params": dict(w=w, h=h, f=f, t=ty), "covers": ["done"], "traces": 1, "weight": 9} for (w, h, f, ty) in [(65537, 1, 9, 0), (1, 65537, 10, 0)]] +
     [{"entry": "c03_large", "params": dict(w=257 + (f*3 + t) % 60, h=257 + (f + t*7) % 11, f=f, t=t, at=(f*7 + t) % 3), "covers": ["done"], "traces": 1, "weight": 2} for f, (n, m) in enumerate(FMT) for t in range(6) if m >> t & 1] +
     [{"entry": "c03_requested", "params": dict(w=w), "covers": ["done"], "traces": 4} for w in (5, 33)] +
     [{"entry": "c03_threads", "params": dict(w=w, h=h, threads=t, hw=2, f=f, t=ty), "covers": ["done"], "traces": 4, "weight": 3, "no_validate": False}
      for (w, h, t, f, ty) in [(33, 2, 2, 9, 0), (33, 2, 0, 13, 0), (50, 2, 3, 9, 0), (97, 1, 2, 11, 0), (65, 1, 4, 25, 5)]],
     bounds="Every size from 1x1 to 36x6 in one format with all texels symbolic, five sizes that end rows inside a batch of work in every format and type with the texels at the ends of batches and of the surface symbolic; one size above 256x256 in every format and type, 65537x1 and 1x65537, with one late texel symbolic and a pattern elsewhere; surfaces of all kinds of texture with up to 2 layers, 3 slices, 6 faces and 3 levels, and full mip chains (up to 2060x1, 40x21, 24x10x5) whose levels need from 27 batches down to one, on one and on several threads; every 32-bit number of threads for one and two batches, one to four worker threads (and the automatic number on two cores) over two to four batches with every interleaving at their synchronisation points and a happens-before race check of every other access.",
     outside="Other large sizes, more threads or batches, memory orders weaker than the ones used by std::atomic's defaults.",
     assumptions=["Interleaving at synchronisation points covers all behaviours, because any unsynchronised conflicting access is itself reported as a race."])

spec("C04", ["c04.cpp"],
     [{"entry": "c04_queries", "covers": ["done"]}, {"entry": "c04_blocks", "covers": ["done"]}] +
     [{"entry": "c04_convert", "params": {"f": f}, "covers": ["done"] + (["saved"] if 1 <= f <= 28 else []), "traces": 6} for f in list(range(0, 30)) + [36, 42, 56, 61, 62, 63, 300]] +
     [{"entry": "c04_sizes", "params": {"f": f}, "covers": ["done", "sizes"], "traces": 4, "weight": 2} for f in range(1, 29)],
     bounds="The queries for every 32-bit value of format, type and container; conversion and saving of a 3x2 (1D: 3x1, cube: 3x3) texture, plain and array, in both colour spaces to every uncompressed format, seven compressed or non-existent ones, and types 0 to 6; six other sizes from 1x1 to 300x2 with three levels, as 1D array, 2D, 3D and cube array, for every uncompressed format.",
     outside="Compressed formats' converters (not in this build; C27), other sizes (C03, C05, C08 to C10).")

spec("C05", ["c05.cpp"],
     [{"entry": "c05_levels", "params": {"kind": k}, "covers": ["done"]} for k in range(4)] +
     [{"entry": "c05_texture", "params": {"kind": k, "depth": d, "srgb": (d + k) % 2}, "covers": (["done"] if k != 2 or d else []) + ["invalid"], "weight": 2, "tiers": ("quick", "thorough") if (k, d) in ((0, 0), (0, 3), (1, 0), (1, 1), (1, 5), (2, 0), (2, 1), (2, 5), (3, 0), (3, 3)) else ("thorough",)} for k in range(4) for d in range(6)] +
     [{"entry": "c05_queries", "params": {"kind": k}, "covers": ["done", "inside"], "weight": 2} for k in range(4)] +
     [{"entry": "c05_queries", "params": {"kind": k, "w1": 5, "d1": 4}, "covers": ["done", "inside"], "tiers": ("thorough",)} for k in range(4)],
     bounds="Level counts for every 32-bit width, height and depth; geometry and out-of-range queries of textures of every 32-bit width, height, requested level count, queried level and layer, with 0 to 8 layers or slices; image and data queries of filled textures up to 3x3x2 (thorough: 5x3x4) of every kind at every 32-bit level and layer and every face.",
     outside="Stored textures of other sizes; textures whose storage does not fit in memory.")

spec("C06", ["c06.cpp"],
     [{"entry": "c06", "params": dict(kind=k, size=z, srgb=g, first=f, steps=n), "covers": ["done"] + (["converted", "regenerated"] if f == 2 and n > 3 else []), "traces": 4, "weight": n + (k == 2),
       "tiers": ("quick", "thorough") if n == (4 if f == 2 and k != 2 else 3) and (f == 2 or k != 2) else ("thorough",)}
      for (k, z, g) in [(1, 0, 0), (1, 1, 1), (2, 0, 0), (3, 0, 1), (0, 1, 0)] for f in range(1, 4) for n in (3, 4, 5) if n > 3 or f != 3] +
     [{"entry": "c06_set", "params": dict(kind=k, depth=d), "covers": ["accepted", "refused"], "traces": 6, "weight": 2} for k, d in ((0, 0), (1, 0), (1, 2), (2, 2), (3, 0), (3, 2))] +
     [{"entry": "c06_missing", "params": dict(kind=k, depth=d), "covers": ["done"], "traces": 6, "weight": 2} for k, d in ((0, 0), (0, 3), (1, 0), (1, 3), (2, 3), (3, 0), (3, 2))] +
     [{"entry": "c06_missing", "params": dict(kind=k, depth=d, w=w), "covers": ["done"], "traces": 4, "weight": 2} for k, d, w in ((0, 0, 100), (1, 2, 40), (3, 0, 16))],
     bounds="Histories of an initialisation followed by a fixed first operation and every sequence of 2 or 3 (thorough: up to 4) further operations out of: initialise again (valid or not), set one image (every 32-bit level and layer, right or wrong size, two faces), set all images, generate mipmaps (every 32-bit level count), convert to a pair valid for every or only for linear colour space, convert to any pair that does not exist, copy, move away and back, reset. Textures of 1D, 2D, 2D array, 3D and cube kind, at most 3 pixels wide, every requested level count. Every one and (with up to 18 surfaces) two surfaces missing out of textures of all kinds with three levels, 0 to 3 layers, and with up to seven levels, set in either order.",
     outside="Longer histories, larger textures, failures inside FreeImage or of memory allocation.")

spec("C07", ["c07.cpp"],
     [{"entry": "c07_chain", "params": dict(kind=k, w=w, h=h, layers=l, srgb=g, filter=fl), "covers": ["done"], "traces": 4, "weight": 2}
      for (k, w, h, l, g, fl) in [(1, 8, 3, 0, 0, 3), (1, 5, 5, 0, 1, 0), (0, 9, 1, 0, 0, 1), (1, 4, 6, 2, 0, 0), (0, 4, 1, 3, 1, 2), (3, 4, 4, 0, 0, 4), (3, 4, 4, 2, 1, 3), (1, 1, 8, 2, 0, 1)]] +
     [{"entry": "c07_chain", "params": dict(kind=k, w=w, h=h, layers=l, srgb=g, filter=fl, **{"from": fr}), "covers": ["done"], "traces": 4, "weight": 2}
      for (k, w, h, l, g, fl, fr) in [(1, 64, 3, 0, 0, 1, 4), (0, 40, 1, 0, 0, 0, 3), (1, 5, 17, 2, 1, 2, 2), (0, 1100, 1, 0, 0, 0, 8), (1, 1, 2100, 0, 1, 1, 9)]] +
     [{"entry": "c07_3d", "params": dict(w=w, h=h, d=d, srgb=g, filter=fl), "covers": ["done"] + (["refused"] if d > 3 else []), "traces": 4, "weight": 3}
      for (w, h, d, g, fl) in [(4, 2, 4, 0, 0), (4, 4, 5, 0, 1), (3, 3, 8, 1, 0), (8, 1, 2, 0, 3), (1, 1, 7, 0, 0), (2, 2, 4, 1, 1)]] +
     [{"entry": "c07_3d", "params": dict(w=w, h=h, d=d, srgb=g, filter=fl, **{"from": fr}), "covers": ["done"] + (["refused"] if d > 7 else []), "traces": 4, "weight": 3}
      for (w, h, d, g, fl, fr) in [(32, 2, 4, 0, 0, 3), (16, 1, 40, 0, 1, 3), (3, 17, 17, 1, 0, 2), (1100, 1, 2, 0, 0, 8), (1, 1, 70, 0, 1, 4)]] +
     [{"entry": "c07_images", "params": dict(kind=k, w=w, h=h, layers=l, srgb=g, filter=fl), "covers": ["done"], "traces": 4, "weight": 2}
      for (k, w, h, l, g, fl) in [(1, 7, 5, 0, 0, 0), (1, 4, 8, 2, 1, 3), (0, 9, 1, 2, 0, 1), (3, 4, 4, 0, 0, 2), (3, 5, 5, 2, 0, 4), (1, 9, 2, 3, 0, 1)]] +
     [{"entry": "c07_custom", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in range(1, 18)] +
     [{"entry": "c07_custom_resized", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in range(1, 18)] +
     [{"entry": "c07_custom_resized", "params": {"f": f, "depth": 5}, "covers": ["done"], "traces": 4} for f in (1, 6, 9, 13, 16)] +
     [{"entry": "c07_custom", "params": {"f": 10, "depth": 4}, "covers": ["refused", "done"], "traces": 4}] +
     [{"entry": "c07_3d_images", "params": dict(w=w, h=h, d=d, srgb=g, filter=fl), "covers": ["done"], "traces": 3, "weight": 2}
      for (w, h, d, g, fl) in [(4, 3, 4, 0, 0), (5, 4, 8, 0, 1), (3, 6, 5, 0, 3), (4, 4, 2, 1, 0), (2, 5, 7, 1, 1), (6, 1, 4, 0, 2)]] +
     [{"entry": "c07_refused", "covers": ["failed", "generated"]}],
     bounds="Every combination of none/once/continue (and for 3D textures, missing or differing depths) custom images on levels 1 to 3 of two surfaces, every 32-bit level count, base images of a symbolic or distinct constant colour up to 9 pixels wide, 3 layers, 6 faces and 8 slices (custom levels 2 to 11 of textures up to 2100 pixels wide and 70 slices), custom images of other sizes, formats and colour spaces, all filters; images with a different value in every pixel (one symbolic) compared pixel by pixel with resized images, and for 3D textures with the average of the resized slices; custom images of every format and colour space, with different pixels at the level's own size, and of one colour (16 values) at three other sizes with every filter.",
     outside="Larger images, custom images on more than two surfaces at once, how FreeImage_Rescale weighs pixels (modelled as nearest neighbour; every path's input is also run against the real library), the slices an uneven box counts.",
     assumptions=["FreeImage_Rescale keeps an image of one colour at that colour within 1/512."])


def container(entry):
    geo = [(9, 0), (11, 1), (19, 5), (24, 2)]
    return ([{"entry": entry, "params": {"f": f, "t": t}, "covers": ["done"], "traces": 3} for f, (n, m) in enumerate(FMT) for t in range(6) if m >> t & 1] +
            [{"entry": entry, "params": {"geometry": 1, "kind": k, "f": f, "t": t}, "covers": ["done"], "traces": 3, "weight": 2, } for k in range(4) for f, t in geo] +
            [{"entry": entry, "params": {"geometry": 2, "big": b, "f": 9 if b % 2 else 13, "t": 0}, "covers": ["done"], "traces": 2} for b in range(12)] +
            [{"entry": entry, "params": {"geometry": 1, "kind": k, "w1": 13, "f": 9, "t": 0}, "covers": ["done"], "traces": 3, "weight": 2, "tiers": ("thorough",)} for k in range(4)])


CONTAINER_BOUNDS = ("All pairs of format and type, all four texture kinds, both colour spaces, all alpha modes, arrays of 0 or 2, one or two mip levels at one size; and for four "
                    "formats every size up to 5x3 (thorough: 13x3), 0 to 2 layers or 1 to 3 slices and 1 to 3 mip levels; twelve large textures (up to 70000 pixels, 300 layers, 12 levels). The last texel of the file is symbolic, all others are distinct constants.")
CONTAINER_OUTSIDE = "Larger textures, compressed formats (not in this build), 1D textures given a height other than one."
for _i, _n in (("C08", "c08"), ("C09", "c09"), ("C10", "c10")):
    spec(_i, [_n + ".cpp"], container(_n), bounds=CONTAINER_BOUNDS, outside=CONTAINER_OUTSIDE)

# Block-compressed formats, in the order of Texture::Format from BC1_RGB on: (index, texel types).
BLOCKS = [(k, t) for k in range(34) for t in ([0, 1] if k in (4, 5, 12, 13) else [4, 5] if k == 6 else [0, 4] if 14 <= k < 28 else [0])]
spec("C26", ["c26.cpp"],
     [{"entry": "c26_values", "params": dict(k=k, t=t), "covers": ["done"], "traces": 4} for (k, t) in BLOCKS] +
     [{"entry": "c26_sizes", "params": dict(k=k, t=t, channel=(k + t) % (2 if t == 1 else 4)), "covers": ["done"], "traces": 2} for (k, t) in BLOCKS] +
     [{"entry": "c26_threads", "params": dict(k=k, t=t, w=w, h=h, threads=n), "covers": ["done"], "traces": 2, "time": 40} for (k, t) in [(0, 0), (1, 0), (5, 1), (6, 4), (7, 0), (11, 0), (14, 0), (16, 4)] for (w, h, n) in [(6, 4, 2), (9, 3, 2), (9, 9, 2), (6, 6, 3)]] +
     [{"entry": "c26_surfaces", "params": dict(k=k, t=t), "covers": ["done"], "traces": 2} for (k, t) in [(0, 0), (2, 0), (5, 0), (6, 5), (7, 0), (9, 0), (13, 1), (14, 0), (18, 4), (30, 0)]] +
     [{"entry": "c26_history", "params": dict(family=f, steps=n, threads=th), "covers": ["done"], "traces": 2} for (f, n, th) in [(0, 3, 1), (0, 2, 2), (1, 2, 1)]],
     encoders=True,
     bounds="Every block-compressed format and type: one whole block with one symbolic float channel (magnitudes up to 1e6) in its first or last pixel, every quality, alpha mode and (for one channel) color mask and color space; sizes of 1, b-1, b, b+1, 2b-1 and 2b+1 pixels each way for blocks of b pixels (PVRTC: 1, 3, 4, 5, 7 and 9) with every pixel of every block selected symbolically; every schedule of 2 or 3 threads over two to nine blocks for eight formats; every level, layer, slice and face of textures of all kinds with three levels; every history of 2 or 3 ASTC conversions over two formats, profiles and qualities (two threads: 2) and of 2 BC conversions.",
     outside="What the third-party encoders make of a block (stand-ins in model/encoders record which pixels and settings they are given and check what they are called with), the search effort a quality stands for, the ISPC code paths, larger textures.",
     assumptions=["The encoder libraries are replaced by stand-ins with the same interface, written from their use and documentation: the submodules are absent from this sandbox."])

spec("C27", ["c27.cpp"],
     [{"entry": "c27_queries", "covers": ["done"], "traces": 2}] +
     [{"entry": "c27_convert", "params": {"k": k}, "covers": ["converted", "refused"], "traces": 2} for k in range(34)] +
     [{"entry": "c27", "params": dict(k=k, t=t, container=c), "covers": ["done"], "traces": 2} for (k, t) in BLOCKS for c in range(3)] +
     [{"entry": "c27", "params": dict(k=k, t=t, container=c, geometry=1, kind=kd), "covers": ["done"], "traces": 2, "weight": 2, "tiers": ("quick", "thorough") if (k + kd) % 2 == 0 else ("thorough",)}
      for (k, t) in [(1, 0), (4, 1), (6, 4), (9, 0), (16, 0), (30, 0)] for c in range(3) if c or k < 8 for kd in range(4)],
     encoders=True,
     bounds="Every block-compressed format with every 32-bit type and container in the queries; conversion of every format with every type in both color spaces and all kinds of texture; files of every valid pair in all three containers for all kinds, color spaces, alpha modes, arrays of 0 or 2 and one or two levels, and for six pairs sizes of 1 to 13 by 1 to 9 pixels around multiples of the block, 0 to 2 layers or 1 to 3 slices and 1 to 3 levels. The last texel is symbolic.",
     outside="Larger textures, the contents of a block (C26).",
     assumptions=["The encoder libraries are replaced by the stand-ins of C26."])

spec("C28", ["c28.cpp"],
     [{"entry": "c28_words", "params": {"k": k}, "covers": ["accepted", "refused"], "traces": 3} for k in range(34)] +
     [{"entry": "c28_options", "params": {"k": k}, "covers": ["accepted", "refused"], "traces": 3} for k in range(34)] +
     [{"entry": "c28_run", "params": dict(k=k, t=t, container=1 if k < 8 and k % 2 else 2 + (k + t) % 2, channel=(k + t) % (2 if t == 1 else 4)), "covers": ["done"], "traces": 3} for (k, t) in BLOCKS],
     tool=True, encoders=True,
     bounds="Every block-compressed format name with any one byte replaced or appended, in the case written or lower case; every format with every type or none, every container (by name or option), both color spaces, every alpha mode and both orders of format and type; runs of the tool on a 6x5 image with one symbolic byte for every valid pair with each alpha mode, quality, sRGB, two levels or a swizzle that drops channels.",
     outside="Other options together with these formats (C20 and C21 decide them for uncompressed formats), the contents of a block (C26).",
     assumptions=["The encoder libraries are replaced by the stand-ins of C26."])

spec("C24", ["c24.cpp"], [{"entry": "c24_name", "params": {"n": n}, "covers": ["done"], "tiers": ("quick", "thorough") if n <= 12 or n in (16, 20, 21, 24, 32, 40) else ("thorough",)} for n in list(range(0, 25)) + [32, 40, 64, 100]] + [{"entry": "c24_save", "params": {"first": f}, "covers": ["done"]} for f in range(3)],
     bounds="Every name of 0 to 12, 16, 20, 21, 24, 32 and 40 (thorough: 0 to 24, 32, 40, 64 and 100) arbitrary non-zero bytes; saving under twelve shapes of names with every letter case of the last three characters and every requested type.",
     outside="Longer names (only the last four bytes are looked at), locales other than C.")

spec("C22", ["c22.cpp"],
     [{"entry": "c22_image", "params": {"f": f}, "covers": ["done", "valid", "empty"], "traces": 4} for f in range(1, 18)] +
     [{"entry": "c22_texture", "params": {"kind": k, "stage": s}, "covers": ["done"], "traces": 4, "weight": 2, "tiers": ("quick", "thorough") if k != 0 or s == 4 else ("thorough",)} for k in range(4) for s in range(6)] +
     [{"entry": "c22_custom", "covers": ["done"]}],
     bounds="Images of every format (2x2, one symbolic row, both colour spaces, or empty), textures of every kind at every stage of their life (empty, initialised, partly set, complete, converted to integers or floats; 2x2, one symbolic texel), custom mips owning their image or not: copy and move construction and assignment over nothing or other contents, self-assignment, followed by any of six to seven changes of either value. Every memory access is checked against released and foreign memory.",
     outside="Larger images, longer sequences of copies, failing allocations.")

spec("C13", ["c13.cpp"],
     [{"entry": "c13_set", "params": {"f": f, "gray": 0}, "covers": ["done"], "traces": 4, "weight": 2} for f in range(1, 18)] +
     [{"entry": "c13_set", "params": {"f": f, "gray": 1}, "covers": ["done"], "traces": 4, "weight": 2} for f in range(1, 18)] +
     [{"entry": "c13_set", "params": {"f": f, "gray": 1, "srgb": 1}, "covers": ["done"], "traces": 4, "weight": 3} for f in range(1, 18)] +
     [{"entry": "c13_get", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in range(1, 18)] +
     [{"entry": "c13_big", "params": {"f": f, "w": w, "h": h}, "covers": ["done"], "traces": 2} for f in range(1, 18) for w, h in ((37, 19), (3, 90))] +
     [{"entry": "c13_outside", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in range(1, 18)],
     bounds="Images of every format, 2x2 (up to 3x3 for accesses outside; plain contents: 37x19 and 3x90), every pixel of it, every finite or infinite double in all four channels when writing (grayscale conversions: magnitudes up to 1e12, sRGB grayscale: 0 to 2), every raw content when reading, every 32-bit coordinate.",
     outside="Larger images, NaN written to a pixel.",
     assumptions=["pow is an uninterpreted function checked against the C library on counterexamples."])

spec("C19", ["c19.cpp"],
     [{"entry": "c19_masks", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in range(1, 18)] +
     [{"entry": "c19_codes", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in (3, 4, 5, 8)] +
     [{"entry": "c19_rows", "params": dict(f=f, **p), "covers": ["done", "outside"], "traces": 4} for f in range(1, 18) for p in ({}, {"w": 37, "h": 11})] +
     [{"entry": "c19_loaded", "covers": ["done"]}],
     bounds="Images of every format, made by initialising (once or again), converting from every format, copying, moving, rotating, flipping or loading a BMP; 2x2 to 3x4 pixels (rows: 37x11) with symbolic raw contents, every code of every packed channel, every 32-bit row.",
     outside="Larger images; other codecs than BMP (their decoding belongs to FreeImage); formats whose channels are wider than a byte report no useful masks.")

spec("C14", ["c14.cpp"],
     [{"entry": "c14", "params": {"s": f, "t": t}, "covers": ["same" if f == t else "done"], "traces": 3} for f in range(1, 18) for t in range(1, 18)] +
     [{"entry": "c14_rows", "params": {"s": f, "w": w, "h": h}, "covers": ["done", "refused"], "traces": 3} for f in range(1, 18) for w, h in ((35, 3), (2, 19))] +
     [{"entry": "c14_rows", "params": {"s": f}, "covers": ["done", "refused"], "traces": 3} for f in range(1, 18)],
     bounds="Every pair of formats, both colour spaces, with and without grayscale conversion: a pixel of arbitrary contents (NaN excluded) next to a fixed one; for conversions to a luminance, one channel of arbitrary contents (floating point and 32-bit integers: 4096 values, from -0.5 to 1.5 or all over the range) with two values for each other channel; sizes up to 3x3, 35x3 and 2x19 with fixed contents.",
     outside="Larger images, NaN, luminance of other combinations of channels.")

spec("C15", ["c15.cpp"],
     [{"entry": "c15_move", "params": {"f": f}, "covers": ["done"], "traces": 6, "weight": 2} for f in range(1, 18)] +
     [{"entry": "c15_move", "params": {"f": f, "w1": 5, "h1": 4}, "covers": ["done"], "traces": 6, "weight": 2, "tiers": ("thorough",)} for f in range(1, 18)] +
     [{"entry": "c15_move", "params": {"f": f, "w0": w, "w1": w, "h0": h, "h1": h}, "covers": ["done"], "traces": 2, "weight": 2} for f in range(1, 18) for w, h in ((19, 10), (3, 37), (70, 2))] +
     [{"entry": "c15_swizzle", "params": {"f": f, "w": 33, "h": 3}, "covers": ["done"], "traces": 2} for f in range(1, 18)] +
     [{"entry": "c15_swizzle", "params": {"f": f}, "covers": ["done"], "traces": 4, "weight": 3} for f in range(1, 18)] + [{"entry": "c15_none", "covers": ["done"]}],
     bounds="Images of every format up to 3x3 (thorough: 5x4), 19x10, 3x37 and 70x2 with one row of arbitrary contents (NaN excluded), all six rotations and both flips; all 625 swizzles of 2x2 images, five of 33x3.",
     outside="Larger images, NaN.",
     assumptions=["FreeImage_Rotate and the flips are modelled for multiples of 90 degrees; every path's input is also run against the real library."])

spec("C16", ["c16.cpp"],
     [{"entry": "c16_constant", "params": {"f": f}, "covers": ["done", "same"] + (["refused"] if f in (11, 13, 14, 16, 17) else []), "traces": 6, "weight": 3} for f in range(1, 18)] +
     [{"entry": "c16_constant", "params": {"f": f, "big": 1}, "covers": ["done"] + (["refused"] if f in (11, 13, 14, 16, 17) else []), "traces": 4} for f in range(1, 18)] +
     [{"entry": "c16_srgb", "query_ms": 20000, "params": {"f": f}, "covers": ["done"], "traces": 4, "weight": 2} for f in range(1, 18)] +
     [{"entry": "c16_fallback", "params": {"f": f}, "covers": ["done"], "traces": 4, "weight": 3} for f in (11, 13, 14, 16, 17)] +
     [{"entry": "c16_fallback_large", "params": {"f": f}, "covers": ["done"], "traces": 4, "weight": 3} for f in (11, 13, 14, 16, 17)] +
     [{"entry": "c16_filter", "params": {"f": f}, "covers": ["done"], "traces": 8} for f in (1, 2, 5, 6, 7, 8, 9, 10, 12, 15)] +
     [{"entry": "c16_refused", "covers": ["done"]}],
     bounds="Images of every format of 1 to 4 by 1 to 3 pixels of one arbitrary colour (floating point: 1024 values in one channel, 32-bit integers: 4096), resized to 1 to 5 by 1 to 3 pixels with every filter (and five larger sizes up to 128x65); in sRGB 2x2 images of one or four colours; five sizes up to 9x11 compared with what FreeImage gives for the filter asked for (a pixel of any code, the others fixed); for the formats resized by the library itself (Int16, Int32, UInt32, Double, Complex) images of differing pixels, one of them of 256 values, of 1 to 4 by 1 to 2 pixels and seven larger sizes up to 40 pixels wide or high, whose results are the averages with the weights of the filter.",
     outside="Larger sizes; the values of images of differing colours in the formats resized by FreeImage.",
     assumptions=["FreeImage_Rescale keeps an image of one colour at that colour."])

spec("C17", ["c17.cpp"],
     [{"entry": e, "params": {"f": f}, "covers": ["done"] + (["same"] if e == "c17_space" else []), "traces": 4, "weight": 2} for e in ("c17_space", "c17_gray", "c17_premultiply", "c17_all") for f in range(1, 18)] +
     [{"entry": "c17_all", "params": {"f": f, "big": 1}, "covers": ["done"], "traces": 3} for f in range(1, 18)] +
     [{"entry": "c17_write", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in (1, 2, 15, 16)],
     bounds="Images of every format: a pixel of which one channel takes every code (floating point: 1024 values, 32-bit integers: 4096) and the others two values each, next to a fixed one; sizes up to 3x3, 67x3 and 5x41 with plain contents; writing a colour of which one channel takes 1024 values to one-channel images.",
     outside="Larger images, other combinations of channel values.",
     assumptions=["pow and sqrt are those of the C library."])

spec("C18", ["c18.cpp"],
     [{"entry": "c18", "params": {"s": s, "t": 7, "factors": 3}, "covers": ["done"], "traces": 6, "weight": 3} for s in (1, 8, 15)] +
     [{"entry": "c18", "params": {"s": s, "t": 10, "w1": 2, "h1": 2}, "covers": ["done"], "traces": 4, "weight": 1} for s in range(1, 18)] +
     [{"entry": "c18", "params": {"s": 15, "t": t, "h1": 2}, "covers": ["done"], "traces": 4, "weight": 2} for t in range(1, 18)] +
     [{"entry": "c18", "params": {"s": 15, "t": t, "factors": 3, "w1": 4}, "covers": ["done"], "traces": 4, "weight": 2, "tiers": ("thorough",)} for t in range(1, 18)] +
     [{"entry": "c18", "params": {"s": s, "t": t, "w0": w, "w1": w, "h0": h, "h1": h}, "covers": ["done"], "traces": 3} for s, t, w, h in ((15, 7, 19, 5), (1, 10, 4, 33), (9, 8, 40, 2), (15, 10, 1, 20), (5, 7, 30, 1))] +
     [{"entry": "c18_none", "covers": ["done"]}],
     bounds="Height images of every format up to 3x3 (five larger sizes up to 40x33) in which the height of any one pixel takes every code (floating point and integers: 1024 values) and the others are fixed; every combination of options; factors 1, 0, -2.5 and 40; every output format.",
     outside="Larger images, other heights, output formats of one normalised channel (their meaning is not defined).",
     assumptions=["sqrt is that of IEEE 754."])

spec("C23", ["c23.cpp"],
     [{"entry": "c23_adjust", "params": {"f": f}, "covers": ["untouched"] + (["done"] if f in (1, 2, 3, 4, 5, 6, 8, 9) else []), "traces": 5, "weight": 2} for f in range(1, 18)] +
     [{"entry": "c23_store", "params": {"f": f, "t": t}, "covers": ["done"], "traces": 4} for f in (1, 2, 3, 4, 5, 6, 8, 9) for t in range(3)] + [{"entry": "c23_none", "covers": ["done"]}] +
     [{"entry": "c23_sizes", "params": {"f": f}, "covers": ["done"], "traces": 4} for f in (1, 2, 3, 4, 5, 6, 8, 9)],
     bounds="Images of every format with a pixel of arbitrary contents (NaN excluded), used as they are or after conversion to floating point, every target type, both colour spaces; storing through a 1x1 texture of 8 or 16 bits per channel, and images of 3x2, 1x9, 37x5, 70x1, 2x70 and 300x33 with the pixel in every place through textures of that size.",
     outside="Other sizes.")

spec("C11", ["c11.cpp"],
     [{"entry": e, "params": {"ft": ft, "kind": k, "layers": l}, "covers": ["ok", "failed"], "traces": 12, "weight": 2} for e in ("c11_texture_file", "c11_texture_stream") for ft in range(3) for k, l in ((1, 0), (0, 2), (2, 2), (3, 0))] +
     [{"entry": e, "params": {"ft": ft, "w": 72, "h": 60, "levels": 1, "f": 14}, "covers": ["ok", "failed"], "traces": 13, "weight": 3} for e in ("c11_texture_file", "c11_texture_stream") for ft in range(3)] +
     [{"entry": e, "params": p, "covers": ["ok", "failed"], "traces": 12} for e in ("c11_image_file", "c11_image_stream") for p in ({}, {"w": 1, "h": 5}, {"w": 64, "h": 46})] +
     [{"entry": e, "params": {"ft": ft, "f": f, "w": 3, "h": 2, "kind": k, "levels": l, "layers": 2 if k == 2 else 0}, "covers": ["ok", "failed"], "traces": 8, "weight": 2} for e in ("c11_texture_file", "c11_texture_stream") for ft in range(3) for f, k, l in ((10, 1, 1), (11, 1, 2), (12, 3, 1), (10, 2, 2), (21, 0, 1)) if ft or f not in (12, 21)] +
     [{"entry": "c11_refused", "covers": ["done", "unwritable", "invalid", "unknown", "failed before"]}, {"entry": "c11_image_refused", "covers": ["done", "unknown"]}],
     bounds="The offset of the first byte that cannot be written is symbolic over the whole file (up to 18 KB), for DDS, KTX and PVR textures of each dimension (2x2, two levels, one symbolic texel; 72x60 for large ones) and 24 and 32 bit BMP images; destinations that cannot be opened, are unknown or have already failed.",
     outside="Codecs other than BMP (FreeImage's own code is modelled), destinations that fail and later recover, larger files.",
     assumptions=["Streams and C files behave as in libstdc++ and glibc: errors of buffered data appear when the buffer is written out. Every path's input is also run against the real libraries with a file size limit."])

spec("C12", ["c12.cpp"],
     [{"entry": "c12_texture", "params": {"ft": ft, "kind": k}, "covers": ["done"], "traces": 12, "weight": 2} for ft in range(3) for k in range(4)] +
     [{"entry": "c12_texture", "params": {"ft": ft, "w": 2, "f": int(f), "t": t}, "covers": ["done"], "traces": 4} for ft in range(3) for f, t in ((11, 0), (20, 5), (24, 3), (27, 4))] +
     [{"entry": "c12_image", "params": dict(p, alpha=a), "covers": ["done", "pieces", "not seekable"], "traces": 20, "weight": 2} for a in (0, 1) for p in ({}, {"w": 1, "h": 4})] +
     [{"entry": "c12_image", "params": {"alpha": a, "w": 40, "h": 36}, "covers": ["done", "pieces", "not seekable"], "traces": 12, "weight": 3} for a in (0, 1)] +
     [{"entry": "c12_codec", "params": {"f": f, "codec": c}, "covers": ["done"], "traces": 6} for c, fs in ((0, (1, 3, 4, 5, 8)), (1, (1, 2, 5, 6, 8, 9, 12)), (2, (1, 2) + tuple(range(5, 18)))) for f in fs] +
     [{"entry": "c12_bitmap", "params": {"bpp": b, "kind": k}, "covers": ["done"], "traces": 6} for b, ks in ((1, (0, 2, 3, 4, 6)), (4, (0, 1, 2, 3, 4, 6)), (8, range(7)), (16, range(3)), (24, (0,)), (32, (0,))) for k in ks] +
     [{"entry": "c12_cut", "params": {"bpp": b}, "covers": ["loaded", "refused"], "traces": 12} for b in (1, 4, 8, 16, 24, 32)] +
     [{"entry": "c12_image", "params": {"alpha": a, "w": w, "h": 90, "few": 1}, "covers": ["done", "pieces", "not seekable"], "traces": 4, "weight": 3} for a, w in ((1, 60), (0, 130))] +
     [{"entry": "c12_refused", "covers": ["done"]}],
     bounds="DDS, KTX and PVR textures of each dimension with a symbolic texel, saved to streams, memory and files that are new or have contents; images of every format with a symbolic pixel saved by every one of the three codecs that keeps it; 24 and 32 bit BMP images with symbolic pixels up to 130x90; bitmaps of 1 to 32 bits with seven kinds of palettes and a symbolic color, either row order, gaps, and cut off at 13 places; read from files, memory, seekable streams at any position and streams that cannot seek, delivered in pieces of several sizes; data that is no image.",
     outside="FreeImage's own code (a model of BMP, and one lossless layout for both PNG and TIFF, stands for it; every path's input also runs through the real one), compressed bitmaps, images damaged otherwise, larger sizes. The bytes of gaps in TIFF files.",
     assumptions=["Streams and C files behave as in libstdc++ and glibc; every path's input is also run against the real libraries."])

spec("C20", ["c20.cpp"],
     [{"entry": "c20_options", "params": {"row": r, "format": r % 3, "swap": r % 2, "long": r // 2 % 2}, "covers": [], "traces": 3, "weight": 2} for r in range(66)] +
     [{"entry": "c20_options", "params": {"row": r, "format": f, "swap": w, "long": 0}, "covers": [], "traces": 3, "weight": 2, "tiers": ("thorough",)} for r in range(66) for f in range(3) for w in range(2)] +
     [{"entry": "c20_words", "params": {"o": o}, "covers": ["accepted", "refused"], "traces": 6, "weight": 2} for o in range(11)] +
     [{"entry": "c20_numbers_long", "params": {"o": o, "half": h}, "covers": ["refused", "accepted"], "traces": 4} for o in range(5) for h in range(2)] +
     [{"entry": "c20_numbers", "params": {"o": o, "max": 3 if o < 5 else 2}, "covers": ["refused"] + (["accepted"] if o < 6 else []), "traces": 6} for o in range(7)] +
     [{"entry": "c20_names", "params": {"long": l}, "covers": ["accepted", "refused"], "traces": 6, "weight": 2} for l in range(2)] +
     [{"entry": "c20_formats", "params": {"f": f}, "covers": ["accepted", "refused"], "traces": 2} for f in range(1, 29)] +
     [{"entry": "c20_inputs", "params": {"n": 2, "d": d}, "covers": ["accepted", "refused"], "traces": 6} for d in (1, 2, 3)] +
     [{"entry": "c20_inputs", "params": {"n": 3, "d": 2}, "covers": ["accepted", "refused"], "traces": 6, "weight": 2}] +
     [{"entry": "c20_cubes", "params": p, "covers": ["accepted", "refused"], "traces": 4} for p in ({"cubes": 1}, {"cubes": 1, "array": 1}, {"cubes": 2}, {"cubes": 3})] +
     [{"entry": "c20_list", "params": {"max": 4}, "covers": ["accepted", "refused"], "traces": 6}, {"entry": "c20_list", "params": {"max": 6}, "covers": ["accepted", "refused"], "traces": 6, "tiers": ("thorough",)}] +
     [{"entry": "c20_mips", "params": {"d": d, "sep": s}, "covers": ["accepted", "refused"], "traces": 6, "weight": 2} for d, s in ((2, 0), (3, 1), (2, 2), (2, 1))] +
     [{"entry": "c20_mips2", "params": {"d": d}, "covers": ["accepted", "refused"], "traces": 6} for d in (2, 3)] +
     [{"entry": "c20_miplist", "params": {"max": 5}, "covers": ["accepted", "refused"], "traces": 6}, {"entry": "c20_miplist", "params": {"max": 7}, "covers": ["accepted", "refused"], "traces": 6, "tiers": ("thorough",)}] +
     [{"entry": "c20_any", "params": {"o": o}, "covers": ["done"], "traces": 4, "weight": 2} for o in range(10)] +
     [{"entry": "c20_swizzle", "covers": ["accepted", "refused"]}, {"entry": "c20_missing", "covers": ["done"]}, {"entry": "c20_required", "covers": ["done", "ok"]}],
     tool=True,
     bounds="Every documented option and value with every other one, at every position among the required options; each letter of every option and value word replaced or followed by a symbolic byte; numbers and swizzles of up to 3 and 5 symbolic bytes, eight long numbers around the limits with any byte in four places; every missing argument; sequences of up to three inputs, cubes with any face missing; image lists of up to 4 symbolic bytes, custom mip lists of 5 bytes over an alphabet (thorough: 6 and 7) and with every combination of fields; arbitrary arguments of two symbolic bytes after each option.",
     outside="Longer command lines, lists so long that memory runs out, floating point notations beyond decimal numbers.")

spec("C21", ["c21.cpp"],
     [{"entry": "c21_pipeline", "params": {"k": k, "mask": m, "in": (k + m) % 5, "ft": m % 3}, "covers": ["done"], "traces": 4, "weight": 3} for k in range(6) for m in range(8)] +
     [{"entry": "c21_pipeline", "params": {"k": k, "mask": m, "in": i, "ft": 1}, "covers": ["done"], "traces": 4, "weight": 3, "tiers": ("thorough",)} for k in range(6) for m in range(8) for i in range(5)] +
     [{"entry": "c21_kinds", "params": {"kind": k, "normal": n, "f": n, "ft": 1}, "covers": ["done", "custom"], "traces": 4, "weight": 4} for k in range(4) for n in range(2)] +
     [{"entry": "c21_sizes", "params": {"k": k, "w1": 5}, "covers": ["done"], "traces": 4, "weight": 2} for k in range(14)] +
     [{"entry": "c21_sizes", "params": {"k": k, "wide": n}, "covers": ["done"], "traces": 4, "weight": 2} for k, n in ((0, 1), (1, 9), (4, 1), (11, 9), (0, 17), (1, 17), (0, 25), (1, 25))] +
     [{"entry": "c21_sizes", "params": {"k": k, "w1": 18}, "covers": ["done"], "traces": 4, "weight": 2, "tiers": ("thorough",)} for k in range(14)] +
     [{"entry": "c21_write", "params": {"ft": f}, "covers": ["ok", "failed"]} for f in range(3)] +
     [{"entry": "c21_errors", "covers": ["ok", "failed"]}, {"entry": "c21_mips_refused", "covers": ["done"]}, {"entry": "c21_output", "covers": ["done"]}],
     tool=True,
     bounds="Every combination of the image operations on a 3x2 image of five formats with a symbolic byte, for six formats and types; single images, arrays, 3D textures, cubes and cube arrays up to 5x4 with and without mip levels and a custom mip; sizes by every word for images up to 5x7 (thorough: 18x7) and by one's own size for 32 lengths up to 3333; a symbolic offset of the first byte that cannot be written; missing and damaged inputs, outputs that cannot be written.",
     outside="Larger images, several jobs at once (see C03), compressed formats.",
     assumptions=["FreeImage_Rescale is replaced by nearest neighbour sampling in the symbolic run; every path's input is also run against the real library."])
