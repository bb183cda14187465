import struct
S = dict(src="p09_tga.c", srcs=["autotrace.c", "color.c", "exception.c"], unwind=1300, flags=["--max-field-sensitivity-array-size", "1300", "--object-bits", "11"],
         functions=["input_tga_reader", "ReadImage", "rle_fread", "std_fread"])
def tga(t, w, h, bpp, flags=0x20, rle=False, mapn=0, mapf=0, maps=24, mtype=None, body=None, idl=0, trail=0, cut=0, pal=None, abits=0):
    idx = t == 1
    hd = [idl, (1 if idx else 0) if mtype is None else mtype, t + (8 if rle else 0)] + list(struct.pack("<HHB", mapf, mapn, maps if idx else 0)) + [0] * 4 + list(struct.pack("<HH", w, h)) + [bpp, flags | abits]
    f = hd + [9] * idl
    palo = len(f)
    ps = (maps + 7) // 8
    if idx: f += pal if pal is not None else [-1] * (mapn * ps)
    off = len(f)
    b = 1 if idx else bpp // 8
    f += body if body is not None else [-1] * (w * h * b)
    if cut: f = f[:-cut]
    f += [3] * trail
    return f, ["VP_BYTES=" + ",".join(map(str, f)), "VP_FMAX=%d" % (len(f) + 60), "VP_W=%d" % w, "VP_HT=%d" % h, "VP_B=%d" % max(b, 1), "VP_RLE=%d" % rle, "VP_FLAGS=%d" % flags, "VP_KIND=%d" % t, "VP_FIRST=%d" % mapf,
            "VP_PALN=%d" % mapn, "VP_PAL=%d" % palo, "VP_PALS=%d" % ps, "VP_OFF=%d" % off, "VP_NOFILE=0"]
def ok(n, t, w, h, bpp, warn=0, **k):
    f, d = tga(t, w, h, bpp, **k)
    return Goal(n, entry="h_ok", defs=d + ["VP_WARN=%d" % warn], bound="image type %d, %dx%d, %d bits, %s; every content not fixed by the goal" % (t, w, h, bpp, k), **S)
def twice(n, first, *a, **k):
    f, _ = tga(*first[0], **first[1])
    g, d = tga(*a, **k)
    return Goal(n, entry="h_twice", defs=d + ["VP_WARN=0", "VP_FIRSTFILE=" + ",".join(map(str, f))], bound="two images read one after the other", **S)
def bad(n, *a, **k):
    nofile = k.pop("nofile", 0); short = k.pop("short", None)
    f, d = tga(*a, **k)
    if short is not None: f = f[:short]
    return Goal("bad_" + n, entry="h_bad", defs=["VP_BYTES=" + ",".join(map(str, f or [0])), "VP_FMAX=96", "VP_NOFILE=%d" % nofile], bound="one malformed file", **S)
C = lambda n, s=3: sum(([(i * 37 + 5) & 255, (i * 91 + 2) & 255, (i * 13 + 200) & 255, 255][:s] for i in range(n)), [])
X = -1
def F(n, d, b, **k):
    return Goal(n, entry="h_run", src="p07_run.c", run=True, functions=["input_tga_reader"], defs=["VP_TGA"] + d, bound=b, **k)
FILES = [F("files", [], "600 generated files, up to 65535 rows or columns"), F("more_files", ["VP_N=30000", "VP_S=7"], "30000 generated files", tier="thorough", timeout=1500)]
PROP = dict(id="P09", level="proof", assumptions=[], goals=[
    ok("rgb", 2, 3, 2, 24), ok("rgb_up", 2, 2, 3, 24, flags=0), ok("rgb_left", 2, 3, 2, 24, flags=0x30), ok("rgb_both", 2, 3, 2, 24, flags=0x10), ok("rgb_id", 2, 2, 1, 24, idl=3), ok("rgb_trail", 2, 2, 1, 24, trail=4), ok("rgb_cut", 2, 2, 2, 24, cut=4),
    ok("rgb_one", 2, 1, 1, 24),
    ok("rgba", 2, 2, 2, 32, abits=8), ok("rgba_up", 2, 2, 2, 32, flags=0, abits=8), ok("rgba_noabits", 2, 2, 1, 32, warn=2),
    ok("gray", 3, 3, 2, 8), ok("gray_up", 3, 2, 3, 8, flags=0), ok("gray_alpha", 3, 2, 2, 16, abits=8), ok("gray_both", 3, 3, 2, 8, flags=0x10),
    ok("map", 1, 3, 2, 8, mapn=3, pal=C(3)), ok("map_free", 1, 2, 1, 8, mapn=2), ok("map_first", 1, 2, 2, 8, mapn=3, mapf=2, pal=C(3)), ok("map_alpha", 1, 2, 2, 8, mapn=3, maps=32, pal=C(3, 4)), ok("map_up", 1, 2, 2, 8, mapn=3, flags=0, pal=C(3)),
    ok("map_left", 1, 3, 1, 8, mapn=3, flags=0x30, pal=C(3)),
    ok("rle_rgb", 2, 3, 2, 24, rle=True, body=[0x82, X, X, X, 2, X, X, X, X, X, X, X, X, X]), ok("rle_rgb_over", 2, 2, 1, 24, rle=True, body=[0x84, X, X, X]), ok("rle_rgb_over2", 2, 2, 1, 24, rle=True, body=[2] + [X] * 9), ok("rle_rgb_cut", 2, 2, 2, 24, rle=True, body=[0x81, X, X, X, 1, X, X]),
    ok("rle_gray", 3, 5, 1, 8, rle=True, body=[0x81, X, 1, X, X, 0, X]), ok("rle_gray_cut", 3, 5, 1, 8, rle=True, body=[0x81, X]), ok("rle_gray_cut2", 3, 5, 1, 8, rle=True, body=[0x81, X, 0x80]), ok("rle_map", 1, 3, 1, 8, rle=True, mapn=3, pal=C(3), body=[0x81, X, 0, X]), ok("rle_rgba", 2, 2, 1, 32, abits=8, rle=True, body=[0x81, X, X, X, X]),
    ok("rle_long", 3, 140, 1, 8, rle=True, body=[0xff, X, 8] + [X] * 9 + [0x82, X]), ok("rle_long2", 3, 70, 2, 8, rle=True, body=[100] + [X] * 101 + [0x80 + 38, X]), ok("rle_long3", 2, 75, 1, 24, rle=True, body=[0x80 + 69, X, X, X, 0x84, X, X, X]),
    ok("wide", 3, 260, 1, 8), ok("wide_left", 3, 130, 1, 8, flags=0x30), ok("tall", 3, 1, 130, 8, flags=0), ok("tall2", 3, 1, 260, 8), ok("wide_map", 1, 70, 1, 8, mapn=3, pal=C(3)), ok("map256", 1, 2, 1, 8, mapn=256, pal=C(256)), ok("map300", 1, 2, 1, 8, mapn=300, pal=C(300)), ok("map_first250", 1, 2, 1, 8, mapn=6, mapf=250, pal=C(6)),
    twice("twice_rle", ((3, 2, 1, 8), dict(rle=True, body=[0x84, 7])), 2, 2, 1, 24, rle=True, body=[0x83, X, X, X]),
    twice("twice_rle2", ((3, 2, 1, 8), dict(rle=True, body=[4, 1, 2, 3, 4, 5])), 3, 2, 1, 8, rle=True, body=[0x81, X]),
    bad("nofile", 2, 1, 1, 24, nofile=1), bad("empty", 2, 1, 1, 24, short=1), bad("short", 2, 1, 1, 24, short=17), bad("type", 4, 1, 1, 24), bad("type0", 0, 1, 1, 24), bad("bpp16", 2, 1, 1, 16), bad("gray4", 3, 1, 1, 4, body=[0]), bad("index16", 1, 1, 1, 16, mapn=2), bad("map16", 1, 1, 1, 8, mapn=2, maps=16),
    bad("nomap", 1, 1, 1, 8, mapn=2, mtype=0), bad("mapped_rgb", 2, 1, 1, 24, mtype=1), bad("map0", 1, 1, 1, 8, mapn=0), bad("mapcut", 1, 1, 1, 8, mapn=3, pal=[1, 2], body=[]), bad("zero_w", 2, 0, 1, 24), bad("zero_h", 2, 1, 0, 24), bad("huge", 2, 65535, 65535, 24, body=[0]),
] + FILES)
# a goal that runs out of time is covered by the executed files
for g in PROP["goals"]:
    if not g.run and not g.concretise: g.concretise = ["files"]
