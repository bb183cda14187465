import struct
S = dict(src="p08_bmp.c", srcs=["autotrace.c", "color.c", "exception.c"], unwind=1500, flags=["--max-field-sensitivity-array-size", "1500", "--object-bits", "11"],
         functions=["input_bmp_reader", "ReadColorMap", "ReadChannelMasks", "setMasksDefault", "ReadImage", "ToL", "ToS"])
u16 = lambda v: list(struct.pack("<H", v & 0xffff)); u32 = lambda v: list(struct.pack("<I", v & 0xffffffff))
def bmp(w, h, bpp, hs=40, comp=0, used=0, paln=0, body=None, extra=0, masks=None, magic=b"BM", planes=1, cut=0, pal=None, trail=0, neg=False):
    pals = 3 if hs == 12 else 4
    masks = masks or (0, 0, 0, 0)
    mtail = []
    if hs == 40 and comp == 3:
        mtail = sum((u32(m) for m in masks[:3]), [])
    off = 14 + hs + len(mtail) + paln * pals + extra
    f = list(magic) + u32(0) + u16(0) * 2 + u32(off) + u32(hs)
    if hs == 12:
        f += u16(w) + u16(h) + u16(planes) + u16(bpp)
    else:
        f += u32(-w if neg else w) + u32(h) + u16(planes) + u16(bpp) + u32(comp) + u32(0) * 3 + u32(used) + u32(0)
        rest = (hs - 40)
        m = sum((u32(x) for x in masks), []) if hs >= 56 else []
        f += (m + [0] * rest)[:rest]
    f += mtail
    palo = len(f)
    f += pal if pal is not None else [-1] * (paln * pals)
    f += [7] * extra
    row = (w * bpp + 31) // 32 * 4
    f += body if body is not None else ([-1] * (row * abs(h)))
    if cut: f = f[:-cut]
    f += [-1] * trail
    d = ["VP_BYTES=" + ",".join(map(str, f)), "VP_FMAX=%d" % (len(f) + 1), "VP_W=%d" % w, "VP_HT=%d" % abs(h), "VP_TOP=%d" % (h < 0), "VP_BPP=%d" % bpp, "VP_PAL=%d" % palo, "VP_PALN=%d" % paln,
         "VP_PALS=%d" % pals, "VP_OFF=%d" % off, "VP_RLE=%d" % (comp in (1, 2)), "VP_NOFILE=0",
         "VP_MASKS=" + ",".join("0x%x" % m for m in (masks[:3] if comp == 3 else (0x7c00, 0x3e0, 0x1f) if bpp == 16 else (0xff0000, 0xff00, 0xff)))]
    return d
def ok(n, w, h, bpp, **k):
    tail = k.pop("tier", "quick"); 
    return Goal(n, entry="h_indexed" if bpp <= 8 else "h_true", defs=bmp(w, h, bpp, **k), tier=tail, bound="%dx%d, %d bits per pixel, %s; every color map and pixel content not fixed by the goal" % (w, abs(h), bpp, k or "plain header"), **S)
def bad(n, *a, **k):
    return Goal("bad_" + n, entry="h_bad", defs=[x for x in bmp(*a, **k)], bound="one malformed header", **S)
def badraw(n, bs, nofile=0):
    return Goal("bad_" + n, entry="h_bad", defs=["VP_BYTES=" + ",".join(map(str, bs or [0])), "VP_FMAX=64", "VP_NOFILE=%d" % nofile], bound="one malformed file", **S)
def W(w, h, bpp, **k):  # mostly fixed pixels, free at both ends
    n = (w * bpp + 31) // 32 * 4 * abs(h)
    return dict(body=[-1 if i < 2 or i >= n - 2 else (i * 7 + i // 50) % 256 if bpp > 8 or bpp == 1 else (i * 5) % 2 for i in range(n)], **k)
G16 = sum(([i * 17] * 3 + [0] for i in range(16)), [])
G4 = sum(([250 - i * 80] * 3 + [0] for i in range(4)), [])
C = lambda n: sum(([(i * 37 + 5) & 255, (i * 91 + 2) & 255, (i * 13 + 200) & 255, 0] for i in range(n)), [])
def F(n, d, b, **k):
    return Goal(n, entry="h_run", src="p07_run.c", run=True, functions=["input_bmp_reader"], defs=["VP_BMP"] + d, bound=b, **k)
B = dict(src="p08_loops.c", native=False, concretise=["files"], unwind=34)
FILES = [F("files", [], "600 generated files, up to 65535 rows or columns"), F("more_files", ["VP_N=30000", "VP_S=7"], "30000 generated files", tier="thorough", timeout=1500)]
PROP = dict(id="P08", level="proof", assumptions=[], goals=[
    ok("rgb24_2x3", 2, 3, 24), ok("rgb24_4x1", 4, 1, 24), ok("rgb24_top", 3, -3, 24), ok("rgb24_top1", 1, -1, 24), ok("rgb24_top2", 2, -2, 24), ok("rgb24_trail", 1, 2, 24, trail=9), ok("rgb24_gap", 2, 2, 24, extra=5), ok("rgb24_cut", 2, 2, 24, cut=3), ok("rgb24_os2", 2, 2, 24, hs=12),
    ok("rgb32_2x2", 2, 2, 32), ok("rgb32_v4", 2, 2, 32, hs=108), ok("rgb32_v5", 2, 1, 32, hs=124), ok("rgb32_56", 1, 2, 32, hs=56), ok("rgb32_64", 1, 2, 32, hs=64), ok("rgb32_trail", 1, 2, 32, trail=6),
    ok("rgb32_mask", 1, 2, 32, comp=3, masks=(0xff, 0xff00, 0xff0000, 0)), ok("rgb32_v4_mask_alpha", 2, 2, 32, hs=108, comp=3, masks=(0xff000000, 0xff0000, 0xff00, 0xff)),
    ok("rgb32_mask_empty", 1, 1, 32, comp=3, masks=(0xff, 0, 0xff0000, 0)),
    ok("rgb16_2x2", 2, 2, 16), ok("rgb16_3x1", 3, 1, 16), ok("rgb16_565", 1, 2, 16, comp=3, masks=(0xf800, 0x7e0, 0x1f, 0)), ok("rgb16_trail", 1, 1, 16, trail=5),
    ok("i1_3x2", 3, 2, 1, paln=2), ok("i1_9x2", 9, 2, 1, paln=2, pal=C(2)), ok("i1_33x2", 33, 2, 1, paln=2, pal=C(2)), ok("i1_top", 3, -2, 1, paln=2), ok("i1_trail", 3, 2, 1, paln=2, trail=5), ok("i1_os2", 3, 2, 1, hs=12, paln=2),
    ok("i2_5x2", 5, 2, 2, paln=4, pal=C(4)), ok("i2_grey", 5, 2, 2, paln=4, pal=G4),
    ok("i4_3x2", 3, 2, 4, paln=16, pal=C(16)), ok("i4_grey", 3, 2, 4, paln=16, pal=G16), ok("i4_used3", 3, 2, 4, paln=3, used=3, pal=C(3)), ok("i4_9x1", 9, 1, 4, paln=16, pal=G16), ok("i4_cut", 3, 2, 4, paln=16, pal=G16, cut=4),
    ok("i8_used3", 3, 2, 8, paln=3, used=3), ok("i8_used1", 5, 2, 8, paln=1, used=1, pal=C(1)), ok("i8_grey_used", 2, 2, 8, paln=4, used=4, pal=G4), ok("i8_top", 2, -2, 8, paln=3, used=3, pal=C(3)),
    ok("rle8_runs", 4, 2, 8, comp=1, paln=3, used=3, body=[3, -1, 1, -1, 0, 0, 2, -1, 0, 1]), ok("rle8_abs", 4, 2, 8, comp=1, paln=3, used=3, pal=C(3), body=[0, 3, -1, -1, -1, 0, 1, -1, 0, 0, 0, 4, -1, -1, -1, -1, 0, 1]),
    ok("rle8_delta", 4, 3, 8, comp=1, paln=3, used=3, body=[1, -1, 0, 2, 1, 1, 2, -1, 0, 1]), ok("rle8_long", 3, 2, 8, comp=1, paln=3, used=3, body=[9, -1, 0, 0, 0, 7, -1, -1, -1, -1, -1, -1, -1, 0, 0, 0, 5, -1]),
    ok("rle8_cut", 3, 2, 8, comp=1, paln=3, used=3, body=[2, -1]), ok("rle8_grey", 3, 2, 8, comp=1, paln=4, used=4, pal=G4, body=[2, -1, 1, -1, 0, 0, 3, -1, 0, 1]), ok("rle8_deltaout", 3, 2, 8, comp=1, paln=3, used=3, body=[0, 2, 200, 0, 1, -1, 0, 2, 0, 9, 2, -1]),
    ok("rle4_runs", 5, 2, 4, comp=2, paln=16, pal=G16, body=[3, -1, 2, -1, 0, 0, 5, -1, 0, 1]), ok("rle4_abs", 5, 2, 4, comp=2, paln=16, pal=G16, body=[0, 5, -1, -1, -1, 0, 0, 0, 0, 3, -1, -1, 0, 1]),
    ok("rgb24_90x1", 90, 1, 24), ok("rgb24_1x90", 1, 90, 24), ok("rgb24_1x90_top", 1, -90, 24), ok("rgb32_70x1", 70, 1, 32, **W(70, 1, 32)), ok("rgb16_140x1", 140, 1, 16, **W(140, 1, 16)), ok("i8_270x1", 270, 1, 8, **W(270, 1, 8), paln=2, used=2, pal=C(2)), ok("i8_1x70", 1, 70, 8, **W(1, 70, 8), paln=2, used=2, pal=C(2)), ok("i1_270x1", 270, 1, 1, **W(270, 1, 1), paln=2, pal=C(2)), ok("i4_130x1", 130, 1, 4, **W(130, 1, 4), paln=2, used=2, pal=C(2)),
    ok("i8_full", 2, 2, 8, paln=256, pal=C(256)), ok("i8_full_grey", 2, 2, 8, paln=256, pal=sum(([255 - i] * 3 + [0] for i in range(256)), [])),
    ok("rle8_run255", 270, 1, 8, comp=1, paln=2, used=2, pal=C(2), body=[255, 1, 15, -1, 0, 1]), ok("rle8_abs200", 210, 1, 8, comp=1, paln=2, used=2, pal=C(2), body=[0, 200] + [-1] + [1, 0, 0, 1, 1] * 39 + [-1] * 4 + [10, -1, 0, 1]), ok("rle4_run200", 210, 1, 4, comp=2, paln=2, used=2, pal=C(2), body=[200, 0x10, 0, 5, -1, -1, -1, 0, 5, -1, 0, 1]),
    badraw("nofile", [66, 77], 1), badraw("empty", [66]), badraw("magic", [66, 78] + [0] * 30), badraw("short", [66, 77] + [0] * 5), badraw("short2", [66, 77] + [0] * 12), badraw("short3", [66, 77] + [0] * 8 + [54, 0, 0, 0, 40, 0, 0, 0, 1, 0]),
    bad("hs", 1, 1, 24, hs=41), bad("bpp", 1, 1, 23), bad("zero_w", 0, 1, 24), bad("zero_h", 1, 0, 24), bad("wide", 65536, 1, 1, body=[0]), bad("tall", 1, 65536, 1, body=[0]), bad("neg_w", 1, 1, 24, neg=True), bad("min_h", 1, -2**31, 24, body=[0]),
    bad("planes", 1, 1, 24, planes=2), bad("colors", 1, 1, 8, used=257, body=[0]), bad("comp", 1, 1, 24, comp=9), bad("comp24", 1, 1, 24, comp=3), bad("map", 1, 1, 8, paln=3, body=[]),
] + [
    Goal("any_map", entry="h_map", functions=["ReadColorMap"], loops={"ReadColorMap": [dict(
        assigns="i, *grey, vp_log, g_at, g_b, g_g, g_r, g_gray, __CPROVER_object_whole(rgb), __CPROVER_object_whole(buffer)",
        inv="0 <= i && i <= number && g_at == i && i <= g_end && (*grey != 0) == (number > 2 && g_gray) && (g_w < i ? buffer[g_w][0] == g_r && buffer[g_w][1] == g_g && buffer[g_w][2] == g_b : buffer[g_w][0] == g_o0 && buffer[g_w][1] == g_o1 && buffer[g_w][2] == g_o2)",
        dec="number - i")]}, **B),
    Goal("masks", entry="h_masks", functions=["ReadChannelMasks"], **B), Goal("numbers", entry="h_numbers", functions=["ToL", "ToS"], **B), Goal("default", entry="h_default", functions=["setMasksDefault"], **B),
] + FILES)
# a goal that runs out of time is covered by the executed files
for g in PROP["goals"]:
    if not g.run and not g.concretise: g.concretise = ["files"]
