PIX = """(set-logic QF_NIA)
(declare-const w Int)(declare-const h Int)(declare-const r Int)(declare-const c Int)(declare-const np Int)
(assert (and (<= 0 r) (< r h) (<= 0 c) (< c w) (>= np 1)))
(assert (not (<= (+ (* r np w) (* c np) np) (* w h np))))
(check-sat)"""
DIMS = [(0, 0), (1, 1), (3, 2), (0, 5), (5, 0), (256, 256), (32768, 3), (3, 65535), (32768, 32768), (65535, 65535)]
goals = [
    Goal("init_full", src="p01_bitmap.c", entry="h_init_full", solver="cvc5", functions=["at_bitmap_init"], concretise=["init_%d_%d" % d for d in DIMS]),
    Goal("init_area", src="p01_bitmap.c", entry="h_init_area", functions=["at_bitmap_init", "at_bitmap_get_width", "at_bitmap_get_height", "at_bitmap_get_planes"]),
    Goal("copy_full", src="p01_bitmap.c", entry="h_copy_full", solver="cvc5", concretise=["copy_%d_%d" % d for d in DIMS if d[0] * d[1]], functions=["at_bitmap_copy", "at_bitmap_new", "at_bitmap_free"]),
    Goal("color_full", src="p01_bitmap.c", entry="h_color_full", solver="cvc5", concretise=["color_%d_%d" % d for d in DIMS if d[0] * d[1]], functions=["at_bitmap_get_color", "at_bitmap_equal_color"]),
]
for w, h in DIMS:
    d = ["VP_D0=%d" % w, "VP_D1=%d" % h]
    for k in ("init", "copy", "color"):
        if k == "color" and w * h == 0: continue
        goals.append(Goal("%s_%d_%d" % (k, w, h), src="p01_bitmap.c", entry="h_%s_dims" % k, defs=d,
                          bound="width=%d height=%d" % (w, h), timeout=60, tier="fallback"))
PROP = dict(id="P01", level="proof", goals=goals, assumptions=["planes is 1 or 3, as documented"],
            lemmas=[("pixel_in_bounds", PIX)])
