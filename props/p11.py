F = ["find_outline_pixels", "find_one_outline", "next_point", "is_outline_edge", "is_unmarked_outline_edge", "is_marked_edge", "mark_edge", "append_pixel_outline", "append_outline_pixel", "free_pixel_outline_list"]
R = dict(src="p11_outline.c", functions=F, run=True, defs=["VP_RUN"])
PROP = dict(id="P11", level="proof", assumptions=[], goals=[
    Goal("mark", entry="h_mark", src="p11_outline.c", functions=F[3:7], native=False, concretise=["all_small", "big"], unwind=12),
] + [
    Goal("step%d%s" % (e, "cw" if cw else ""), entry="h_step", src="p11_outline.c", defs=["VP_E=%d" % e, "VP_CW=%d" % cw], functions=F[2:7], native=False, concretise=["all_small", "big"], unwind=12) for e in range(4) for cw in (0, 1)
] + [
    Goal("all_small", entry="h_all", bound="every image up to 4x4, 5x3 and 3x5 in two colors, every 3x3, 4x3, 3x4 image in three, every 2x3 image in four; with and without background; cancelled at every point for 3x3", **R),
    Goal("huge", entry="h_huge", bound="a row and a column of 65535 pixels", **R),
    Goal("big", entry="h_big", bound="4000 generated images up to 16x16 with 2 to 4 colors", **dict(R, defs=["VP_RUN", "VP_N=4000", "VP_S=1"])),
    Goal("mixed_hole", entry="h_mixed_hole", bound="one image", **R),
])
