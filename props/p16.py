F = ["new_distance_map", "free_distance_map"]
R = dict(src="p16_distance.c", functions=F, run=True, defs=["VP_RUN"])
PROP = dict(id="P16", level="proof", assumptions=[], goals=[
    Goal("weight", entry="h_weight", src="p16_distance.c", concretise=["all_small", "big"], unwind=2, functions=F, flags=["--memory-leak-check"], bound="one pixel, every gray, color and target"),
    Goal("all_small", entry="h_all", bound="every two-tone image up to 4x4, 5x3, 3x5, every 3x3 image in three tones, images without rows or columns", **R),
    Goal("big", entry="h_big", bound="3000 generated images up to 20x20", **dict(R, defs=["VP_RUN", "VP_N=3000", "VP_S=1"])),
])
