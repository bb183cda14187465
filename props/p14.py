F = ["despeckle", "despeckle_iteration", "despeckle_iteration_8", "find_size", "find_size_8", "find_most_similar_neighbor", "find_most_similar_neighbor_8", "recolor", "recolor_8", "fill", "fill_8", "ignore"]
R = dict(src="p14_despeckle.c", functions=F, run=True, defs=["VP_RUN"])
PROP = dict(id="P14", level="proof", assumptions=[], goals=[
    Goal("error", entry="h_error", src="p14_despeckle.c", native=False, concretise=["all_small", "big"], unwind=4, solver="z3", functions=["calc_error", "calc_error_8"]),
    Goal("all_small", entry="h_all", bound="every image up to 4x3 in two colors at levels 0 to 4, 3x3 in three, 2x3 in five, 4x4 in two at one level each", **R),
    Goal("size", entry="h_size", bound="rows and columns of 65535 pixels, images of 0 to 8 planes", **R),
    Goal("maze", entry="h_maze", bound="one 1000x1000 image", **R),
    Goal("big", entry="h_big", bound="20000 generated images up to 24x24 with 2 to 5 colors at levels 0 to 9", **dict(R, defs=["VP_RUN", "VP_N=20000", "VP_S=1"])),
    Goal("scale", entry="h_scale", bound="60 generated images of about 100000 pixels at levels 10 to 21", **dict(R, defs=["VP_RUN", "VP_N=60", "VP_S=1", "MAXD=450"])),
])
