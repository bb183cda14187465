F = ["find_centerline_pixels", "find_one_centerline", "next_unmarked_pixel", "is_valid_dir", "is_marked_dir", "is_other_dir_marked", "mark_dir", "num_neighbors", "concat_pixel_outline"]
R = dict(src="p12_centerline.c", functions=F, run=True, defs=["VP_RUN"])
N = ["all_small", "big", "lines", "winding"]
A = dict(src="p12_centerline.c", native=False, concretise=N, unwind=12)
PROP = dict(id="P12", level="proof", assumptions=[], goals=[
    Goal("step", entry="h_step", functions=F[2:6], **A), Goal("mark", entry="h_mark", functions=F[4:7], **A), Goal("neighbors", entry="h_neighbors", functions=F[7:8], **A),
    Goal("all_small", entry="h_all", bound="every image up to 4x4, 5x3 and 3x5 in two colors, every 3x3 and 4x3 image in three; cancelled for every 3x3 image", **R),
    Goal("lines", entry="h_lines", bound="every straight line and rectangle outline in a 9x9 image, away from the first row and column", **R),
    Goal("huge", entry="h_huge", bound="a row and a column of 65534 pixels", **R),
    Goal("winding", entry="h_winding", bound="5000 generated winding lines in images up to 16x16", **dict(R, defs=["VP_RUN", "VP_N=5000", "VP_S=1"])),
    Goal("big", entry="h_big", bound="4000 generated images up to 16x16 with 2 to 4 colors", **dict(R, defs=["VP_RUN", "VP_N=4000", "VP_S=1"])),
])
