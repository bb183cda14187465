F = ["quantize", "quantize_object_free", "initialize_median_cut", "generate_histogram_rgb", "zero_histogram_rgb", "select_colors_rgb", "update_box_rgb", "median_cut_rgb", "compute_color_rgb", "median_cut_pass1_rgb", "median_cut_pass2_rgb", "fill_inverse_cmap_rgb", "find_nearby_colors", "find_best_colors", "find_biggest_volume"]
R = dict(src="p15_quantize.c", functions=F, run=True, defs=["VP_RUN"])
N = ["all_small", "big"]
PROP = dict(id="P15", level="proof", assumptions=[], goals=[
    Goal("biggest", entry="h_biggest", src="p15_quantize.c", native=False, concretise=N, unwind=8, functions=["find_biggest_volume"], bound="up to 6 boxes"),
    Goal("split", entry="h_split", src="p15_quantize.c", native=False, concretise=N, unwind=2, functions=["median_cut_rgb"], bound="lists of up to 3 boxes", instrument=[["--replace-calls", "find_biggest_volume:vp_biggest"], ["--replace-calls", "update_box_rgb:vp_update"]]),
    Goal("driver", entry="h_driver", src="p15_quantize.c", native=False, concretise=N + ["special"], unwind=2, functions=["quantize"],
         instrument=[["--replace-calls", x] for x in ("initialize_median_cut:vp_init", "median_cut_pass1_rgb:vp_pass1", "median_cut_pass2_rgb:vp_pass2", "quantize_object_free:vp_qfree")]),
    Goal("nearby", entry="h_nearby", src="p15_quantize.c", native=False, concretise=N, unwind=8, defs=["VP_C=2"], functions=["find_nearby_colors"], bound="2 palette colors", flags=["--no-undefined-shift-check"]),
    Goal("all_small", entry="h_all", bound="every row of up to three pixels from six colors, 1 to 4 colors", **R),
    Goal("special", entry="h_special", bound="all-background images, images of 0 to 8 planes, palette not asked for", **R),
    Goal("big", entry="h_big", bound="120 generated images up to 40x40, 1 to 256 and more colors", **dict(R, defs=["VP_RUN", "VP_N=120", "VP_S=1"])),
])
