F = ["thin_image", "thin1", "thin3"]
R = dict(src="p13_thin.c", functions=F, run=True, defs=["VP_RUN"])
PROP = dict(id="P13", level="proof", assumptions=[], goals=[
    Goal("table", entry="h_table", src="p13_thin.c", native=False, concretise=["all_small", "big"], unwind=10, functions=["todelete"]),
    Goal("copy", entry="h_copy", src="p13_thin.c", defs=["VP_COPY"], native=False, concretise=["all_small", "planes"], unwind=2, functions=["thin_image"], solver="cvc5"),
    Goal("all_small", entry="h_all", bound="every image up to 4x4, 5x3, 3x5 in two colors, 3x3 and 4x2 in three, 2x3 in four", **R),
    Goal("planes", entry="h_planes", bound="3x2 images of 0 to 8 planes", **R),
    Goal("big", entry="h_big", bound="6000 generated images up to 20x20 with 2 to 4 colors", **dict(R, defs=["VP_RUN", "VP_N=6000", "VP_S=1"])),
    Goal("all_54", entry="h_54", tier="thorough", timeout=3000, bound="every 5x4 and 4x5 image in two colors", **R),
    Goal("bigger", entry="h_big", tier="thorough", timeout=3000, bound="400000 generated images up to 20x20 with 2 to 4 colors", **dict(R, defs=["VP_RUN", "VP_N=400000", "VP_S=9"])),
])
