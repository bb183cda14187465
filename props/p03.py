S = dict(src="p03_color.c")
PROP = dict(id="P03", level="proof", assumptions=[], goals=[
    Goal("parse", entry="h_parse", unwind=17, flags=["--memory-leak-check"], functions=["at_color_parse", "hctoi", "at_color_new", "at_color_free"], **S),
    Goal("parse_long", entry="h_parse_long", defs=["VP_LONG"], unwind=8, native=False, concretise=["parse"], functions=["at_color_parse"], **S),
    Goal("every_luminance", entry="h_every", defs=["VP_ALL"], run=True, bound="all 16777216 colors, executed", functions=["at_color_luminance"], **S),
    Goal("parse_null", entry="h_parse_null", functions=["at_color_parse"], **S),
    Goal("algebra", entry="h_algebra", flags=["--memory-leak-check"], functions=["at_color_equal", "at_color_new", "at_color_copy", "at_color_set", "at_color_free"], **S),
] + [
    Goal("lum_%d_%d_%d" % (o, a, b), entry="h_luminance", defs=["VP_O=%d" % o, "VP_A=%d" % a, "VP_B=%d" % b], bound="one component free, the others fixed at (%d,%d)" % (a, b) if o < 3 else "all three components equal",
         functions=["at_color_luminance"], **S)
    for o, a, b in [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 255, 255), (1, 255, 255), (2, 255, 255), (0, 37, 201), (1, 91, 14), (2, 130, 128), (3, 0, 0)]
])
