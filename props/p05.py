S = dict(src="p05_pipeline.c", flags=["--memory-leak-check"], unwind=3, functions=["at_splines_new_full", "at_splines_new", "at_splines_free", "free_spline_list_array"])
PROP = dict(id="P05", level="proof", goals=[
    Goal("full", entry="h_full", **S),
    Goal("plain", entry="h_plain", **S),
], assumptions=["the stages (despeckle, quantize, distance map, thinning, outline search, fitting) meet the contracts used here: after a fatal error a stage has released what it allocated, and a cancellation request, once made, stays"])
