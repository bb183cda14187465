R = dict(src="p18_run.c", run=True, defs=["VP_RUN"])
C = [Goal("run", entry="h_run", bound="lists of every kind with up to 70 elements, joined lists up to 12", functions=["concat_spline_lists", "concat_pixel_outline", "free_curve_list_array", "free_spline_list_array"], **R)]
A = dict(concretise=["run"], src="p18_lists.c", native=False, unwind=60, flags=["--no-signed-overflow-check"])
def G(n, f, **k): return Goal(n, entry="h_" + n, functions=f, **dict(A, **k))
PROP = dict(id="P18", level="proof", assumptions=["lists of at most 100000 elements (symbolic length)"], goals=C + [
    G("spline", ["append_spline"]), G("spline_list", ["append_spline_list"]), G("curve", ["append_curve"]), G("curve_list", ["append_curve_list"]),
    G("outline", ["append_pixel_outline"]), G("pixel", ["append_outline_pixel"]), G("point", ["append_point", "append_pixel"]),
    G("empty", ["empty_spline_list", "new_spline_list", "new_spline_list_with_spline", "new_spline_list_array", "new_curve", "copy_most_of_curve", "new_curve_list", "new_curve_list_array", "free_curve", "free_curve_list", "free_spline_list_array"], flags=["--memory-leak-check"]),
])
