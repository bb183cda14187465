F = ["fitted_splines", "find_corners", "find_vectors", "remove_adjacent_corners", "remove_knee_points", "filter", "find_tangent", "find_half_tangent", "set_initial_parameter_values", "fit_one_spline", "find_error", "spline_linear_enough", "change_bad_lines"]
R = dict(src="p19_run.c", functions=F, run=True)
N = ["ref_small", "ref_pictures"]
def C(n, f, reps=(), **k):
    return Goal(n, entry="h_" + n, src="p19_fit.c", native=False, concretise=N, functions=f, instrument=[["--replace-calls", r] for r in reps], **dict(dict(unwind=8), **k))
PROP = dict(id="P20", level="proof", assumptions=["curves of at most 100000 points (symbolic) in the goal squares", "the angle at a pixel, checked against the true one to 0.001 degrees (0.3 next to 0 and 180), is used in the reference as the code rounds it"], goals=[
    C("squares", ["fit_with_least_squares"], ["find_tangent:vp_tangent", "set_initial_parameter_values:vp_param", "fit_one_spline:vp_one", "find_error:vp_error", "spline_linear_enough:vp_linear", "fit_curve:vp_fit"]),
    C("ends", ["evaluate_spline"]),
    C("error", ["find_error"], ["evaluate_spline:vp_eval", "distance:vp_dist"], bound="up to 6 points"),
    C("lines", ["change_bad_lines"], bound="up to 4 splines"),
    C("adjacent", ["remove_adjacent_corners"], ["append_index:vp_addindex", "free_index_list:vp_freeindex"], bound="up to 4 corners"),
    C("list", ["fit_curve_list"], ["remove_knee_points:vp_knees", "filter:vp_filter", "append_point:vp_append", "fit_curve:vp_fit2", "change_bad_lines:vp_bad"], bound="up to 3 curves"),
    Goal("ref_small", entry="h_small", bound="two-tone images up to 5x5 with at most 16 pixels (every one up to 12 pixels, every seventh above), default and generated settings, against the reference", defs=["VP_RUN", "VP_REF"], **R),
    Goal("ref_pictures", entry="h_pictures", bound="2000 generated pictures up to 150x150, generated settings, against the reference", defs=["VP_RUN", "VP_REF", "VP_N=2000", "VP_S=1"], **R),
    Goal("more_ref_pictures", entry="h_pictures", bound="60000 generated pictures up to 150x150, against the reference", tier="thorough", defs=["VP_RUN", "VP_REF", "VP_N=60000", "VP_S=77"], **dict(R, timeout=1800)),
])
