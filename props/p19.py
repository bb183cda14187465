F = ["fitted_splines", "split_at_corners", "find_corners", "fit_curve_list", "fit_curve", "fit_with_line", "fit_with_least_squares", "fit_one_spline"]
R = dict(src="p19_run.c", functions=F, run=True)
N = ["small", "pictures"]
def C(n, f, reps=(), **k):
    return Goal(n, entry="h_" + n, src="p19_fit.c", native=False, concretise=N, functions=f, instrument=[["--replace-calls", r] for r in reps], **dict(dict(unwind=8), **k))
PROP = dict(id="P19", level="proof", assumptions=["curves of at most 100000 points (symbolic) in the goals line and squares"], goals=[
    C("line", ["fit_with_line"]),
    C("curve", ["fit_curve"], ["fit_with_line:vp_line", "fit_with_least_squares:vp_squares"]),
    C("squares", ["fit_with_least_squares"], ["find_tangent:vp_tangent", "set_initial_parameter_values:vp_param", "fit_one_spline:vp_one", "find_error:vp_error", "spline_linear_enough:vp_linear", "fit_curve:vp_fit"]),
    C("list", ["fit_curve_list"], ["remove_knee_points:vp_knees", "filter:vp_filter", "append_point:vp_append", "fit_curve:vp_fit2", "change_bad_lines:vp_bad"], bound="up to 3 curves"),
    C("fitted", ["fitted_splines"], ["split_at_corners:vp_splitat", "fit_curve_list:vp_fitlist", "free_curve_list_array:vp_freecurves"], bound="up to 3 outlines"),
    C("split", ["split_at_corners"], ["find_corners:vp_corners", "append_pixel:vp_pix", "new_curve:vp_newcurve", "append_curve:vp_addcurve", "append_curve_list:vp_addlist"], unwind=7, bound="outlines of up to 6 pixels with up to 3 corners"),
    C("one", ["fit_one_spline"], ["Vmult_scalar:vp_vmul", "Vadd:vp_vadd", "Vdot:vp_vdot"], bound="up to 5 points"),
    C("filter", ["filter"], ["append_point:vp_smooth"], bound="up to 6 points"),
    C("knees", ["remove_knee_points"], ["append_pixel:vp_keep"], bound="up to 5 points"),
    Goal("small", entry="h_small", bound="two-tone images up to 5x5 with at most 16 pixels (every one up to 12 pixels, every seventh above), default and generated settings", defs=["VP_RUN"], **R),
    Goal("pictures", entry="h_pictures", bound="2000 generated pictures up to 150x150, generated settings, with cancellation", defs=["VP_RUN", "VP_N=2000", "VP_S=1"], **R),
    Goal("more_pictures", entry="h_pictures", bound="60000 generated pictures up to 150x150", tier="thorough", defs=["VP_RUN", "VP_N=60000", "VP_S=77"], **dict(R, timeout=1800)),
])
