def R(n, d, b, **k):
    return Goal(n, entry="h_run", src="p27_run.c", run=True, functions=["output_" + n.split("_")[-1] + "_writer"], bound=b, defs=d, **k)
def runs(n, d):
    return [R("files_" + n, [d], "4000 generated pictures"), R("more_files_" + n, [d, "VP_N=150000", "VP_S=5"], "150000 generated pictures", tier="thorough", timeout=1500)]
PROP = dict(id="P27", level="proof", assumptions=["number formatting of printf", "coordinates of an HPGL file are not negative"], goals=[
    Goal("pen", entry="h_pen", src="p27_plt.c", native=False, concretise=["files_plt"], functions=["GetIndexFromRGBValue"], unwind=10, solver="cvc5", tier="thorough", timeout=1500),
    Goal("points", entry="h_points", src="p27_plt.c", native=False, concretise=["files_plt"], functions=["GetSplinePts"], unwind=10),
    Goal("curve", entry="h_curve", src="p27_plt.c", native=False, concretise=["files_plt"], functions=["WriteBezier"], unwind=10, defs=["VP_CURVE"]),
    Goal("plt", entry="h_plt", src="p27_plt.c", native=False, concretise=["files_plt"], functions=["OutputPlt"], unwind=4, instrument=[["--replace-calls", "GetIndexFromRGBValue:vp_penof"], ["--replace-calls", "WriteBezier:vp_bezier"]], loops={"OutputPlt": [
        dict(assigns="this_spline, curr_spline, last_degree, LastPoint, g_spl, g_x, g_y, vp_si, vp_spl, vp_log", inv="this_spline <= curr_list.length && curr_list.length == vp_cur.length && g_state == 3 && g_spl == this_spline && vp_si == (this_spline ? this_spline - 1 : 0) && LastPoint.x == g_x && LastPoint.y == g_y", dec="curr_list.length - this_spline"),
        dict(assigns="this_list, this_spline, curr_list, curr_color, last_color, red, green, blue, index, curr_spline, last_degree, LastPoint, StartPoint, vp_li, vp_cur, vp_prev, vp_si, vp_first, vp_spl, vp_log, g_spl, g_lists, g_state, g_x, g_y, g_pen, g_pens",
             inv="this_list <= shape.length && shape.length == vp_nlists && g_state == 3 && g_lists == this_list && vp_li == (int)this_list - 1 && LastPoint.x == g_x && LastPoint.y == g_y && (this_list == 0 || (g_spl == vp_cur.length && last_color == ((unsigned)vp_cur.color.r | ((unsigned)vp_cur.color.g << 8) | ((unsigned)vp_cur.color.b << 16))))", dec="shape.length - this_list")]}),
    Goal("depth", entry="h_depth", src="p27_fig.c", native=False, concretise=["files_fig"], functions=["fig_new_depth"], unwind=545),
    Goal("box", entry="h_bbox", src="p27_fig.c", native=False, concretise=["files_fig"], functions=["fig_addtobbox"], unwind=545),
    Goal("start", entry="h_start", src="p27_fig.c", native=False, concretise=["files_fig"], functions=["fig_col_init"], unwind=545, flags=["--max-field-sensitivity-array-size", "600"]),
    Goal("ends", entry="h_ends", src="p27_fig.c", native=False, concretise=["files_fig"], functions=["bezpnt"], unwind=545),
    Goal("ugs", entry="h_ugs", src="p27_ugs.c", native=False, concretise=["files_ugs"], functions=["output_splines (UGS)"], unwind=5, tier="thorough", timeout=1500, note="no bearing offset", instrument=[["--replace-calls", "cubic_to_quadratic:vp_divide"]], loops={"output_splines": [
        dict(assigns="s, t, x1, y1, x1a, y1a, x2, y2, x3a, y3a, x3, y3, ix1a, iy1a, ix2, iy2, ix3a, iy3a, ix3, iy3, lowerx, lowery, upperx, uppery, g_spl, g_k, g_n, g_kind, g_px, g_py, g_fx, g_fy, g_need, g_x1, g_x2, g_y1, g_y2, vp_si, vp_spl, vp_log", inv="s <= list.length && list.length == vp_cur.length && g_state == 2 && g_k == g_n && !g_need && g_spl == s && vp_si == (s ? s - 1 : 0) && x1 == g_fx && y1 == g_fy && lowerx == g_x1 && lowery == g_y1 && upperx == g_x2 && uppery == g_y2", dec="list.length - s"),
        dict(assigns="l, s, list, first, t, x1, y1, x1a, y1a, x2, y2, x3a, y3a, x3, y3, ix1, iy1, ix1a, iy1a, ix2, iy2, ix3a, iy3a, ix3, iy3, lowerx, lowery, upperx, uppery, g_lists, g_state, g_spl, g_k, g_n, g_kind, g_px, g_py, g_fx, g_fy, g_need, g_x1, g_x2, g_y1, g_y2, vp_li, vp_cur, vp_prev, vp_first, vp_si, vp_spl, vp_log",
             inv="l <= shape.length && shape.length == vp_nlists && g_state == 1 && g_lists == l && vp_li == (int)l - 1 && (l == 0 || g_spl == vp_cur.length) && lowerx == g_x1 && lowery == g_y1 && upperx == g_x2 && uppery == g_y2", dec="shape.length - l")]}),
] + runs("plt", "VP_PLT") + runs("mif", "VP_MIF") + runs("fig", "VP_FIG") + runs("ugs", "VP_UGS"))
