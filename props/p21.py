G = "vp_li, vp_cur, vp_prev, vp_si, vp_first, vp_spl, vp_log, "
def C(n, f, **k):
    return Goal(n, entry="h_" + n, src="p21_svg.c", native=False, concretise=["files_svg"], functions=f, **k)
PROP = dict(id="P21", level="proof", assumptions=["number formatting of printf"], goals=[
    C("svg", ["out_splines (SVG)"], unwind=4, solver="cvc5", loops={"out_splines": [
        dict(assigns="this_spline, last_color, g_spl, vp_si, vp_spl, vp_log",
             inv="this_spline <= list.length && g_spl == this_spline && vp_si == (this_spline ? this_spline - 1 : 0) && (this_spline == 0 || (last_color.r == vp_cur.color.r && last_color.g == vp_cur.color.g && last_color.b == vp_cur.color.b))",
             dec="list.length - this_spline"),
        dict(assigns=G + "this_list, list, last_color, g_spl, g_lists, g_in, g_z, g_col",
             inv="this_list <= shape.length && g_lists == this_list && vp_li == (int)this_list - 1 && g_in == (this_list > 0) && !g_z && (this_list == 0 || (list.open == vp_open && g_spl == vp_cur.length && last_color.r == vp_cur.color.r && last_color.g == vp_cur.color.g && last_color.b == vp_cur.color.b && g_col.r == vp_cur.color.r && g_col.g == vp_cur.color.g && g_col.b == vp_cur.color.b))",
             dec="shape.length - this_list")]}),
    Goal("files_svg", entry="h_run", src="p21_run.c", run=True, functions=["output_svg_writer"], bound="4000 generated pictures"),
    Goal("more_files_svg", entry="h_run", src="p21_run.c", run=True, functions=["output_svg_writer"], bound="150000 generated pictures", defs=["VP_N=150000", "VP_S=5"], tier="thorough", timeout=1500),
])
