G = "vp_li, vp_cur, vp_prev, vp_si, vp_first, vp_spl, vp_log, "
V = "g_n, g_v0, g_v1, g_v2, g_v3, g_v4, g_v5, "
def col(a, b): return " && ".join("%s.%s == %s.%s" % (a, c, b, c) for c in "rgb")
INNER = dict(assigns=V + "this_spline, g_spl, vp_si, vp_spl, vp_log",
             inv="this_spline <= list.length && g_n == 0 && g_spl == this_spline && vp_si == (this_spline ? this_spline - 1 : 0)",
             dec="list.length - this_spline")
def outer(unp, more=""):
    return dict(assigns=G + V + "this_list, list, last_color, g_spl, g_lists, g_unpainted, g_col, g_colset" + more,
             inv="this_list <= shape.length && g_n == 0 && g_lists == this_list && vp_li == (int)this_list - 1 && (this_list == 0 ? g_unpainted == 0 : (" + unp + " && g_colset && list.open == vp_open && g_spl == vp_cur.length && " + col("last_color", "vp_cur.color") + " && " + col("g_col", "vp_cur.color") + "))",
             dec="shape.length - this_list")
def C(n, d, loops, **k):
    return Goal(n, entry="h_ps", src="p22_ps.c", native=False, concretise=["files_" + n], functions=["out_splines (%s)" % n], defs=[d], loops={"out_splines": loops}, **dict(dict(unwind=4, timeout=200), **k))
def runs(n, d):
    k = dict(entry="h_run", src="p22_run.c", run=True, functions=[n + " writer"])
    return [Goal("files_" + n, bound="4000 generated pictures", defs=[d], **k), Goal("more_files_" + n, bound="150000 generated pictures", defs=[d, "VP_N=150000", "VP_S=5"], tier="thorough", timeout=1500, **k)]
PROP = dict(id="P22", level="proof", assumptions=["number formatting of printf"], goals=[
    C("eps", "VP_EPS", [INNER, outer("g_unpainted == 0")]),
    C("epd", "VP_EPD", [INNER, outer("g_unpainted <= 1")]),
    C("p2e", "VP_P2E", [INNER, outer("g_unpainted <= 1", ", pathnr")]),
] + runs("eps", "VP_EPS") + runs("epd", "VP_EPD") + runs("p2e", "VP_P2E"))
