def R(n, d, b, **k):
    return Goal(n, entry="h_run", src="p22_run.c", run=True, functions=[n.split("_")[-1] + " writer"], bound=b, defs=d, **k)
def runs(n, d):
    return [R("files_" + n, [d], "4000 generated pictures"), R("more_files_" + n, [d, "VP_N=150000", "VP_S=5"], "150000 generated pictures", tier="thorough", timeout=1500)]
PROP = dict(id="P24", level="proof", assumptions=["number formatting of printf"], goals=[
    Goal("sk", entry="h_sk", src="p24_sk.c", native=False, concretise=["files_sk"], functions=["out_splines (Sketch)"], unwind=4, loops={"out_splines": [
        dict(assigns="this_spline, g_spl, vp_si, vp_spl, vp_log", inv="this_spline <= list.length && g_state == 4 && g_spl == this_spline && vp_si == (this_spline ? this_spline - 1 : 0)", dec="list.length - this_spline"),
        dict(assigns="vp_li, vp_cur, vp_prev, vp_si, vp_first, vp_spl, vp_log, this_list, list, g_spl, g_lists, g_state",
             inv="this_list <= shape.length && g_lists == this_list && vp_li == (int)this_list - 1 && (this_list == 0 ? g_state == 0 : g_spl == vp_cur.length && g_state == (vp_center || vp_open ? 4 : 0))", dec="shape.length - this_list")]}),
] + runs("sk", "VP_SK") + runs("pov", "VP_POV") + runs("er", "VP_ER"))
