def R(n, d, b, **k):
    return Goal(n, entry="h_run", src="p26_run.c", run=True, functions=["output_" + n.split("_")[-1] + "_writer"], bound=b, defs=d, **k)
def runs(n, d):
    return [R("files_" + n, [d], "4000 generated pictures"), R("more_files_" + n, [d, "VP_N=150000", "VP_S=5"], "150000 generated pictures", tier="thorough", timeout=1500)]
PROP = dict(id="P26", level="proof", assumptions=["coordinates within the picture, picture sizes up to 32767 in the CGM contract goal"], goals=[
    Goal("words", entry="h_words", src="p26_cgm.c", native=False, concretise=["files_cgm"], functions=["write16", "write8"], unwind=4, defs=["VP_FWRITE", "VP_LEN=1", "VP_LO=0"]),
    Goal("short_name", entry="h_name", src="p26_cgm.c", native=False, concretise=["files_cgm"], functions=["output_beginmetafilename"], unwind=36, defs=["VP_FWRITE", "VP_LEN=34", "VP_LO=0"], bound="names of up to 34 characters"),
    Goal("long_name", entry="h_name", src="p26_cgm.c", native=False, concretise=["files_cgm"], functions=["output_beginmetafilename"], unwind=262, flags=["--object-bits", "11"], defs=["VP_FWRITE", "VP_LEN=260", "VP_LO=250"], bound="names of 250 to 260 characters", tier="thorough", timeout=1500),
    Goal("numbers", entry="h_numbers", src="p26_dr2d.c", native=False, concretise=["files_dr2d"], functions=["FloatAsIEEEBytes", "flt2ieee", "IntAsBytes", "ShortAsBytes"], unwind=33),
    Goal("points", entry="h_push", src="p26_dr2d.c", native=False, concretise=["files_dr2d"], functions=["PushPolyPoint", "PushPolyIndicator"], unwind=5, instrument=[["--replace-calls", "FloatAsIEEEBytes:vp_float"]]),
    Goal("count", entry="h_count", src="p26_dr2d.c", native=False, concretise=["files_dr2d"], functions=["CountSplines"], unwind=5, loops={"CountSplines": [
        dict(assigns="this_spline, Total, vp_si, vp_spl, g_spl, g_sum, g_x1, g_y1, g_x2, g_y2, vp_log", inv="this_spline <= this_spline_length && this_spline_length == vp_cur.length && g_sum <= g_max && (this_spline == 0 ? g_spl == 1 && vp_si == 0 && Total == (vp_first.degree == g_line ? 1 : 0) && g_sum == (vp_first.degree == g_line ? 1 : 5) : g_spl == this_spline && vp_si == this_spline - 1 && Total == (int)g_sum + (vp_first.degree == g_line ? 1 : 0))", dec="this_spline_length - this_spline")]}),
    Goal("box", entry="h_box", src="p26_dr2d.c", native=False, concretise=["files_dr2d"], functions=["BuildBBOX"], unwind=6, solver="cvc5", instrument=[["--replace-calls", "FloatAsIEEEBytes:vp_float"]], loops={"BuildBBOX": [
        dict(assigns="this_spline, s, ex, ey, x1, y1, x2, y2, vp_si, vp_spl, g_spl, g_sum, g_x1, g_y1, g_x2, g_y2, vp_log", inv="this_spline <= this_spline_length && this_spline_length == vp_cur.length && g_sum <= g_max && (this_spline == 0 ? g_spl == 1 && vp_si == 0 && x1 == vp_first.v[0].x && x2 == x1 && y1 == g_height - vp_first.v[0].y && y2 == y1 && g_x1 == (vp_first.v[3].x < vp_first.v[0].x ? vp_first.v[3].x : vp_first.v[0].x) && g_x2 == (vp_first.v[3].x > vp_first.v[0].x ? vp_first.v[3].x : vp_first.v[0].x) && g_y1 == ((g_height - vp_first.v[3].y) < (g_height - vp_first.v[0].y) ? (g_height - vp_first.v[3].y) : (g_height - vp_first.v[0].y)) && g_y2 == ((g_height - vp_first.v[3].y) > (g_height - vp_first.v[0].y) ? (g_height - vp_first.v[3].y) : (g_height - vp_first.v[0].y)) : g_spl == this_spline && vp_si == this_spline - 1 && x1 == g_x1 && x2 == g_x2 && y1 == g_y1 && y2 == g_y2)", dec="this_spline_length - this_spline")]}),
    Goal("path", entry="h_path", src="p26_dr2d.c", native=False, concretise=["files_dr2d"], functions=["GeneratexPLY"], unwind=6, solver="cvc5", defs=["VP_PATH"], instrument=[["--replace-calls", x] for x in "CountSplines:vp_count BuildBBOX:vp_bbox BuildATTR:vp_attr PushPolyPoint:vp_point PushPolyIndicator:vp_mark".split()], loops={"GeneratexPLY": [
        dict(assigns="this_spline, s, PolyPoint, vp_si, vp_spl, g_spl, g_sum, g_x1, g_y1, g_x2, g_y2, g_state, g_done, g_at, g_started, vp_log", inv="this_spline <= this_spline_length && this_spline_length == vp_cur.length && PolyPoint == g_at && g_state == 0 && g_started == (vp_first.degree == g_line) && g_done <= 5000001 && g_at == 2 + 8 * (int)g_done + (g_started ? 8 : 0) && g_spl == (this_spline ? this_spline : 1) && vp_si == g_spl - 1 && g_sum + (g_started ? 1 : 0) <= g_count && (this_spline == 0 ? g_done == 0 && g_sum == (vp_first.degree == g_line ? 1 : 5) : g_done == g_sum) && (g_spl < vp_cur.length || g_sum + (g_started ? 1 : 0) == g_count)", dec="this_spline_length - this_spline")]}, bound=None, note="one path of any length; the loop over paths adds three chunks each"),
    Goal("cgm", entry="h_cgm", src="p26_cgm.c", native=False, concretise=["files_cgm"], functions=["output_cgm_writer", "output_metafiledescription", "output_beginpicture"], unwind=20, solver="cvc5", instrument=[["--replace-calls", "write16:vp_w16"], ["--replace-calls", "write8:vp_w8"]], loops={"output_cgm_writer": [
        dict(assigns="this_spline, vp_si, vp_spl, g_w, g_k, g_n, g_c, g_spl, g_half, g_hi, g_hk, vp_log", inv="this_spline <= list.length && list.length == vp_cur.length && g_hk == g_hn && g_k == g_n && !g_half && g_spl == this_spline && vp_si == (this_spline ? this_spline - 1 : 0) && g_c == (this_spline == list.length)", dec="list.length - this_spline"),
        dict(assigns="vp_li, vp_cur, vp_prev, vp_si, vp_first, vp_spl, g_w, g_k, g_n, g_c, g_lists, g_spl, g_half, g_hi, g_hk, vp_log, this_list", inv="this_list <= shape.length && g_hk == g_hn && g_k == g_n && !g_half && g_lists == this_list && vp_li == (int)this_list - 1 && (this_list == 0 ? g_c == (shape.length ? 0 : 2) : g_spl == vp_cur.length && g_c == 1)", dec="shape.length - this_list")]}),
] + runs("cgm", "VP_CGM") + runs("dr2d", "VP_DR2D"))
