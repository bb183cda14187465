def R(n, d, b, **k):
    return Goal(n, entry="h_run", src="p28_run.c", run=True, functions=["output_" + n.split("_")[-1] + "_writer"], bound=b, defs=d, **k)
def runs(n, d, q):
    return [R("files_" + n, [d, "VP_N=%d" % q], "%d generated pictures" % q), R("more_files_" + n, [d, "VP_N=%d" % (20 * q), "VP_S=5"], "%d generated pictures" % (20 * q), tier="thorough", timeout=1500)]
PROP = dict(id="P28", level="proof", assumptions=["number formatting of printf"], goals=[
    Goal("list", entry="h_list", src="p28_dxf.c", native=False, concretise=["files_dxf"], functions=["xypnt_add_pnt", "xypnt_first_pnt", "xypnt_next_pnt", "xypnt_last_pnt"], unwind=6),
    Goal("headers", entry="h_headers", src="p28_ild.c", native=False, concretise=["files_ild"], functions=["writeILDAHeader", "writeILDAFrameHeader", "writeILDATrueColor"], unwind=30),
    Goal("points", entry="h_points", src="p28_ild.c", native=False, concretise=["files_ild"], functions=["writeILDAFrame", "writeILDATrueColor"], unwind=30, bound="frames of one or two points", instrument=[["--replace-calls", "find_best_match_color:vp_match"]]),
] + runs("dxf", "VP_DXF", 700) + runs("ild", "VP_ILD", 700))
