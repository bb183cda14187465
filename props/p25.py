R = ["files_emf"]
def C(n, f, **k):
    return Goal(n, src="p25_emf.c", native=False, concretise=R, functions=f, **dict(dict(unwind=10, entry="h_" + n), **k))
PROP = dict(id="P25", level="proof", assumptions=["coordinates from 0 to 65535 in the contract goals"], goals=[
    C("words", ["write32", "write16"]),
    C("records", ["WriteMoveTo", "WriteLineTo", "WriteSetPolyFillMode", "WriteBeginPath", "WriteEndPath", "WriteFillPath", "WriteStrokePath", "WriteCreateSolidPen", "WriteCreateSolidBrush", "WriteSelectObject", "WriteDeleteObject", "WriteEndOfMetafile"]),
    C("curves", ["WritePolyBezierTo16"], loops={"WritePolyBezierTo16": [dict(assigns="i, g_n, g_b", inv="0 <= i && i <= ncurves && g_n == 28 + 12 * (unsigned)i", dec="ncurves - i")]}),
    C("lines", ["MyWritePolyLineTo"], loops={"MyWritePolyLineTo": [dict(assigns="i, g_n, g_b", inv="0 <= i && i <= nlines && g_n == 16 * (unsigned)i", dec="nlines - i")]}),
    C("header", ["WriteHeader"], bound="names of up to 6 characters"),
    C("files", ["GetEmfStats", "OutputEmf"], bound="up to 2 paths of up to 2 splines", unwind=5, defs=["VP_FILES", "NL=2", "NS=2"], instrument=[["--replace-calls", x] for x in "MyWritePolyLineTo:vp_lines WritePolyBezierTo16:vp_curves WriteMoveTo:vp_move WriteBeginPath:vp_begin WriteEndPath:vp_end WriteFillPath:vp_fill WriteStrokePath:vp_stroke WriteSetPolyFillMode:vp_mode WriteEndOfMetafile:vp_eof WriteCreateSolidPen:vp_pen WriteCreateSolidBrush:vp_brush WriteSelectObject:vp_select WriteDeleteObject:vp_delete WriteHeader:vp_head SearchColor:vp_search AddColor:vp_add ColorListToColorTable:vp_table ColorLookUp:vp_lookup".split()], flags=["--object-bits", "11"]),
    C("more_files", ["GetEmfStats", "OutputEmf"], bound="up to 3 paths of up to 3 splines", unwind=10, entry="h_files", timeout=1800, tier="thorough", defs=["VP_FILES", "NL=3", "NS=3"], instrument=[["--replace-calls", x] for x in "MyWritePolyLineTo:vp_lines WritePolyBezierTo16:vp_curves WriteMoveTo:vp_move WriteBeginPath:vp_begin WriteEndPath:vp_end WriteFillPath:vp_fill WriteStrokePath:vp_stroke WriteSetPolyFillMode:vp_mode WriteEndOfMetafile:vp_eof WriteCreateSolidPen:vp_pen WriteCreateSolidBrush:vp_brush WriteSelectObject:vp_select WriteDeleteObject:vp_delete WriteHeader:vp_head SearchColor:vp_search AddColor:vp_add ColorListToColorTable:vp_table ColorLookUp:vp_lookup".split()], flags=["--object-bits", "11"]),
    Goal("files_emf", entry="h_run", src="p25_run.c", run=True, functions=["output_emf_writer"], bound="4000 generated pictures"),
    Goal("more_files_emf", entry="h_run", src="p25_run.c", run=True, functions=["output_emf_writer"], bound="150000 generated pictures", defs=["VP_N=150000", "VP_S=5"], tier="thorough", timeout=1500),
])
