
FS = ["--max-field-sensitivity-array-size", "600"]
S = dict(src="p07_pnm.c", srcs=["autotrace.c", "color.c", "exception.c"], unwind=40,
         functions=["input_pnm_reader", "pnm_load_raw", "pnm_load_rawpbm", "pnm_load_ascii", "pnmscanner_getchar", "pnmscanner_gettoken", "pnmscanner_getsmalltoken", "pnmscanner_eatwhitespace", "pnmscanner_create", "pnmscanner_createbuffer", "pnmscanner_destroy"])
ESC = {"\n": "\\n", "\t": "\\t", "\r": "\\r"}
q = lambda s: '"%s"' % "".join(ESC.get(c) or (c if 32 <= ord(c) < 127 and c not in '"\\?' else '\\%03o""' % ord(c)) for c in s)
def hdr(m, w, h, mx):
    return "P%d\n%d %d\n" % (m, w, h) + ("%d\n" % mx if m not in (1, 4) else "")
def D(m, w, h, mx, head=None, fmax=64):
    return ["VP_HDR=" + q(head or hdr(m, w, h, mx)), "VP_W=%d" % w, "VP_H=%d" % h, "VP_NP=%d" % (3 if m in (3, 6) else 1),
            "VP_MAX=%d" % mx, "VP_PBM=%d" % (m in (1, 4)), "VP_FMAX=%d" % fmax]
def raw(m, w, h, mx, cut=0, head=None, n=""):
    kind = "rawpbm" if m == 4 else "raw"
    size = 64 + w * h * 3
    return Goal("%s%d_%dx%d_%d_cut%d%s" % (kind, m, w, h, mx, cut, n), entry="h_" + kind, defs=D(m, w, h, mx, head, size) + ["VP_CUT=%d" % cut], flags=FS[:1] + [str(max(600, size + 10))],
                bound="P%d header, %dx%d, maxval %d, body cut by %d bytes; every body content" % (m, w, h, mx, cut), **dict(S, unwind=max(40, size)))
import re
def asc(n, m, w, h, mx, t, head=None, **k):
    size = len(t) + (64 if head is None else 16 + len(head))
    body = re.sub("#[^\n]*\n", " ", t)
    vals = list("".join(body.split())) if m == 1 else body.split()
    return Goal("ascii_%s" % n, entry="h_ascii", defs=D(m, w, h, mx, head, size) + ["VP_T=" + q(t), "VP_VALS=" + "".join(v + "," for v in vals[:w * h * (3 if m == 3 else 1)])], flags=FS[:1] + [str(max(4200, size + 10))],
                bound="the body %r" % t, **dict(S, unwind=max(40, size), **k))
def load(m, w, h, mx):
    return Goal("loader%d_%dx%d_%d" % (m, w, h, mx), entry="h_loader", defs=D(m, w, h, mx), native=False,
                instrument=[["--replace-calls", "pnmscanner_gettoken:c_gettoken"], ["--replace-calls", "pnmscanner_getsmalltoken:c_getsmalltoken"], ["--replace-calls", "atoi:c_atoi"]],
                bound="%dx%d, maxval %d, every sequence of samples" % (w, h, mx), concretise=ASC, **S)
def bad(n, t, nofile=0):
    return Goal("bad_" + n, entry="h_bad", defs=["VP_BAD=" + q(t), "VP_NOFILE=%d" % nofile, "VP_FMAX=64"], flags=FS, bound="the file %r" % t, **S)
ALLC = "".join(map(chr, range(1, 256))).replace("\n", "")
asc_goals = [
    asc("every_comment", 2, 2, 1, 255, "12#%s\n 34\n" % ALLC, "P2#%s\n2 1\n#%s\n255\n" % (ALLC, ALLC)),
    asc("every_space", 2, 2, 1, 255, "12\f\n\v\t \r34\n", "P2\t\v\f2 \r\n1\v255\f"),
    asc("tall", 1, 1, 300, 1, "10110" * 60),

    asc("bits", 1, 3, 2, 1, "01 1\n0 1 0\n"), asc("bits_noeol", 1, 2, 2, 1, "1001"), asc("bits_short", 1, 2, 2, 1, "1 0 0\n"), asc("bits_comment", 1, 2, 1, 1, "1#9 9\n0"),
    asc("gray", 2, 2, 2, 255, "201 42\n7 199\n"), asc("gray_noeol", 2, 2, 1, 255, "17 230"), asc("gray_short", 2, 2, 2, 255, "131 1 2\n"), asc("gray_short2", 2, 2, 2, 255, "33"),
    asc("gray_comment", 2, 2, 1, 255, "5#99\n\n  71\n"), asc("gray_one", 2, 2, 1, 1, "0 1\n"), asc("gray_nine", 2, 2, 2, 9, "1 5 9 0\n"), asc("gray_big", 2, 1, 2, 1000, "873 1000\n"),
    asc("rgb", 3, 2, 1, 255, "255 20 3 4 15 106\n"), asc("rgb_one", 3, 1, 1, 1, "1 0 1 "),
]
ASC = [g.name for g in asc_goals]
LEM = [("row_in_image", """(set-logic QF_NIA)
(declare-const i Int)(declare-const h Int)(declare-const n Int)
(assert (and (<= 0 i) (< i h) (>= n 1)))
(assert (not (and (<= (+ (* i n) n) (* h n)) (= (+ (* i n) n) (* (+ i 1) n)))))
(check-sat)"""), ("witness_row", """(set-logic QF_NIA)
(declare-const i Int)(declare-const r Int)(declare-const c Int)(declare-const n Int)
(assert (and (<= 0 i) (<= 0 r) (<= 0 c) (< c n)))
(assert (not (ite (< i r) (>= (+ (* r n) c) (+ (* i n) n)) (=> (> i r) (< (+ (* r n) c) (* i n))))))
(check-sat)"""), ("sample_in_image", """(set-logic QF_NIA)
(declare-const i Int)(declare-const h Int)(declare-const x Int)(declare-const w Int)(declare-const b Int)(declare-const np Int)
(assert (and (<= 0 i) (< i h) (<= 0 x) (< x w) (<= 0 b) (< b np)))
(assert (not (< (+ (* (+ (* i w) x) np) b) (* w h np))))
(check-sat)""")]
C = lambda *a: [["--replace-calls", x] for x in a]
def L(n, f, entry, defs, conc, **k):
    return Goal(n, entry=entry, src="p07_loops.c", functions=[f], defs=defs, native=False, concretise=conc, **dict(dict(unwind=4), **k))
def any_raw(n, m, keep=None, **k):
    val = "g_data[g_w] == (g_w < g_off - g_n + x ? g_sc : g_w < g_off ? g_wv : 0)", "g_data[g_w] == (g_w < g_off ? g_sc : 0)"
    if m == 0: val = "(g_w < g_off - g_n + x || g_data[g_w] == (g_w < g_off ? g_wv : 0))", "(g_w < g_off || g_data[g_w] == 0)"
    return L(n, "pnm_load_raw", "h_raw", ["VP_RAW"] + (["VP_MAX=%d" % m] if m else ["VP_NOVAL"]), RAW, loops={"pnm_load_raw": [
        dict(assigns="x, __CPROVER_object_whole(g_data)", inv="x <= g_n && g_off >= g_n && g_off <= g_total && d == g_data + (g_off - g_n) && " + val[0], dec="g_n - x"),
        dict(assigns="i, x, d, g_off, g_rows, g_short, g_wv, g_sc, vp_log, __CPROVER_object_whole(g_data)", inv="i <= g_h && i == g_rows && !g_short && d == g_data + g_off && g_off <= g_total && " + val[1], dec="g_h - i")]}, **k)
def any_ascii(np, m, **k):
    A = "__CPROVER_object_whole(buf), scan->eof, g_i, g_x, g_b, g_cnt, g_last, g_sc, g_bit, g_short, vp_log, __CPROVER_object_whole(g_data)"
    V = "!g_short && g_cnt <= g_total && " + ("g_data[g_w] == (g_w < g_cnt ? g_sc : 0)" if m in (1, 255) else "(g_w < g_cnt || g_data[g_w] == 0)")
    return L("any_ascii%d_%d" % (np, m), "pnm_load_ascii", "h_ascii", ["VP_ASCII=%d" % np, "VP_MAX=%d" % m], ASC, instrument=C("pnmscanner_gettoken:c_gettoken", "pnmscanner_getsmalltoken:c_getsmalltoken", "pnmscanner_createbuffer:c_createbuffer", "atoi:c_atoi"), loops={"pnm_load_ascii": [
        dict(assigns="b, " + A, inv="b >= 0 && b <= np && (b < np ? g_b == b && g_x == x && g_i == i : g_b == 0 && (x + 1 < g_w_ ? g_x == x + 1 && g_i == i : g_x == 0 && g_i == i + 1)) && " + V + " && g_cnt >= b && d == g_data + (g_cnt - b)", dec="np - b"),
        dict(assigns="x, b, d, " + A, inv="x <= g_w_ && g_b == 0 && (x < g_w_ ? g_x == x && g_i == i : g_x == 0 && g_i == i + 1) && " + V + " && d == g_data + g_cnt", dec="g_w_ - x"),
        dict(assigns="i, x, b, d, " + A, inv="i >= 0 && i <= g_h && g_b == 0 && g_x == 0 && g_i == i && " + V + " && d == g_data + g_cnt", dec="g_h - i")]}, **k)
raw_goals = [
    raw(5, 300, 1, 255), raw(5, 1, 300, 255), raw(6, 130, 1, 255), raw(5, 30, 1, 15), raw(4, 300, 2, 1), raw(4, 5, 26, 1), raw(5, 3, 2, 255), raw(5, 3, 2, 255, 1), raw(5, 3, 2, 255, 4), raw(5, 2, 2, 100), raw(6, 2, 2, 255), raw(6, 1, 2, 1), raw(6, 1, 2, 255, 1), raw(6, 2, 2, 31),
    raw(5, 2, 1, 255, 0, "P5 # c\n2\t# x 9 9\n1\r\n255 ", "c"),
    raw(4, 9, 2, 1), raw(4, 8, 2, 1), raw(4, 1, 3, 1), raw(4, 17, 2, 1, 1), raw(4, 17, 1, 1)]
bad_goals = [
    bad("empty", ""), bad("nofile", "P2\n1 1\n255\n1\n", 1), bad("magic", "P9\n1 1\n255\n1\n"), bad("magic2", "P22\n1 1\n255\n1\n"), bad("onlyp", "P\n1 1\n255\n1\n"), bad("eof1", "P2"), bad("eof2", "P2\n"), bad("eof3", "P2\n1"),
    bad("eof4", "P2\n1 "), bad("eof5", "P5\n1 1"), bad("eof6", "P5\n1 1\n255"), bad("zerow", "P5\n0 1\n255\n1"), bad("zeroh", "P5\n1 0\n255\n1"), bad("negw", "P5\n-1 1\n255\n1"), bad("wide", "P5\n65536 1\n255\n1"), bad("tall", "P5\n1 65536\n255\n1"),
    bad("max0", "P5\n1 1\n0\n1"), bad("max256", "P5\n1 1\n256\n1"), bad("maxx", "P5\n1 1\nx\n1"), bad("notpnm", "BM\n1 1\n255\n1")]
RAW = [g.name for g in raw_goals]
BAD = [g.name for g in bad_goals]
def F(n, d, b, **k):
    return Goal(n, entry="h_run", src="p07_run.c", run=True, functions=["input_pnm_reader"], defs=["VP_PNM"] + d, bound=b, **k)
FILES = [F("files", [], "600 generated files, up to 65535 rows or columns"), F("more_files", ["VP_N=30000", "VP_S=7"], "30000 generated files", tier="thorough", timeout=1500)]
PROP = dict(id="P07", level="proof", lemmas=LEM, assumptions=["the value of a scaled sample (maximum other than 255) is checked for fixed maxima", "atoi and the tokens it is given: by contract in the loop goals, real in the others"], goals=[
    L("header", "input_pnm_reader", "h_head", ["VP_HEAD"], BAD + ASC + RAW, unwind=8, instrument=C("fopen:c_fopen", "fclose:c_fclose", "pnmscanner_create:c_create", "pnmscanner_destroy:c_destroy", "pnmscanner_gettoken:c_gettoken", "atoi:c_atoi", "at_bitmap_init:c_init")),
    L("char", "pnmscanner_getchar", "h_char", ["VP_CHAR"], ASC),
    L("white", "pnmscanner_eatwhitespace", "h_white", ["VP_SCAN"], ASC, instrument=C("pnmscanner_getchar:c_getchar"), loops={"pnmscanner_eatwhitespace": [
        dict(assigns="state, s->eof, s->cur, g_left, g_com, vp_log", inv="g_left < 0xffffffffffffff00ul && state >= -1 && state <= 1 && g_com == (state == 1) && (state != -1 || (s->cur != 35 && s->cur != 32 && !(s->cur >= 9 && s->cur <= 13)))", dec="s->eof ? 0 : state == -1 ? 0 : g_left + 2")]}),
    L("token", "pnmscanner_gettoken", "h_token", ["VP_SCAN"], ASC, instrument=C("pnmscanner_getchar:c_getchar", "pnmscanner_eatwhitespace:c_white"), loops={"pnmscanner_gettoken": [
        dict(assigns="ctr, s->eof, s->cur, g_left, g_tn, g_tc, vp_log, __CPROVER_object_whole(buf)", inv="g_tok && ctr == g_tn && ctr < bufsize && (g_tw >= ctr || buf[g_tw] == g_tc)", dec="bufsize - ctr")]}),
    L("digit", "pnmscanner_getsmalltoken", "h_small", ["VP_SCAN"], ASC, instrument=C("pnmscanner_getchar:c_getchar", "pnmscanner_eatwhitespace:c_white")),
    any_raw("any_raw", 255), any_raw("any_raw_places", 0, tier="thorough", timeout=800), any_raw("any_raw_100", 100, tier="thorough", timeout=800), any_raw("any_raw_15", 15, tier="thorough", timeout=800), any_raw("any_raw_1", 1, tier="thorough", timeout=800),
    L("any_pbm", "pnm_load_rawpbm", "h_pbm", ["VP_PBM"], RAW, loops={"pnm_load_rawpbm": [
        dict(assigns="x, curbyte, bufpos, __CPROVER_object_whole(g_data)", inv="x <= g_n && g_off >= g_n && g_off <= g_total && g_rows > 0 && bufpos == (x + 7) / 8 && (x % 8 == 0 || curbyte == (unsigned char)(buf[bufpos - 1] << x % 8)) && d == g_data + (g_off - g_n) && g_data[g_w] == (g_row + 1 < g_rows || (g_row + 1 == g_rows && g_col < x) ? g_sc : 0)", dec="g_n - x"),
        dict(assigns="i, x, d, curbyte, bufpos, g_off, g_rows, g_short, g_sc, g_buf, vp_log, __CPROVER_object_whole(g_data), __CPROVER_object_whole(buf)", inv="i <= g_h && i == g_rows && !g_short && d == g_data + g_off && g_off <= g_total && g_data[g_w] == (g_row < g_rows ? g_sc : 0)", dec="g_h - i")]}),
    any_ascii(0, 1), any_ascii(1, 255), any_ascii(3, 255), any_ascii(1, 1000, tier="thorough"),
    load(2, 2, 2, 1), load(2, 2, 1, 1000), load(3, 1, 1, 9),
] + raw_goals + asc_goals + bad_goals + FILES)
# a goal that runs out of time is covered by the executed files
for g in PROP["goals"]:
    if not g.run and not g.concretise: g.concretise = ["files"]
