"""Engine: runs contract goals through goto-cc / goto-instrument / cbmc against
the current sources in /repo, classifies the obligations, replays
counterexamples natively and writes the evidence file."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, resource
from concurrent.futures import ThreadPoolExecutor
from threading import Event, Lock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VP_JOBS", "8"))
BASE_DEFS = ['-DHAVE_LIBPNG', '-DAUTOTRACE_VERSION="1.0"', '-DAUTOTRACE_WEB="http://"', '-D__NO_CTYPE']
CBMC_BASE = ["--no-malloc-may-fail", "--json-ui", "--verbosity", "8", "--drop-unused-functions"]


class Goal(dict):
    """One verification goal: one harness entry (or one contract enforced)."""
    defaults = dict(entry=None, src=None, defs=[], unwind=None, unwindset=[], flags=[], dfcc=None,
                    solver=None, timeout=300, tier="quick", bound=None, functions=[], native=True,
                    kind="complete", concretise=[], note="", mem_gb=3.8, weight=1, optional=False,
                    search=None, instrument=[], expect_unreached=[], srcs=[], run=False, args=[], loops={})

    def __init__(self, name, **kw):
        d = dict(Goal.defaults)
        for k in kw:
            assert k in d, k
        d.update(kw)
        d["name"] = name
        if d["bound"]:
            d["kind"] = "bounded"
        super().__init__(d)
    __getattr__ = dict.__getitem__


def _limits(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f


STOP = Event()        # set once a violation is reproduced: the remaining goals are dropped
RUNNING = set()


def run(cmd, timeout, mem_gb=7, cwd=None, env=None, keep=False):
    t = time.time()
    if STOP.is_set() and not keep:
        return None, "", "dropped: a violation was already reproduced", 0.0
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=_limits(mem_gb) if mem_gb else os.setsid)
    if not keep:
        RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        RUNNING.discard(p)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        RUNNING.discard(p)
        return None, "", "timeout after %ss" % timeout, time.time() - t


def compile_goal(g, work):
    src = os.path.join(VERIF, "harness", g.src)
    a = os.path.join(work, g.name + ".gb")
    incs = ["-I", SRC, "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness")]
    defs = BASE_DEFS + ["-DVP_CBMC"] + ["-D" + d for d in g.defs]
    cmd = ["goto-cc", "-w"] + incs + defs + ["--function", g.entry, src] + [os.path.join(SRC, x) for x in g.srcs] + ["-o", a]
    rc, out, err, _ = run(cmd, 120)
    if rc != 0:
        return None, "goto-cc failed: " + (err or out)[-1500:]
    b = a
    steps = []
    if g.dfcc is not None:
        c = ["goto-instrument", "--dfcc", g.entry]
        for f in g.dfcc.get("enforce", []):
            c += ["--enforce-contract", f]
        for f in g.dfcc.get("enforce_rec", []):
            c += ["--enforce-contract-rec", f]
        for f in g.dfcc.get("replace", []):
            c += ["--replace-call-with-contract", f]
        if g.dfcc.get("loops", True):
            c += ["--apply-loop-contracts"]
        steps.append(c)
    for s in g.instrument:
        steps.append(["goto-instrument"] + s)
    if g.loops:
        steps.append(None)
    for i, c in enumerate(steps):
        nb = os.path.join(work, "%s.%d.gb" % (g.name, i))
        if c is None:
            c, err = loop_step(g, b, work)
            if c is None:
                return None, err
        rc, out, err, _ = run(c + [b, nb], 300)
        if rc != 0:
            return None, "goto-instrument failed: " + (err + out)[-1500:]
        b = nb
    return b, None


C_WORDS = set("true false int unsigned char float double bool void long short sizeof forall exists".split())


def loop_step(g, gb, work):
    """Loop contracts are kept beside the goal and attached to the loops of the
    compiled program, so that the sources stay as they are.  Names are resolved
    in the scope of the function, then among the globals."""
    rc, out, err, _ = run(["goto-instrument", "--list-symbols", gb], 120)
    if rc != 0:
        return None, "goto-instrument failed: " + (err + out)[-600:]
    syms = [l.split(" ")[0] for l in out.splitlines() if l]
    glob = {x for x in syms if "::" not in x}
    fns = []
    for fn, loops in g.loops.items():
        entries = []
        for i, l in enumerate(loops):
            text = " ".join(l.get(k, "") for k in ("assigns", "inv", "dec"))
            m = dict(l.get("map", {}))
            words = re.findall(r"(?<![\w.>])[A-Za-z_]\w*", re.sub(r"->\s*\w+|\.\s*\w+", " ", text))
            for w in words:
                if w in C_WORDS or w in m or w.startswith("__CPROVER"):
                    continue
                loc = [x for x in syms if x.startswith(fn + "::") and x.endswith("::" + w) and "$" not in x]
                if len(loc) == 1:
                    m[w] = loc[0]
                elif not loc and w in glob:
                    m[w] = w
                elif len(loc) > 1:
                    return None, "loop contract: %s is ambiguous in %s" % (w, fn)
                else:
                    return None, "loop contract: no %s in %s" % (w, fn)
            for w in m:
                if m[w] not in syms:
                    return None, "loop contract: no %s in %s" % (m[w], fn)
            e = dict(loop_id=str(l.get("loop", i)), assigns=l["assigns"], invariants=l["inv"], symbol_map=";".join("%s,%s" % kv for kv in m.items()))
            if "dec" in l:
                e["decreases"] = l["dec"]
            entries.append(e)
        fns.append({fn: entries})
    f = os.path.join(work, g.name + ".loops.json")
    with open(f, "w") as fh:
        json.dump(dict(functions=fns), fh)
    return ["goto-instrument", "--apply-loop-contracts", "--loop-contracts-file", f], None


def cbmc_cmd(g, gb):
    c = ["cbmc"] + CBMC_BASE
    if g.unwind is not None:
        c += ["--unwind", str(g.unwind)]
    if g.unwindset:
        c += ["--unwindset", ",".join(g.unwindset)]
    c += list(g.flags)
    s = g.solver
    if s == "cvc5":
        c += ["--cvc5"]
    elif s == "z3":
        c += ["--z3"]
    elif s:
        c += ["--sat-solver", s]
    if s in ("cvc5", "z3"):
        pass
    return c + [gb]


def parse_results(out):
    try:
        js = json.loads(out)
    except ValueError:
        return None, None, "unparsable cbmc output: " + out[-600:]
    res, msgs, solver_s = None, [], 0.0
    for e in js:
        if "result" in e:
            res = e["result"]
        if "messageText" in e:
            t = e["messageText"]
            if e.get("messageType") == "ERROR":
                msgs.append(t)
            m = re.match(r"Runtime (?:decision procedure|Solver|Convert SSA|Symex): ?([\d.e+-]+)s", t)
            if m and "decision" in t:
                solver_s += float(m.group(1))
    return res, solver_s, "; ".join(msgs)


def exec_goal(g, work):
    """Bounded stand-in: the harness runs the real code on every input of a stated finite set."""
    t0 = time.time()
    r = dict(name=g.name, kind="bounded", bound=g.bound, functions=g.functions, obligations=1, discharged=0, failed=[], solver_s=0.0,
             status="error", reason="", backend="exhaustive execution (gcc, ASan, UBSan)", reach=None)
    exe, err = native_build(g, work)
    if not exe:
        r["reason"] = "native build failed: " + err[-800:]
        r["wall_s"] = time.time() - t0
        return r
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=0:max_allocation_size_mb=8000", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    env["LC_ALL"] = "C"
    rc, out, err, dt = run([exe] + list(g.args), g.timeout, None, cwd=work, env=env)
    r["wall_s"] = time.time() - t0
    m = re.findall(r"VP_CASES (\d+)", out)
    r["cases"] = int(m[-1]) if m else 0
    if rc == 0 and r["cases"] > 0:
        r.update(status="pass", discharged=1, reach=[1, 1])
    elif STOP.is_set() and rc in (None, -9):
        r["reason"] = "dropped: a violation was already reproduced"
    elif rc == 0 or rc == 77:
        r["reason"] = "vacuous or refused: " + (out + err)[-300:]
    else:
        text = out[-2000:] + (err if len(err) < 6000 else err[:3000] + "\n...\n" + err[-3000:])
        m = re.findall(r"VP: FAILED: (.*)", err) or re.findall(r"(runtime error: .*|ERROR: AddressSanitizer.*|Assertion .* failed.*)", err)
        desc = m[-1] if m else ("the function does not return (%d s)" % g.timeout if rc is None else "the run ended with exit %s" % rc)
        f = dict(id="%s.exec" % g.name, desc=desc[:300], file=os.path.join(VERIF, "harness", g.src), line="", function=g.entry, cls="execution")
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, "%s.json" % g.name)
        json.dump(dict(goal=g.name, obligation=f, native_exit=rc, native_output=text, how_to_replay="gcc -fsanitize=address,undefined -DVP_NATIVE -DVP_ENTRY=%s %s harness/%s %s" % (
            g.entry, " ".join("-D" + x for x in g.defs), g.src, " ".join(g.args))), open(rep, "w"), indent=1)
        r.update(status="fail", failed=[f], replay=rep)
    return r


def run_goal(g, work, extra=()):
    """-> dict(status=pass|fail|error, ...)"""
    if g["run"]:
        return exec_goal(g, work)
    t0 = time.time()
    r = dict(name=g.name, kind=g.kind, bound=g.bound, functions=g.functions, obligations=0, discharged=0,
             failed=[], solver_s=0.0, status="error", reason="", backend=g.solver or "cbmc SAT (minisat2)")
    gb, err = compile_goal(g, work)
    if gb is None:
        r["reason"] = err
        r["wall_s"] = time.time() - t0
        return r
    r["gb"] = gb
    rc, out, err, dt = run(cbmc_cmd(g, gb) + list(extra), g.timeout, g.mem_gb)
    r["wall_s"] = time.time() - t0
    if rc is None or rc not in (0, 10):
        msgs = re.findall(r'"messageText": "([^"]*)",\s*"messageType": "ERROR"', out)
        r["reason"] = ("cbmc: " + (err or ("exit %s " % rc) + "; ".join(msgs)))[:2000]
        return r
    res, solver_s, msg = parse_results(out)
    if res is None:
        r["reason"] = msg
        return r
    r["solver_s"] = solver_s or 0.0
    reach_seen, reach_ok = 0, 0
    for p in res:
        d = p.get("description", "")
        if d.startswith("VP_REACH"):
            reach_seen += 1
            if p["status"] == "FAILURE":
                reach_ok += 1
            elif not any(d[len("VP_REACH "):] == x for x in g.expect_unreached):
                r.setdefault("unreached", []).append(d)
            else:
                reach_ok += 1
            continue
        r["obligations"] += 1
        if p["status"] == "SUCCESS":
            r["discharged"] += 1
        elif p["status"] == "FAILURE":
            loc = p.get("sourceLocation", {})
            r["failed"].append(dict(id=p["property"], desc=d, file=loc.get("file", ""), line=loc.get("line", ""),
                                    function=loc.get("function", ""), cls=loc.get("propertyClass", "")))
        else:
            r.setdefault("unknown", []).append(p["property"] + " " + p["status"])
    r["reach"] = [reach_ok, reach_seen]
    if r["failed"]:
        r["status"] = "fail"
    elif r.get("unknown"):
        r["reason"] = "undecided: " + ", ".join(r["unknown"][:5])
    elif r["obligations"] == 0 or reach_seen == 0 or reach_ok != reach_seen:
        r["reason"] = "vacuous: obligations=%d reach=%d/%d %s" % (r["obligations"], reach_ok, reach_seen, r.get("unreached", ""))
    else:
        r["status"] = "pass"
    return r


def only_unwinding(r):
    return all(("unwinding assertion" in f["desc"] or "recursion unwinding" in f["desc"]) for f in r["failed"])


def native_build(g, work):
    src = os.path.join(VERIF, "harness", g.src)
    exe = os.path.join(work, g.name + ".native")
    cmd = ["gcc", "-w", "-g", "-O2" if g["run"] else "-O1", "-fno-strict-aliasing", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=float-cast-overflow,shift-base",
           "-I", SRC, "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness")]
    cmd += BASE_DEFS + ["-DVP_NATIVE", "-DVP_ENTRY=" + g.entry] + ["-D" + d for d in g.defs]
    cmd += [src] + [os.path.join(SRC, x) for x in g.srcs] + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lm"]
    rc, out, err, _ = run(cmd, 180, None)
    return (exe, "") if rc == 0 else (None, err[-1500:])


def native_run(exe, valfile, work, leak=False):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=%d:allocator_may_return_null=1:exitcode=99:handle_abort=0" % (1 if leak else 0)
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    rc, out, err, dt = run([exe, valfile], 20, None, cwd=work, env=env)
    return rc, (out[-500:] + err[-3000:])


def trace_values(g, gb, prop, timeout):
    rc, out, err, dt = run(cbmc_cmd(g, gb) + ["--trace", "--property", prop], timeout, g.mem_gb)
    if rc != 10:
        return None
    try:
        js = json.loads(out)
    except ValueError:
        return None
    for e in js:
        for p in e.get("result", []):
            if "trace" in p:
                vals = []
                for st in p["trace"]:
                    if st.get("stepType") == "assignment" and st.get("lhs") == "vp_log" and not st.get("hidden", False) \
                       and st.get("sourceLocation", {}).get("function", "").startswith("nd_"):
                        v = st["value"]
                        b = v.get("binary")
                        vals.append(int(b, 2) if b else int(re.sub(r"[^0-9-]", "", v.get("data", "0")) or 0))
                return vals
    return None


def confirm(pid, g, r, work, budget=240):
    """Replay counterexamples of failed goal r on the real code. -> (path, text) or None"""
    if r.get("replay"):
        return r["replay"], r["failed"][0]
    if not g.native:
        return None
    exe, err = native_build(g, work)
    if not exe:
        r["replay_note"] = "native build failed: " + err[-400:]
        return None
    t0 = time.time()
    # user postconditions first, then memory safety, then unwinding
    def rank(f):
        if "unwinding" in f["desc"]:
            return 3
        if f["file"].startswith("<builtin"):
            return 2
        return 0 if f["cls"] == "assertion" else 1
    tried = 0
    for f in sorted(r["failed"], key=rank):
        if tried >= 6 or time.time() - t0 > budget:
            break
        tried += 1
        vals = trace_values(g, r["gb"], f["id"], max(30, min(g.timeout, budget)))
        if vals is None:
            continue
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s-%s" % (pid, g.name))
        vf = base + ".vals"
        with open(vf, "w") as fh:
            fh.write("\n".join("%x" % v for v in vals) + "\n")
        rc, text = native_run(exe, vf, work, leak="memory-leak" in " ".join(g.flags))
        if rc == 77 or rc == 0:
            continue
        if rc is None and rank(f) != 3 and "hang" not in f["desc"]:
            # not finishing within 20 s on an input the verifier found failing
            text = "native run did not terminate within 20 s\n" + text
        rep = base + ".json"
        json.dump(dict(property=pid, goal=g.name, obligation=f, input_values=["%x" % v for v in vals],
                       native_exit=rc, native_output=text,
                       how_to_replay="gcc -fsanitize=address,undefined -DVP_NATIVE -DVP_ENTRY=%s harness/%s; run with %s" % (g.entry, g.src, vf)),
                  open(rep, "w"), indent=1)
        return rep, f
    return None


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def run_lemmas(prop):
    """Arithmetic lemmas used as VP_LEMMA instances in the harnesses: unsat over the integers."""
    out = []
    for name, smt in prop.get("lemmas", []):
        t = time.time()
        r = dict(name="lemma_" + name, kind="lemma", bound=None, functions=[], obligations=1, discharged=0, failed=[],
                 solver_s=0.0, status="error", reason="", backend="z3 5.x / cvc5 (integers)", reach=None)
        for tool in ("z3-new", "cvc5"):
            p = subprocess.run([tool, "/dev/stdin"] if tool == "z3-new" else [tool, "--lang", "smt2", "-"], input=smt, text=True, capture_output=True, timeout=60)
            if p.stdout.strip().startswith("unsat"):
                r.update(status="pass", discharged=1)
                break
            r["reason"] = p.stdout[:200]
        r["wall_s"] = r["solver_s"] = time.time() - t
        out.append(r)
    return out


def check(prop, tier):
    t0 = time.time()
    pid = prop["id"]
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        return _check(prop, tier, pid, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, tier, pid, work, t0):
    goals = [g for g in prop["goals"] if g.tier == "quick" or (tier == "thorough" and g.tier == "thorough")]
    primary = [g for g in goals]
    lem = run_lemmas(prop)
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    early, early_lock = [], Lock()

    def matches_known(name, f):
        return any(k.get("goal") == name and re.search(k["obligation"], f["desc"] + " @" + f["function"]) for k in known)

    def work_on(g):
        r = run_goal(g, work)
        if r["status"] == "fail" and g.native and not STOP.is_set() and not all(matches_known(g.name, f) for f in r["failed"]):
            if only_unwinding(r):
                return r
            r2 = dict(r, failed=[f for f in r["failed"] if not matches_known(g.name, f)])
            c = confirm(pid, g, r2, work, budget=200)
            r["tried"] = True
            with early_lock:
                if c and not early:
                    early.append((c[0], r, c[1]))
                    STOP.set()
                    for p in list(RUNNING):
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except (ProcessLookupError, PermissionError):
                            pass
        return r
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        results = list(ex.map(work_on, sorted(primary, key=lambda g: -g.weight)))
    if early:
        for r in results:
            if r is not early[0][1] and r["status"] == "error":
                r["reason"] = "dropped: a violation was already reproduced"
    results += lem
    byname = {r["name"]: r for r in results}
    gmap = {g.name: g for g in prop["goals"]}
    gmap.update({r["name"]: Goal(r["name"], native=False) for r in lem})
    # goals that could not be decided: run the stand-ins named for them
    fallback = []
    for r in results:
        if r["status"] == "error":
            for n in gmap[r["name"]].concretise:
                if n in gmap and n not in byname and n not in fallback:
                    fallback.append(n)
    for r in results:
        if r["status"] == "fail":
            for n in gmap[r["name"]].concretise:
                if n in gmap and n not in byname and n not in fallback:
                    fallback.append(n)
    if fallback and not early:
        with ThreadPoolExecutor(max_workers=JOBS) as ex:
            more = list(ex.map(lambda n: run_goal(gmap[n], work), fallback))
        results += more
        byname.update({r["name"]: r for r in more})
    violations, known_hit, undecided = [], [], []
    for r in results:
        if r["status"] != "fail":
            continue
        rest = []
        for f in r["failed"]:
            k = next((k for k in known if k.get("goal") == r["name"] and re.search(k["obligation"], f["desc"] + " @" + f["function"])), None)
            if k:
                known_hit.append(k["what"])
            else:
                rest.append(f)
        r["failed"] = rest
        if not rest:
            r["status"] = "known"
    fails = [r for r in results if r["status"] == "fail"]
    confirmed = early[0] if early else None
    # replayable goals first, cheap ones first
    for r in sorted(fails, key=lambda r: (not gmap[r["name"]].native, r["wall_s"])):
        if confirmed or time.time() - t0 > 700:
            break
        if r.get("tried"):
            continue
        c = confirm(pid, gmap[r["name"]], r, work, budget=max(60, min(240, 800 - (time.time() - t0))))
        if c:
            confirmed = (c[0], r, c[1])
            break
    unconfirmed = []
    for r in fails:
        if confirmed and confirmed[1] is r:
            continue
        if only_unwinding(r):
            r["status"] = "error"
            r["reason"] = "loop bound of the goal exceeded (not a violation by itself): " + r["failed"][0]["id"]
        else:
            unconfirmed.append(r)
    if not confirmed:
        for r in fails:
            s = gmap[r["name"]].search
            if s and not only_unwinding(r):
                c = native_search(pid, gmap[r["name"]], s, work)
                if c:
                    confirmed = (c, r, r["failed"][0])
                    break
    undecided = [r for r in results if r["status"] == "error"]
    # an undecided goal is covered when every stand-in named for it passed
    hard_undecided = []
    for r in undecided:
        names = gmap[r["name"]].concretise
        if not (names and all(byname.get(n, {}).get("status") in ("pass", "known") for n in names)) and not gmap[r["name"]].optional:
            hard_undecided.append(r)
    line = None
    code = 0
    if confirmed:
        rep, r, f = confirmed
        line = "VIOLATION property=%s replay=%s" % (pid, rep)
        code = 1
        print("failed obligation: %s [%s] %s:%s (goal %s), reproduced on the real code" % (f["desc"], f["id"], f["file"], f["line"], r["name"]))
    elif unconfirmed:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, "%s-obligations.json" % pid)
        json.dump(dict(property=pid, failed=[dict(goal=r["name"], obligations=r["failed"], replay_note=r.get("replay_note", "")) for r in unconfirmed]),
                  open(rep, "w"), indent=1)
        for r in unconfirmed:
            for f in r["failed"][:4]:
                print("failed obligation: %s [%s] %s:%s (goal %s)" % (f["desc"], f["id"], f["file"], f["line"], r["name"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep)
        code = 1
    elif hard_undecided:
        code = 2
    for k in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for r in [] if early else undecided:
        print("undecided goal %s: %s" % (r["name"], r["reason"][:300].replace("\n", " ")))
    write_evidence(prop, tier, results, code, time.time() - t0, undecided)
    tot = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    print("%s %s: %d goals, %d obligations, %d discharged, %.1fs, exit %d" % (pid, tier, len(results), tot, dis, time.time() - t0, code))
    if os.environ.get("VP_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall_s"]):
            print("   %-28s %-6s %5d/%5d %6.1fs %s %s" % (r["name"], r["status"], r["discharged"], r["obligations"], r["wall_s"], r.get("reach"), r["reason"][:160].replace("\n", " ")))
    if line:
        print(line)
    sys.stdout.flush()
    return code


def native_search(pid, g, s, work):
    """After a failed obligation only: look for a concrete failing input on the real code."""
    script = os.path.join(VERIF, "harness", s)
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    rep = os.path.join(d, "%s-%s-search.json" % (pid, g.name))
    rc, out, err, dt = run([sys.executable, script, "--repo", REPO, "--out", rep, "--work", work], 150, None)
    if rc == 1 and os.path.exists(rep):
        return rep
    return None


def write_evidence(prop, tier, results, code, wall, undecided):
    pid = prop["id"]
    proved = [r for r in results if r["kind"] != "bounded"]
    bounded = [r for r in results if r["kind"] == "bounded"]
    backends = {}
    for r in results:
        backends[r["backend"]] = backends.get(r["backend"], 0) + r["discharged"]
    ev = dict(property=pid, tier=tier, seed=SEED, level=prop["level"], wall_s=round(wall, 2), violations=1 if code == 1 else 0,
              assumptions=prop["assumptions"] + COMMON_ASSUMPTIONS,
              coverage=dict(
                  obligations=sum(r["obligations"] for r in proved),
                  discharged=sum(r["discharged"] for r in proved),
                  checker_cmd="python3 /verif/bin/check.py %s %s (goto-cc, goto-instrument --dfcc, cbmc 6.11.0)" % (pid, tier),
                  trusted_base=["cbmc 6.11.0 C front end, symbolic execution and SAT back end", "cbmc models of libc"] + prop.get("trusted", []),
                  functions_under_contract=sorted({f for r in results for f in r["functions"]}),
                  obligations_bounded_stand_ins=sum(r["obligations"] for r in bounded),
                  discharged_bounded_stand_ins=sum(r["discharged"] for r in bounded),
                  backend_discharged=backends,
                  solver_time_s=round(sum(r["solver_s"] for r in results), 2),
                  goals=[dict(name=r["name"], kind=r["kind"], bound=r["bound"], status=r["status"], obligations=r["obligations"],
                              discharged=r["discharged"], reach=r.get("reach"), cases=r.get("cases"), wall_s=round(r["wall_s"], 2), reason=r["reason"][:300])
                         for r in results],
                  undecided=[r["name"] for r in undecided]))
    if not proved:
        ev["level"] = "other"
        ev["coverage"]["explanation"] = "Bounded stand-ins only: " + "; ".join("%s (%s)" % (r["name"], r["bound"]) for r in bounded)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


COMMON_ASSUMPTIONS = [
    "memory allocation succeeds (the code asserts on failure)",
    "C semantics as compiled by goto-cc for x86_64 LP64, IEEE-754 floats, round-to-nearest",
    "single-threaded execution",
]
