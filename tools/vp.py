#!/usr/bin/env python3
"""Runner of the solver-based checks (see /verif/DESIGN.md).

  vp.py PID [--tier quick|thorough] [--only HARNESS] [-v]
  vp.py --replay FILE         re-executes a recorded counterexample natively

For every harness of the property the current /repo sources are compiled with
goto-cc, linked with the harness and handed to CBMC.  The verdict is CBMC's; a
counterexample is re-executed against a native ASan/UBSan build of the same
sources before it is reported.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource
import shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, HERE)

ALL_SRCS = None


def all_srcs():
    """Every library source of the current tree (all of src/libcork)."""
    out = []
    base = os.path.join(REPO, "src", "libcork")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".c"):
                out.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(out)


class H:
    def __init__(self, name, file, entry=None, srcs=(), unwind=10, unwindset=(),
                 flags=(), defs=(), libdefs=(), tiers=("quick", "thorough"), stub_error=True,
                 bound="", timeout=600, native_flags=(), edits=None, extra=(),
                 own_abort=False, kf=None, solver=None, must_reach=True,
                 leak=False, thorough=None, replay=True, native_libs=(),
                 expect_abort=False, unwind_retry=2, mem_gb=8, wrap=(),
                 native_exclude=(), portfolio=(), inner=None,
                 nobody_ok=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.entry = entry or name
        self.defs = list(defs)

    def for_tier(self, tier):
        if tier == "thorough" and self.thorough:
            d = dict(self.__dict__)
            d.update(self.thorough)
            d.pop("thorough")
            return H(**d)
        return self


class Work:
    """Scratch directory of one check run plus its compile cache."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=os.environ.get("VP_TMP", "/tmp"))
        self.lock = threading.Lock()
        self.cache = {}
        os.makedirs(os.path.join(self.dir, "gen/libcork/config"))
        self.inc = ["-I" + os.path.join(REPO, "include"),
                    "-I" + os.path.join(self.dir, "gen"),
                    "-I" + HARN,
                    "-I" + os.path.join(REPO, "src")]
        with open(os.path.join(self.dir, "gen/libcork/config/version.h"), "w") as f:
            f.write('#define CORK_CONFIG_VERSION_MAJOR 0\n'
                    '#define CORK_CONFIG_VERSION_MINOR 0\n'
                    '#define CORK_CONFIG_VERSION_PATCH 0\n'
                    '#define CORK_CONFIG_VERSION_STRING "0.0.0"\n'
                    '#define CORK_CONFIG_REVISION "none"\n')

    def once(self, key, fn):
        with self.lock:
            fut = self.cache.get(key)
            mine = fut is None
            if mine:
                fut = self.cache[key] = cf.Future()
        if mine:
            try:
                fut.set_result(fn())
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def close(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


class BuildError(Exception):
    pass


class Stopped(Exception):
    """A violation has been confirmed: the remaining queries are dropped."""


STOP = threading.Event()
RUNNING = set()


def sh(cmd, timeout=None, mem_gb=None, cwd=None, env=None, procs=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL)
    if procs is not None:
        procs.append(p)
    RUNNING.add(p)
    if STOP.is_set():
        stop_all()
    try:
        out, err = p.communicate(timeout=timeout)
        if STOP.is_set():
            raise Stopped()
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out.decode("utf8", "replace"), err.decode("utf8", "replace"), True
    finally:
        RUNNING.discard(p)


def stop_all():
    STOP.set()
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def source_path(work, src, edits):
    """Path of a library source; `edits` = [(regex, replacement)] applied to a
    scratch copy (used only to shrink size constants; an edit that does not
    match leaves the text alone)."""
    p = os.path.join(REPO, "src", "libcork", src)
    if not edits or src not in edits:
        return p
    key = ("edit", src, repr(edits[src]))

    def make():
        txt = open(p).read()
        for rx, rep in edits[src]:
            txt = re.sub(rx, rep, txt, flags=re.M)
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:8]
        q = os.path.join(work.dir, "edit-%s-%s" % (h, src.replace("/", "_")))
        with open(q, "w") as f:
            f.write('#line 1 "%s"\n' % p)
            f.write(txt)
        return q
    return work.once(key, make)


BASE_DEFS = ["-DCORK_API=CORK_LOCAL"]


def compile_one(work, path, defs, native, san=True):
    key = (path, tuple(defs), native, san)

    def make():
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
        out = os.path.join(work.dir, h + (".o" if native else ".goto"))
        if native:
            cmd = ["gcc", "-g", "-O1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w", "-Werror=implicit-function-declaration", "-DVP_REPLAY"]
            if san:
                cmd += ["-fsanitize=address,undefined",
                        "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"]
        else:
            cmd = ["goto-cc", "-w"]
        cmd += BASE_DEFS + list(defs) + work.inc + ["-c", path, "-o", out]
        rc, o, e, _ = sh(cmd, timeout=120)
        if rc != 0:
            raise BuildError("compile failed: %s\n%s%s" % (" ".join(cmd), o, e))
        return out
    return work.once(key, make)


def build_goto(work, h):
    objs = []
    for s in h.srcs:
        objs.append(compile_one(work, source_path(work, s, h.edits), h.libdefs, False))
    objs.append(compile_one(work, os.path.join(HARN, h.file), list(h.defs) + list(h.libdefs), False))
    rt_defs = (["-DVP_OWN_ABORT"] if h.own_abort else [])
    objs.append(compile_one(work, os.path.join(HARN, "vp_cbmc.c"), rt_defs, False))
    if h.stub_error:
        objs.append(compile_one(work, os.path.join(HARN, "stub_error.c"), [], False))
    for x in h.extra:
        objs.append(compile_one(work, os.path.join(HARN, x), list(h.defs) + list(h.libdefs), False))
    out = os.path.join(work.dir, "h-%s-%d.goto" % (h.name, id(h)))
    rc, o, e, _ = sh(["goto-cc", "-o", out] + objs, timeout=120)
    if rc != 0:
        raise BuildError("goto link failed: %s%s" % (o, e))
    return out


STUB_RX = re.compile(r"\bSTUB\(\s*(\w+)\s*\)")


def build_native(work, h):
    defs = list(h.defs) + list(h.libdefs)
    objs = [compile_one(work, os.path.join(HARN, h.file), defs, True)]
    objs.append(compile_one(work, os.path.join(HARN, "vp_replay.c"),
                            ["-DVP_ENTRY=" + h.entry], True))
    wraps = set(h.wrap)
    for f in [h.file] + [x for x in os.listdir(HARN) if x.endswith(".h") and x != "vp.h" and
                         '"%s"' % x in open(os.path.join(HARN, h.file)).read()]:
        wraps |= set(STUB_RX.findall(open(os.path.join(HARN, f)).read()))
    wraps.discard("f")
    srcs = [s for s in all_srcs() if s not in h.native_exclude]
    with cf.ThreadPoolExecutor(8) as ex:
        lib = list(ex.map(lambda s: compile_one(
            work, source_path(work, s, h.edits), h.libdefs, True), srcs))
    ar = os.path.join(work.dir, "lib-%d.a" % id(h))
    rc, o, e, _ = sh(["ar", "rcs", ar] + lib, timeout=60)
    out = os.path.join(work.dir, "n-%s-%d" % (h.name, id(h)))
    cmd = ["gcc", "-g", "-fsanitize=address,undefined", "-o", out] + objs + [ar]
    cmd += ["-Wl,--wrap=" + w for w in sorted(wraps)]
    cmd += list(h.native_flags) + ["-lpthread"] + list(h.native_libs)
    rc, o, e, _ = sh(cmd, timeout=120)
    if rc != 0:
        raise BuildError("native link failed: %s\n%s%s" % (" ".join(cmd), o, e))
    return out


def run_native(h, exe, tape, workdir):
    t = os.path.join(workdir, "tape-%s-%d" % (h.name, threading.get_ident()))
    with open(t, "w") as f:
        f.write("\n".join(str(x) for x in tape) + "\n")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0" % (1 if h.leak else 0)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    d = tempfile.mkdtemp(prefix="run-", dir=workdir)
    rc, o, e, to = sh([exe, t], timeout=20, cwd=d, env=env)
    shutil.rmtree(d, ignore_errors=True)
    return rc, o, e, to


def tape_of(trace):
    tape = []
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        if st.get("lhs") != "vp_in":
            continue
        if not st.get("sourceLocation", {}).get("function"):
            continue            # static initialisation
        v = st.get("value", {})
        b = v.get("binary")
        if b is not None:
            tape.append(int(b, 2))
        else:
            d = v.get("data", "0")
            m = re.match(r"-?\d+", d)
            tape.append(int(m.group(0)) & 0xffffffffffffffff if m else 0)
    return tape


class Result:
    pass


def run_cbmc(work, h, goto, unwind, deadline):
    """One verdict; with h.portfolio, the first back end to answer wins."""
    if not h.portfolio:
        return run_cbmc1(work, h, goto, unwind, deadline, h.solver, None)
    procs = []
    with cf.ThreadPoolExecutor(len(h.portfolio)) as ex:
        futs = [ex.submit(run_cbmc1, work, h, goto, unwind, deadline, s, procs) for s in h.portfolio]
        best = None
        for fu in cf.as_completed(futs):
            r = fu.result()
            good = not r.timeout and not r.err and r.props and not any(
                p["status"] == "ERROR" for p in r.props)
            if best is None or (good and not best_good):
                best, best_good = r, good
            if good:
                for p in list(procs):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
                break
    return best


def case_loops(h, goto):
    """With h.inner, the loops of the entry function (which select the cases) get
    the bound h.unwind and all others the smaller one."""
    if not h.inner:
        return []
    rc, o, e, _ = sh(["goto-instrument", "--show-loops", goto], timeout=60)
    ids = sorted(set(re.findall(r"\b%s\.\d+" % re.escape(h.entry), o)))
    return ["%s:%d" % (i, h.unwind) for i in ids]


def run_cbmc1(work, h, goto, unwind, deadline, solver, procs):
    cmd = ["cbmc", goto, "--function", h.entry, "--unwind", str(unwind),
           "--unwinding-assertions", "--drop-unused-functions",
           "--no-standard-checks", "--bounds-check", "--pointer-check",
           "--div-by-zero-check", "--undefined-shift-check", "--signed-overflow-check",
           "--trace", "--json-ui", "--verbosity", "8"]
    if not any("malloc-may-fail" in f or "malloc-fail" in f for f in h.flags):
        cmd += ["--no-malloc-may-fail"]
    for u in list(h.unwindset) + case_loops(h, goto):
        cmd += ["--unwindset", u]
    if h.leak:
        cmd += ["--memory-leak-check"]
    env = dict(os.environ, TMPDIR=work.dir)
    if solver and solver[0] == "@int":
        env["PATH"] = os.path.join(HERE, "intbin") + ":" + env["PATH"]
        solver = ["--cvc5"] + list(solver[1:])
    if solver:
        cmd += list(solver)
    cmd += list(h.flags)
    t0 = time.time()
    tmo = max(5, min(h.timeout, deadline - time.time()))
    rc, o, e, to = sh(cmd, timeout=tmo, mem_gb=h.mem_gb, procs=procs, env=env)
    r = Result()
    r.cmd = " ".join(cmd)
    r.wall = time.time() - t0
    r.timeout = to
    r.rc = rc
    r.props = None
    r.stats = {}
    r.err = ""
    if to:
        return r
    try:
        data = json.loads(o)
    except ValueError:
        r.err = "unparseable cbmc output (rc %s): %s %s" % (rc, o[-2000:], e[-500:])
        return r
    msgs = []
    for el in data:
        if "result" in el:
            r.props = el["result"]
        if "messageText" in el:
            msgs.append(el["messageText"])
    r.msgs = msgs
    for m in msgs:
        x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if x:
            r.stats["vccs"] = int(x.group(1))
            r.stats["vccs_remaining"] = int(x.group(2))
        x = re.search(r"size of program expression: (\d+) steps", m)
        if x:
            r.stats["steps"] = int(x.group(1))
        x = re.search(r"(\d+) variables, (\d+) clauses", m)
        if x:
            r.stats["vars"] = int(x.group(1))
            r.stats["clauses"] = int(x.group(2))
        x = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
        if x:
            r.stats["solver_s"] = r.stats.get("solver_s", 0) + float(x.group(1))
            r.stats["queries"] = r.stats.get("queries", 0) + 1
        x = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", m)
        if x:
            r.stats["decision_s"] = r.stats.get("decision_s", 0) + float(x.group(1))
    r.nobody = sorted(set(re.findall(r"no body for (?:function|callee) '?(\w+)", "\n".join(msgs))))
    if r.props is None:
        r.err = "cbmc gave no result (rc %s): %s" % (rc, "\n".join(msgs[-6:]))
    return r


def closing_sources(h, names):
    more = []
    for n in names:
        if n in h.nobody_ok:
            continue
        for s in all_srcs():
            if s in h.srcs or s in more or s in h.native_exclude:
                continue
            if s == "core/error.c" and h.stub_error:
                continue
            txt = open(os.path.join(REPO, "src", "libcork", s)).read()
            if re.search(r"^(?:\w[\w \*]*[ \*])?%s\s*\([^;{]*\)\s*\{" % re.escape(n), txt, re.M):
                more.append(s)
                break
    return more


def check_harness(work, h, deadline, verbose):
    out = {"harness": h.name, "bound": h.bound, "status": "error", "detail": "",
           "unwind": h.unwind, "stats": {}, "failures": [], "witnesses": {},
           "obligations": 0, "discharged": 0, "functions": [], "validated": 0,
           "samples": [], "srcs": list(h.srcs), "missing_bodies": [],
           "cmd": "", "wall": 0}
    t0 = time.time()
    try:
        goto = build_goto(work, h)
    except BuildError as e:
        out["detail"] = str(e)
        return out
    unwind = h.inner or h.unwind
    for attempt in range(h.unwind_retry + 1):
        r = run_cbmc(work, h, goto, unwind, deadline)
        out["cmd"] = r.cmd
        out["stats"] = r.stats
        out["unwind"] = unwind
        out["wall"] = time.time() - t0
        # a refactoring may have moved code: pull in library files that define a
        # function the encoding found no body for, and encode again
        if not r.timeout and not r.err:
            more = closing_sources(h, r.nobody)
            if more:
                h.srcs = list(h.srcs) + more
                out["srcs"] = list(h.srcs)
                goto = build_goto(work, h)
                r = run_cbmc(work, h, goto, unwind, deadline)
                out["cmd"] = r.cmd
                out["stats"] = r.stats
        if r.timeout:
            out["status"] = "timeout"
            out["detail"] = "no verdict within %.0f s" % r.wall
            if attempt and keep:
                # the smaller unwinding had already failed on something else
                pass
            else:
                return out
            break
        if r.err:
            out["detail"] = r.err
            return out
        # comparing pointers of different objects (NULL included) is not an access
        r.props = [p for p in r.props if not p.get("description", "").startswith("pointer relation")]
        fails = [p for p in r.props if p["status"] == "FAILURE"]
        other = [p for p in r.props if p["status"] not in ("FAILURE", "SUCCESS")]
        # once an unwinding assertion fails CBMC reports the rest as UNKNOWN
        if other and not fails:
            out["detail"] = "undecided: " + ", ".join(p["property"] for p in other[:5]) + " " + " | ".join(r.msgs[-6:])
            return out
        wit = [p for p in fails if p.get("description", "").startswith("WITNESS")]
        unw = [p for p in fails if "unwind" in p["property"] or "recursion" in p["property"]]
        real = [p for p in fails if p not in wit and p not in unw]
        keep = bool(real)
        if real or not unw:
            break
        unwind *= 2
        out["detail"] = "unwinding bound raised to %d" % unwind
    out["missing_bodies"] = r.nobody
    nwit = [p for p in r.props if p.get("description", "").startswith("WITNESS")]
    oblig = [p for p in r.props if p not in nwit]
    out["obligations"] = len(oblig)
    out["discharged"] = len([p for p in oblig if p["status"] == "SUCCESS"])
    fn = set()
    for p in r.props:
        f = p.get("sourceLocation", {}).get("function")
        fl = p.get("sourceLocation", {}).get("file", "")
        if f and "/libcork/" in fl:
            fn.add(f)
    for p in wit + real:
        for st in p.get("trace", []):
            if st.get("stepType") == "function-call":
                fl = st.get("function", {}).get("sourceLocation", {}).get("file", "")
                if "/libcork/" in fl:
                    fn.add(st["function"].get("displayName", ""))
    out["functions"] = sorted(fn)
    # --- vacuity: every witness must be reachable --------------------------
    for p in nwit:
        w = p["description"][9:]
        out["witnesses"][w] = out["witnesses"].get(w, False) or p["status"] == "FAILURE"
    if real or unw:
        exe = None
        if h.replay:
            try:
                exe = build_native(work, h)
            except BuildError as e:
                out["detail"] = str(e)
                return out
        confirmed = []
        for p in (real + unw)[:12]:
            tape = tape_of(p.get("trace", []))
            f = {"property": p["property"], "description": p.get("description", ""),
                 "location": p.get("sourceLocation", {}), "tape": tape}
            if exe:
                rc, o, e, to = run_native(h, exe, tape, work.dir)
                f["native_rc"] = rc
                f["native_timeout"] = to
                f["native_out"] = (o + e)[-3000:]
                f["confirmed"] = to or (rc not in (0, 77))
                if rc == 77:
                    f["note"] = "replay left the assumed input space"
            else:
                f["confirmed"] = p in real
                f["native_out"] = "not replayed: " + (h.replay_note if hasattr(h, "replay_note") else "interleaving counterexample")
            out["failures"].append(f)
            if f["confirmed"]:
                confirmed.append(f)
                break
        if confirmed:
            out["status"] = "violation"
        elif unw and not real:
            out["status"] = "error"
            out["detail"] = "unwinding bound %d too small and no failing replay: %s" % (
                unwind, ", ".join(p["property"] for p in unw[:4]))
        else:
            out["status"] = "error"
            out["detail"] = "counterexample did not reproduce natively: " + \
                "; ".join("%s (%s) native rc %s" % (f["property"], f["description"], f.get("native_rc"))
                          for f in out["failures"][:4])
        return out
    missing = [w for w, ok in out["witnesses"].items() if not ok]
    if h.must_reach and (missing or not nwit):
        out["status"] = "error"
        out["detail"] = "vacuous: witness not reachable: %s" % (missing or "none declared")
        return out
    # --- translation check: each witness run must behave natively as modelled
    if h.replay and wit:
        try:
            exe = build_native(work, h)
        except BuildError as e:
            out["detail"] = str(e)
            return out
        for p in wit:
            tape = tape_of(p.get("trace", []))
            rc, o, e, to = run_native(h, exe, tape, work.dir)
            want = "VP-WITNESS " + p["description"][9:]
            if want in o and rc == 0:
                out["validated"] += 1
                out["samples"].append({"witness": p["description"][9:], "inputs": tape[:40]})
            else:
                out["status"] = "error"
                out["detail"] = "witness '%s' does not replay natively (rc %s%s): %s" % (
                    p["description"][9:], rc, " timeout" if to else "", (o + e)[-1500:])
                out["failures"].append({"property": p["property"], "tape": tape,
                                        "description": p["description"], "native_rc": rc,
                                        "native_out": (o + e)[-3000:],
                                        "confirmed": False})
                # A run on which the model meets every assertion but the real code
                # does not is still a real failure of the real code.
                if rc not in (0, 77) or to:
                    out["failures"][-1]["confirmed"] = True
                    out["status"] = "violation"
                return out
    out["status"] = "pass"
    out["wall"] = time.time() - t0
    return out


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "open":
                    res.append(d)
    return res


def write_replay(pid, h, f):
    d = os.path.join(VERIF, "out", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, h.name))
    with open(p, "w") as fh:
        json.dump({"property": pid, "harness": h.name, "failed": f["property"],
                   "description": f["description"], "location": f.get("location"),
                   "tape": f["tape"], "native_output": f.get("native_out", ""),
                   "how": "python3 tools/vp.py --replay %s" % p}, fh, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import spec
    if a.replay:
        d = json.load(open(a.replay))
        h = [x.for_tier(a.tier) for x in spec.SPECS[d["property"]]["harnesses"] if x.name == d["harness"]][0]
        work = Work()
        try:
            exe = build_native(work, h)
            rc, o, e, to = run_native(h, exe, d["tape"], work.dir)
            sys.stdout.write(o + e)
            print("exit status", rc, "(timeout)" if to else "")
        finally:
            work.close()
        return 0
    t0 = time.time()
    deadline = t0 + float(os.environ["VP_MAX"]) if "VP_MAX" in os.environ else t0 + (840 if a.tier == "quick" else float(os.environ.get("VP_THOROUGH_S", "7200")))
    S = spec.SPECS[a.pid]
    hs = [h.for_tier(a.tier) for h in S["harnesses"] if a.tier in h.tiers]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    work = Work()
    results = []
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            futs = {ex.submit(check_harness, work, h, deadline, a.v): h for h in hs}
            for fu in cf.as_completed(futs):
                h = futs[fu]
                try:
                    r = fu.result()
                except (Stopped, cf.CancelledError):
                    continue
                r["h"] = h
                if r["status"] == "violation" and not h.kf and not os.environ.get("VP_ALL"):
                    for f in futs:
                        f.cancel()
                    stop_all()
                results.append(r)
                print("%-10s %-34s %6.1fs  %s" % (r["status"].upper(), h.name, r["wall"],
                      json.dumps(r["stats"]) if a.v else ""), flush=True)
                if r["status"] == "pass" and r["detail"] and a.v:
                    print("   " + r["detail"], flush=True)
                if r["detail"] and r["status"] != "pass":
                    print("   " + r["detail"][:(3000 if a.v else 700)], flush=True)
    finally:
        work.close()
    order = {h.name: i for i, h in enumerate(hs)}
    results.sort(key=lambda r: order[r["h"].name])
    viol, errs = [], []
    kfs = known_findings(a.pid)
    for r in results:
        h = r["h"]
        if h.kf:
            # demonstration of a recorded defect: expected to fail
            if r["status"] == "violation":
                for k in kfs:
                    if k["id"] == h.kf:
                        print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
            elif r["status"] not in ("pass",):
                errs.append(r)
            continue
        if r["status"] == "violation":
            viol.append(r)
        elif r["status"] != "pass":
            errs.append(r)
    ev = {
        "property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": S.get("level", "model_checking"),
        "coverage": {
            "states": sum(r["stats"].get("steps", 0) for r in results),
            "transitions": sum(r["stats"].get("vccs", 0) for r in results),
            "states_rule": "states = symbolic execution steps of the real code encoded by this run "
                           "(CBMC 'size of program expression'); transitions = verification conditions "
                           "generated from them. Each stands for all concrete values within the bounds.",
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(r["discharged"] for r in results),
            "solver_queries": sum(r["stats"].get("queries", 0) for r in results),
            "solver_seconds": round(sum(r["stats"].get("solver_s", 0) for r in results), 3),
            "functions_encoded": sorted(set(f for r in results for f in r["functions"])),
            "bounds": {r["h"].name: "%s; loops unwound %s with unwinding assertions" % (r["h"].bound, r["unwind"]) for r in results},
            "harnesses": [{"name": r["h"].name, "verdict": r["status"], "wall_s": round(r["wall"], 2),
                           "stats": r["stats"], "witnesses": r["witnesses"],
                           "sources": r["srcs"], "functions_without_body": r["missing_bodies"]} for r in results],
            "samples": [dict(s, harness=r["h"].name) for r in results for s in r["samples"]][:20],
        },
        "assumptions": S.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r in viol:
        f = [x for x in r["failures"] if x.get("confirmed")][0]
        p = write_replay(a.pid, r["h"], f)
        print("  %s: %s [%s] at %s:%s" % (r["h"].name, f["description"], f["property"],
              (f.get("location") or {}).get("file", "?"), (f.get("location") or {}).get("line", "?")))
        nat = [l for l in f.get("native_out", "").splitlines() if "VP-FAIL" in l or "ERROR" in l or "runtime error" in l]
        if nat:
            print("  native replay: " + nat[0][:300])
        print("VIOLATION property=%s replay=%s" % (a.pid, p))
    print("%s: %d harnesses, %d obligations, %d violations, %d errors, %.1f s" % (
        a.pid, len(results), ev["coverage"]["obligations"], len(viol), len(errs), time.time() - t0))
    if viol:
        return 1
    if errs:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
