#!/usr/bin/env python3
"""Solver-based checking of mliberty1/embc: runs the CBMC harnesses of one property.

usage: vc.py check <ID> [--only HARNESS] [--keep]
       vc.py setup
       vc.py list
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VC_JOBS", "8"))
DEADLINE_S = float(os.environ.get("VC_DEADLINE", "840" if TIER == "quick" else "21600"))
MEM_MB = int(os.environ.get("VC_MEM_MB", "12000"))
T0 = time.time()
VERBOSE = "-v" in sys.argv

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment",
       "-fno-sanitize-recover=all"]


def log(*a):
    print(*a, flush=True)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_MB << 20, MEM_MB << 20))


def run(cmd, timeout, cwd=None, env=None, limit=False):
    """returns (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=limits if limit else None)
    try:
        out, err = p.communicate(timeout=max(1.0, timeout))
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timeout"


class Inconclusive(Exception):
    pass


class Builder:
    """Encodes /repo's current sources: goto binaries for CBMC, objects for replay."""

    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.lib_fns = None
        self.lock = __import__("threading").Lock()
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.gen_config()
        self.sources = []
        for root, _, files in os.walk(os.path.join(REPO, "src")):
            for f in sorted(files):
                if f.endswith(".c"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, os.path.join(REPO, "src"))
                    if rel != "lib.c":      # host library shim: defines its own embc_fatal
                        self.sources.append(rel)
        self.sources.sort()

    def gen_config(self):
        inc = os.path.join(self.work, "include", "embc")
        os.makedirs(inc)
        cml = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cml)
        v = m.groups() if m else ("0", "0", "0")
        m = re.search(r"SET\(PROJECT_PREFIX\s+(\w+)\)", cml)
        sub = {"PROJECT_PREFIX": m.group(1) if m else "EMBC", "EMBC_PLATFORM": "STDLIB",
               "PROJECT_VERSION_MAJOR": v[0], "PROJECT_VERSION_MINOR": v[1],
               "PROJECT_VERSION_PATCH": v[2]}
        t = open(os.path.join(REPO, "src", "config.h.in")).read()
        t = re.sub(r"@(\w+)@", lambda k: sub.get(k.group(1), ""), t)
        with open(os.path.join(inc, "config.h"), "w") as f:
            f.write(t)

        # CBMC loses pointers kept in a union whose first widest member is a
        # void pointer; an extra pointer member (same layout) avoids it.
        pin = os.path.join(self.work, "include_goto", "embc", "stream")
        os.makedirs(pin)
        with open(os.path.join(REPO, "include/embc/stream/async.h")) as f:
            t = f.read()
        with open(os.path.join(pin, "async.h"), "w") as f:
            f.write(re.sub(r"\bunion\s*\{", "union { uint8_t const * vh_first;", t))

    def flags(self, base, kind="native"):
        inc = ["-I" + os.path.join(self.work, "include_goto")] if kind == "goto" else []
        return inc + ["-std=gnu99", "-I" + os.path.join(REPO, "include"),
                "-I" + os.path.join(self.work, "include"),
                "-I" + os.path.join(REPO, "third-party/uthash/src"),
                "-I" + HARN, "-D__FILENAME__=\"%s\"" % base,
                "-DEMBC_LOG_GLOBAL_LEVEL=-1"]

    def obj(self, kind, path, extra):
        key = (kind, path, tuple(extra))
        with self.lock:
            fut = self.cache.get(key)
            if fut is None:
                out = os.path.join(self.work, "%s-%d-%s.o" % (
                    kind, len(self.cache), os.path.basename(path)[:-2]))
                fut = self.pool.submit(self._compile, kind, path, extra, out)
                self.cache[key] = fut
        return fut

    def _compile(self, kind, path, extra, out):
        if kind == "goto":
            cmd = ["goto-cc", "-c", "-DVH_CBMC"]
        else:
            cmd = ["gcc", "-c", "-g", "-w"] + SAN
        cmd += self.flags(os.path.basename(path), kind) + list(extra) + [path, "-o", out]
        rc, so, se = run(cmd, 120)
        if rc != 0:
            raise Inconclusive("compile failed: %s\n%s%s" % (" ".join(cmd), so, se))
        return out

    def library_functions(self):
        """functions defined by /repo's sources and the headers they include."""
        with self.lock:
            if self.lib_fns is None:
                objs = [f.result() for (k, p, e), f in list(self.cache.items())
                        if k == "goto" and p.startswith(REPO)]
                self.lib_fns = set()
                for s_ in self.pool.map(bodies, objs):
                    self.lib_fns |= s_
            return self.lib_fns

    def link(self, kind, h, defs):
        """Link the harness with all of the library's sources."""
        hd = ["-DHARNESS=" + h["entry"]] + ["-D%s=%s" % kv for kv in sorted(defs.items())]
        files = [os.path.join(HARN, h["file"]), os.path.join(HARN, "vh.c")]
        files += [os.path.join(HARN, f) for f in h.get("extra_files", [])]
        futs = [self.obj(kind, f, hd) for f in files]
        sd = h.get("src_defs", {})
        for rel in self.sources:
            if rel in h.get("exclude", []):
                continue
            futs.append(self.obj(kind, os.path.join(REPO, "src", rel),
                                 ["-D" + d for d in sd.get(rel, [])] +
                                 ["-D" + d for d in h.get("all_defs", [])]))
        objs = [f.result() for f in futs]
        out = os.path.join(self.work, "%s-%s-%x" % (kind, h["name"], abs(hash(tuple(hd)))))
        cmd = (["goto-cc"] if kind == "goto" else ["gcc"] + SAN) + objs + ["-o", out]
        if kind == "goto":
            cmd += ["--function", h["entry"]]
        rc, so, se = run(cmd, 120)
        if rc != 0:
            raise Inconclusive("link failed: %s\n%s%s" % (" ".join(cmd), so, se))
        return out


def bodies(gb):
    rc, so, se = run(["goto-instrument", "--list-goto-functions", gb], 60)
    return set(m.group(1) for m in re.finditer(r"^([\w$]+) /\* [\w$]+ \*/$", so, re.M)
               if not m.group(1).startswith("__"))


def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        # killed or crashed mid-stream
        return None


def cbmc_cmd(gb, h, unwind, uwset):
    cmd = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions",
           "--no-malloc-may-fail", "--drop-unused-functions", "--slice-formula",
           "--object-bits", str(h.get("object_bits", 10)), "--json-ui", "--verbosity", "8"]
    if uwset:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(uwset.items()))]
    cmd += h.get("cbmc", [])
    return cmd


def trace_inputs(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "input" and st.get("inputID") == "nd":
            v = st["values"][0]
            vals.append(int(v["binary"], 2) if "binary" in v else int(v["data"]) & (2**64 - 1))
    return vals


class Runner:
    def __init__(self, prop, work):
        self.prop = prop
        self.work = work
        self.b = Builder(work)
        self.t0 = time.time()

    def left(self):
        return DEADLINE_S - (time.time() - T0)

    def solve(self, gb, h, st, unwind, uwset, extra=(), cap=None):
        cap = min(cap or h.get("timeout", 600), self.left())
        t = time.time()
        rc, out, err = run(cbmc_cmd(gb, h, unwind, uwset) + list(extra), cap, limit=True)
        dt = time.time() - t
        st["cbmc_runs"] += 1
        st["cbmc_s"] += dt
        if rc is None:
            raise Inconclusive("%s: no verdict within %.0f s" % (h["name"], cap))
        js = parse_json(out)
        if js is None:
            raise Inconclusive("%s: cbmc ended with %s: %s" % (h["name"], rc, (out[-400:] + err[-400:])))
        res = None
        for e in js:
            if "result" in e:
                res = e["result"]
            mt = e.get("messageText", "")
            m = re.match(r"size of program expression: (\d+) steps", mt)
            if m:
                st["steps"] += int(m.group(1))
            m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", mt)
            if m:
                st["vccs"] += int(m.group(1))
                st["vccs_left"] += int(m.group(2))
            m = re.match(r"(\d+) variables, (\d+) clauses", mt)
            if m:
                st["vars"] = max(st["vars"], int(m.group(1)))
                st["clauses"] = max(st["clauses"], int(m.group(2)))
            m = re.match(r"Runtime (Solver|decision procedure): ([\d.e-]+)s", mt, re.I)
            if m and m.group(1).lower() == "solver":
                st["solver_s"] += float(m.group(2))
                st["solver_calls"] += 1
            if e.get("messageType") == "WARNING":
                m = re.search(r"no body for (?:function|callee) '?([\w$]+)", mt)
                if m:
                    st["nobody"].add(m.group(1))
            if e.get("messageType") == "ERROR":
                raise Inconclusive("%s: cbmc error: %s" % (h["name"], mt))
        if res is None:
            raise Inconclusive("%s: cbmc gave no result (rc %s)" % (h["name"], rc))
        return res

    def trace_of(self, gb, h, st, unwind, uwset, pid):
        res = self.solve(gb, h, st, unwind, uwset, ["--trace", "--property", pid])
        for r in res:
            if r["property"] == pid and r["status"] == "FAILURE":
                return trace_inputs(r.get("trace", []))
        return None

    def replay(self, h, defs, vals, tag):
        exe = self.b.link("native", h, defs)
        path = os.path.join(self.work, "%s-%s.inputs" % (h["name"], tag))
        with open(path, "w") as f:
            for v in vals:
                f.write("%x\n" % v)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=79")
        last = None
        for fill in ("165", "0", "255"):
            rc, so, se = run([exe, path, fill], 20, env=env)
            txt = so + se
            if rc is None:
                return "hang", "the run did not end within 20 s", path
            if rc == 77 or rc in (78, 79) or rc < 0 or "runtime error:" in se:
                return "violation", txt, path
            last = (rc, txt)
            if rc == 0 and "WITNESS reached" in txt:
                break
        if last[0] == 0:
            return "clean", last[1], path
        return "diverged", last[1], path

    def harness(self, h):
        """One harness: encode, solve, classify.  Returns a result dict."""
        tier = dict(h)
        if TIER == "thorough":
            tier.update(h.get("thorough", {}))
        h = tier
        defs = h.get("defs", {})
        st = dict(cbmc_runs=0, cbmc_s=0.0, steps=0, vccs=0, vccs_left=0, vars=0, clauses=0,
                  solver_s=0.0, solver_calls=0, nobody=set(), replays=0)
        r = dict(name=h["name"], entry=h["entry"], defs=defs, stats=st, violations=[],
                 unconfirmed=[], status="ok", props=0, witness=0, unwind=h.get("unwind", 10))
        try:
            gb = self.b.link("goto", h, defs)
            r["functions"] = self.functions(gb, h)
            unwind = h.get("unwind", 10)
            uwset = {}
            cap = h.get("unwind_cap", 16 * unwind)
            while True:
                res = self.solve(gb, h, st, unwind, uwset)
                bad = [x for x in res if x["status"] == "FAILURE"]
                wit = [x for x in res if x["description"] == "WITNESS"]
                uw = [x for x in bad if re.search(r"\.(unwind\.\d+|recursion)$", x["property"])]
                real = [x for x in bad if x not in uw and x["description"] != "WITNESS"]
                if real:
                    break
                if not uw:
                    break
                grown = False
                for x in uw:
                    m = re.match(r"(.*)\.unwind\.(\d+)$", x["property"])
                    if m:
                        k = "%s.%s" % m.groups()
                        cur = uwset.get(k, unwind)
                        if cur < cap:
                            uwset[k] = min(cap, cur * 2)
                            grown = True
                    elif unwind < cap:
                        unwind = min(cap, unwind * 2)
                        grown = True
                if not grown:
                    break
            r["unwind"] = unwind
            r["unwindset"] = uwset
            r["props"] = len(res) - len(wit)
            r["checked"] = sorted(set(x["description"][6:] for x in res
                                      if x["description"].startswith("PROP: ")))
            r["witness"] = sum(1 for x in wit if x["status"] == "FAILURE")
            if real:
                real.sort(key=lambda x: not x["description"].startswith("PROP: "))
                seen = set()
                tried = 0
                for x in real:
                    if x["description"] in seen or tried >= 4:
                        continue
                    seen.add(x["description"])
                    tried += 1
                    vals = self.trace_of(gb, h, st, unwind, uwset, x["property"])
                    if vals is None:
                        r["unconfirmed"].append((x["property"], x["description"], "no trace"))
                        continue
                    kind, txt, path = self.replay(h, defs, vals, "cex%d" % tried)
                    st["replays"] += 1
                    if kind in ("violation", "hang"):
                        r["violations"].append(dict(property=x["property"], what=x["description"],
                                                    inputs=vals, output=txt, path=path,
                                                    line=x.get("sourceLocation", {})))
                        break
                    r["unconfirmed"].append((x["property"], x["description"], kind + ": " + txt[-300:]))
                r["status"] = "violation" if r["violations"] else "unconfirmed"
            elif uw:
                # a loop that the solver can keep running beyond the cap: does the real code hang?
                vals = self.trace_of(gb, h, st, unwind, uwset, uw[0]["property"])
                kind, txt, path = self.replay(h, defs, vals or [], "loop")
                st["replays"] += 1
                if kind in ("hang", "violation"):
                    r["violations"].append(dict(property=uw[0]["property"], what="does not terminate",
                                                inputs=vals, output=txt, path=path, line={}))
                    r["status"] = "violation"
                else:
                    raise Inconclusive("%s: loop bound %d exceeded at %s" % (
                        h["name"], cap, [x["property"] for x in uw]))
            else:
                if not wit or any(x["status"] != "FAILURE" for x in wit):
                    raise Inconclusive("%s: the reachability witness is not reachable (vacuous)" % h["name"])
                missing = [f for f in st["nobody"] if f.startswith("embc_") or f in ("",)]
                if missing:
                    raise Inconclusive("%s: functions without a body: %s" % (h["name"], missing))
                if h.get("validate", True):
                    # encoding validation: a solver-chosen run to the end of the harness must
                    # behave the same on the natively compiled real code.
                    vals = self.trace_of(gb, h, st, unwind, uwset, wit[-1]["property"])
                    kind, txt, path = self.replay(h, defs, vals or [], "witness")
                    st["replays"] += 1
                    r["sample"] = ["%x" % v for v in (vals or [])[:64]]
                    r["validated"] = (kind == "clean" and "WITNESS reached" in txt)
                    if kind in ("violation", "hang"):
                        # the real code misbehaves on an input the solver accepts
                        r["violations"].append(dict(property=wit[-1]["property"],
                                                    what="native run of the witness input misbehaves",
                                                    inputs=vals, output=txt, path=path, line={}))
                        r["status"] = "violation"
        except Inconclusive as e:
            r["status"] = "inconclusive"
            r["why"] = str(e)
        st["nobody"] = sorted(st["nobody"])
        return r

    def functions(self, gb, h):
        """library functions with a body that are reachable from the entry point."""
        gi = gb + ".rch"
        run(["goto-instrument", "--drop-unused-functions", gb, gi], 60)
        return sorted(n for n in bodies(gi) if n in self.b.library_functions())


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "open":
                    out.append(e)
    return out


def check(prop, only=None, keep=False):
    spec = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop.lower())
    rc = 2
    try:
        rn = Runner(prop, work)
        hs = [h for h in spec["harnesses"]
              if (TIER == "thorough" or h.get("tier", "quick") == "quick")
              and (not only or re.search(only, h["name"]))]
        hs.sort(key=lambda h: -h.get("cost", 1))
        results = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(rn.harness, h): h for h in hs}
            for fu in cf.as_completed(futs):
                r = fu.result()
                results.append(r)
                log("[%s] %-28s %-12s props=%d steps=%d vars=%d cbmc=%.1fs (%d runs) %s" % (
                    prop, r["name"], r["status"], r["props"], r["stats"]["steps"],
                    r["stats"]["vars"], r["stats"]["cbmc_s"], r["stats"]["cbmc_runs"],
                    r.get("why", "") if r["status"] == "inconclusive" else
                    ("validated" if r.get("validated") else "")))
                if VERBOSE:
                    log("   unwind", r["unwind"], r.get("unwindset"), "nobody", r["stats"]["nobody"])
                for u in r["unconfirmed"]:
                    log("   unconfirmed:", u)
        rc = report(prop, spec, results)
    finally:
        if keep:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def report(prop, spec, results):
    results.sort(key=lambda r: r["name"])
    evd = os.path.join(VERIF, "evidence")
    rep = os.path.join(evd, "replays")
    os.makedirs(rep, exist_ok=True)
    kf = known_findings(prop)
    for e in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    nviol = 0
    for r in results:
        for v in r["violations"]:
            nviol += 1
            p = os.path.join(rep, "%s-%s.txt" % (prop, r["name"]))
            with open(p, "w") as f:
                f.write("property: %s\nharness: %s (entry %s, %s)\nviolated: %s\nsolver property: %s\n"
                        "location: %s\ninputs (nd values, in call order, hex):\n%s\n\nnative run output:\n%s\n" % (
                            prop, r["name"], r["entry"], r["defs"], v["what"], v["property"],
                            json.dumps(v["line"]), "\n".join("%x" % x for x in (v["inputs"] or [])),
                            v["output"]))
            log("  %s: %s" % (r["name"], v["what"]))
            log("  " + "\n  ".join(v["output"].strip().splitlines()[:6]))
            log("VIOLATION property=%s replay=%s" % (prop, p))
    tot = lambda k: sum(r["stats"][k] for r in results)  # noqa: E731
    incon = [r for r in results if r["status"] in ("inconclusive",)]
    unconf = [r for r in results if r["status"] == "unconfirmed"]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("steps"),
            "transitions": tot("vccs"),
            "traces_validated_against_impl": sum(1 for r in results if r.get("validated")),
            "samples": [{"harness": r["name"], "witness_inputs_hex": r.get("sample", [])} for r in results],
            "explanation": "Bounded symbolic execution of the real C sources by CBMC. 'states' counts the "
                           "symbolic execution steps (SSA program steps over all harness runs), 'transitions' the "
                           "verification conditions generated from them; 'traces_validated_against_impl' counts "
                           "solver-chosen complete runs re-executed on the natively compiled library with the "
                           "same outcome.",
            "functions_encoded": sorted(set(f for r in results for f in r.get("functions", []))),
            "bounds": {r["name"]: {"defs": r["defs"], "unwind": r["unwind"],
                                   "unwindset": r.get("unwindset", {})} for r in results},
            "bounds_text": spec.get("bounds", ""),
            "queries_discharged": sum(r["props"] for r in results if r["status"] == "ok"),
            "vccs_after_simplification": tot("vccs_left"),
            "solver_calls": tot("solver_calls"),
            "solver_s": round(tot("solver_s"), 3),
            "cbmc_s": round(tot("cbmc_s"), 3),
            "cbmc_runs": tot("cbmc_runs"),
            "max_sat_variables": max([r["stats"]["vars"] for r in results] or [0]),
            "max_sat_clauses": max([r["stats"]["clauses"] for r in results] or [0]),
            "witnesses_reached": sum(r["witness"] for r in results),
            "native_replays": tot("replays"),
            "assertions": {r["name"]: r.get("checked", []) for r in results},
            "harness_status": {r["name"]: r["status"] for r in results},
            "unconfirmed": [[r["name"]] + list(u) for r in results for u in r["unconfirmed"]],
            "inconclusive": [r.get("why") for r in incon],
            "known_findings": [e["what"] for e in kf],
        },
        "assumptions": spec.get("assumptions", []) + [
            "C library functions are CBMC's models; allocation does not fail",
            "logging is compiled out (EMBC_LOG_GLOBAL_LEVEL=-1)",
        ] + sorted("no body (nondeterministic result): " + f for r in results for f in r["stats"]["nobody"]),
        "wall_s": round(time.time() - T0, 3),
        "violations": nviol,
    }
    with open(os.path.join(evd, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if nviol:
        return 1
    if incon:
        for r in incon:
            log("INCONCLUSIVE property=%s %s" % (prop, r.get("why")))
        return 2
    if unconf:
        for r in unconf:
            log("UNCONFIRMED property=%s harness=%s %s" % (prop, r["name"], r["unconfirmed"]))
        return 2
    log("OK property=%s harnesses=%d wall=%.1fs" % (prop, len(results), time.time() - T0))
    return 0


def main(argv):
    if not argv or argv[0] == "list":
        for k in sorted(PROPS):
            print(k, [h["name"] for h in PROPS[k]["harnesses"]])
        return 0
    if argv[0] == "setup":
        for t in ("cbmc", "goto-cc", "goto-instrument", "gcc"):
            if not shutil.which(t):
                log("missing tool:", t)
                return 1
        return 0
    if argv[0] == "check":
        only = None
        if "--only" in argv:
            only = argv[argv.index("--only") + 1]
        return check(argv[1], only, "--keep" in argv)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
