#!/usr/bin/env python3
"""Runner: decides one property by discharging every proof obligation generated
from the current tree.

  vf.py check C01        run the check of a property (exit 0 / 1 / 2)
  vf.py setup            build the translator
  vf.py replay FILE      re-run a recorded counterexample against the real code
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shlex
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LL2C = os.path.join(BUILD, "ll2c")
LL2C_SRC = os.path.join(ROOT, "tools", "ll2c", "ll2c.cpp")
HARNESS = os.path.join(ROOT, "harness")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
GXX = "/usr/bin/g++-13"
JOBS = int(os.environ.get("VF_JOBS", "8"))
DEADLINE = float(os.environ.get("VF_DEADLINE", "840"))
T0 = time.time()

sys.path.insert(0, os.path.join(ROOT, "tools"))


class CheckError(Exception):
    pass


def left():
    return max(5.0, DEADLINE - (time.time() - T0))


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def run(cmd, timeout, cwd=None, mem=False):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd,
                           preexec_fn=limit_mem if mem else None)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


# ------------------------------------------------------------------ setup
def setup():
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "ll2c.sha")
    h = hashlib.sha256(open(LL2C_SRC, "rb").read()).hexdigest()
    if os.path.exists(LL2C) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=") and f != "-fno-exceptions"]
    libs = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support", "analysis"], text=True).split()
    tmp = LL2C + ".%d" % os.getpid()
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-w"] + flags + [LL2C_SRC, "-o", tmp] + libs)
    os.replace(tmp, LL2C)
    with open(stamp, "w") as f:
        f.write(h)


# ------------------------------------------------------------------ extraction
BASE_FLAGS = ["-I" + HARNESS, "-I" + os.path.join(HARNESS, "stub"), "-I" + os.path.join(REPO, "include"),
              "-O0", "-fignore-exceptions", "-fno-rtti", "-fno-access-control",
              "-D_GLIBCXX_ASSERTIONS", "-w", "-ftemplate-depth=2000", "-fbracket-depth=2000"]


def std_flag(tu):
    return "-std=" + tu.get("std", "c++23")


def headers_compile(tu, src, b):
    """do the library headers the harness uses compile on their own?"""
    incs, todo, seen = [], [src], set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        t = open(f).read()
        incs += re.findall(r"^#include <(?:stdx|conc)/[^>]+>", t, re.M)
        todo += [os.path.join(HARNESS, i) for i in re.findall(r'^#include "([^"]+)"', t, re.M)]
    with open(b + ".inc.cpp", "w") as f:
        f.write("\n".join(dict.fromkeys(incs)) + "\n")
    rc, o, e = run([CLANG, std_flag(tu)] + BASE_FLAGS + tu.get("flags", []) + ["-fsyntax-only", b + ".inc.cpp"], left())
    return rc == 0


def leave_out(text, log, files):
    """blank the harnesses that the errors in a compiler log are in"""
    blocks = []
    for i, l in enumerate(text):
        if re.match(r"VF_(HARNESS|CASES)\(", l):
            j = i
            while not text[j].rstrip().endswith("}") or (j > i and text[j][:1] != "}"):
                j += 1
                if j == len(text):
                    break
            blocks.append((i, j))
    lines = {int(m.group(2)) - 1 for m in re.finditer(r"^(\S+?):(\d+):\d+: (?:error|note):", log, re.M)
             if m.group(1) in files}
    hit = [x for x in blocks if any(x[0] <= l <= x[1] for l in lines)]
    text = list(text)
    for i, j in hit:
        for k in range(i, min(j + 1, len(text))):
            text[k] = ""
    return text, len(hit)


def extract(tu, work):
    """harness TU + current headers -> goto binary.  Returns meta or raises."""
    name = tu["name"]
    b = os.path.join(work, name)
    src = os.path.join(HARNESS, tu["src"])
    cmd = [CLANG, std_flag(tu)] + BASE_FLAGS + tu.get("flags", []) + \
          ["-ferror-limit=0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-o", b + ".ll"]
    rc, o, e = run(cmd + [src], left())
    if rc != 0:
        x = CheckError("clang failed on %s: %s" % (name, e[-3000:]))
        if rc is None or not headers_compile(tu, src, b):
            raise x
        x.rejected = tu["rejected"] = e
        # leave out the harnesses with a use that does not compile
        cut, text = b + ".cut.cpp", open(src).read().split("\n")
        for _ in range(8):
            text, n = leave_out(text, e, (src, cut))
            if n == 0:
                raise x
            with open(cut, "w") as f:
                f.write("\n".join(text))
            rc, o, e = run(cmd + [cut], left())
            if rc == 0:
                break
        if rc != 0:
            raise x
        tu["cut"] = cut
    loop = tu.get("mode") == "loop"
    if loop:
        import loops
        syms = re.findall(r"^define .*?@([\w$.]+)\(", open(b + ".ll").read(), re.M)
        loops.harden(b + ".ll")
    passes = loops.PASSES if loop else tu.get("passes", "mem2reg")
    rc, o, e = run([OPT, "-passes=" + passes] + tu.get("optflags", []) + ["-S", b + ".ll", "-o", b + ".2.ll"], left())
    if rc != 0:
        raise CheckError("opt failed on %s: %s" % (name, e[-2000:]))
    rc, o, e = run([LL2C] + (["--cut"] if loop else []) + [b + ".2.ll", b + ".c", b + ".json"], left())
    if rc != 0:
        raise CheckError("extraction failed on %s: %s" % (name, e[-3000:]))
    # one entry point per case of a VF_CASES harness
    cases = {m.group(1): int(m.group(2)) for m in
             re.finditer(r"^@vf_nc_(\w+) = .*constant i64 (\d+)", open(b + ".2.ll").read(), re.M)}
    with open(b + ".c", "a") as f:
        for h, n in cases.items():
            for k in range(n):
                f.write("void vf_h_%s__%d(void){vf_hc_%s(%dULL);}\n" % (h, k, h, k))
    if loop:
        meta = json.load(open(b + ".json"))
        names = subprocess.run(["c++filt"], input="\n".join(syms), capture_output=True, text=True).stdout.split("\n")
        meta["functions"] = [dict(sym=x, name=y) for x, y in zip(syms, names)]
        meta["cases"] = {}
        return meta
    for gb, fl in [(b + ".gb", tu.get("defs", []))] + ([(b + ".uf.gb", ["-D" + tu["uf"]])] if tu.get("uf") else []):
        rc, o, e = run(["goto-cc", "-I" + os.path.join(ROOT, "tools", "ll2c")] + fl + [b + ".c", "-o", gb], left())
        if rc != 0:
            raise CheckError("goto-cc failed on %s: %s" % (name, (o + e)[-3000:]))
    meta = json.load(open(b + ".json"))
    meta["cases"] = cases
    return meta


# ------------------------------------------------------------------ cbmc
def cbmc_cmd(gb, harness, unwind, extra=()):
    return ["cbmc", gb, "--function", "vf_h_" + harness, "--drop-unused-functions", "--object-bits", "12",
            "--no-standard-checks", "--pointer-check", "--unwind", str(unwind),
            "--unwinding-assertions", "--json-ui"] + list(extra)


def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        return None


def cbmc(gb, harness, unwind, timeout, extra=()):
    t = time.time()
    # one SAT back end after the other: a formula that stalls the first is
    # often easy for the second
    for solver, share in (("cadical", 0.6), ("minisat2", 1.0)):
        lim = min(timeout, max(5.0, left() - 90)) * share
        rc, o, e = run(cbmc_cmd(gb, harness, unwind, list(extra) + ["--slice-formula", "--sat-solver", solver]),
                       lim, mem=True)
        if rc is not None:
            break
    dt = time.time() - t
    if rc is None:
        return dict(status="timeout", time=dt)
    j = parse_json(o)
    if j is None:
        return dict(status="error", time=dt, msg=(o + e)[-1500:])
    res = None
    msgs = []
    solver = 0.0
    for m in j:
        if "result" in m:
            res = m["result"]
        t_ = m.get("messageText", "")
        if m.get("messageType") == "ERROR":
            msgs.append(t_)
        mm = re.match(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", t_)
        if mm:
            solver += float(mm.group(1))
    if res is None:
        return dict(status="error", time=dt, msg="; ".join(msgs) or (o + e)[-1500:])
    props = [dict(id=r["property"], desc=r["description"], status=r["status"]) for r in res]
    return dict(status="ok", time=dt, solver=solver, props=props)


def trace_inputs(gb, harness, unwind, prop, timeout, extra=()):
    """counterexample of one obligation: the list of nondet values, and text"""
    rc, o, e = run(cbmc_cmd(gb, harness, unwind, list(extra) + ["--trace", "--property", prop,
                                                                "--sat-solver", "cadical"]), timeout, mem=True)
    if rc is None:
        return None, "timeout while computing the trace"
    j = parse_json(o)
    if j is None:
        return None, (o + e)[-1500:]
    for m in j:
        for r in m.get("result", []):
            if r["property"] == prop and "trace" in r:
                ins = []
                loc = None
                for s in r["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vf_log":
                        v = s["value"]
                        if s.get("hidden") and "binary" not in v:
                            continue
                        if s.get("assignmentType") == "variable" and s.get("sourceLocation", {}).get("function") == "vf_nondet":
                            ins.append(int(v["binary"], 2))
                    if s.get("stepType") == "failure":
                        loc = s.get("sourceLocation")
                return ins, "failed: %s at %s" % (r["description"], loc)
    return None, "no trace in verifier output"


# ------------------------------------------------------------------ native replay
def native_build(tu, work):
    exe = os.path.join(work, tu["name"] + ".native")
    src = tu.get("cut") or os.path.join(HARNESS, tu["src"])
    log = ""
    cands = [(GXX, [x for x in BASE_FLAGS if "bracket" not in x and x != "-fignore-exceptions"]),
             (CLANG, [x for x in BASE_FLAGS if x != "-fignore-exceptions"])]
    if tu.get("native") == "clang":
        cands.reverse()
    for cc, fl in cands:
        fl = [x for x in fl if x not in ("-fno-rtti",)]
        cmd = [cc, std_flag(tu)] + fl + tu.get("flags", []) + \
              ["-DVF_NATIVE", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", src, "-o", exe]
        rc, o, e = run(cmd, left())
        if rc == 0:
            return exe, cmd
        log += e[-500:]
    return None, log


def native_run(exe, harness, inputs, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run([exe, harness] + [str(x) for x in inputs], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env)
        out = p.stdout.decode("utf8", "replace")
        return p.returncode, out[-3000:]
    except subprocess.TimeoutExpired:
        return "timeout", "did not terminate in %ds" % timeout


def native_verdict(rc, out):
    if rc == 0 and "VF-DONE" in out:
        return "passes"
    if rc == 77 or "VF-ASSUME-FALSE" in out:
        return "assumption-false"
    return "fails"


def about(prop):
    from meta import ASSUME
    return ASSUME.get(prop, [])


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=\"([^\"]*)\" (.*)", ln.strip())
            if m and m.group(1) == prop:
                r.append(dict(harness=m.group(2), obligation=m.group(3), text=m.group(4)))
    return r


# ------------------------------------------------------------------ check
def is_reach(p):
    return p["desc"].startswith("reach:")


def is_unwind(p):
    return ".unwind." in p["id"] or p["desc"].startswith("unwinding assertion") or ".recursion" in p["id"]


def tu_unwind(tu, harness, case=None):
    unwind = tu.get("unwind", 20)
    for pat, k in tu.get("unwinds", {}).items():
        if re.match(pat, harness):
            unwind = k if case is None or isinstance(k, int) else k[0] + int(k[1] * case)
    return unwind


def decide(tu, meta, harness, work, case=None):
    """all obligations of one harness"""
    entry = harness if case is None else "%s__%d" % (harness, case)
    gb = os.path.join(work, tu["name"] + ".gb")
    unwind = tu_unwind(tu, harness, case)
    extra = tu.get("cbmc", [])
    tmo = min(left(), tu.get("timeout", 400))
    if tu.get("uf"):
        # products and quotients uninterpreted first; a failure is only
        # believed with the real operations, if those can be decided
        uf = os.path.join(work, tu["name"] + ".uf.gb")
        r = unrolled(uf, entry, unwind, tmo, extra)
        bad = r["status"] == "ok" and [p for p in r["props"] if p["status"] == "FAILURE" and not is_reach(p)]
        if r["status"] == "ok" and not bad:
            r.update(harness=harness, tu=tu["name"], case=case, gb=uf)
            return r
        r2 = unrolled(gb, entry, unwind, min(left(), tu.get("exact", 150), max(10, 400 - (time.time() - T0))),
                      extra, r["extra"])
        if r2["status"] == "ok":
            r = r2
        r.update(harness=harness, tu=tu["name"], case=case, gb=gb if r is r2 else uf)
        return r
    r = unrolled(gb, entry, unwind, tmo, extra)
    r.update(harness=harness, tu=tu["name"], case=case)
    return r


def unrolled(gb, entry, unwind, tmo, extra, more=()):
    """decide with the loops unrolled so far; a loop that runs longer than
    that is unrolled further, alone, as long as nothing else fails"""
    sets = {}
    for m in more[1:2]:
        sets = dict((x.rsplit(":", 1)[0], int(x.rsplit(":", 1)[1])) for x in m.split(","))
    def setting():
        return ["--unwindset", ",".join("%s:%d" % x for x in sorted(sets.items()))] if sets else []

    def unended(r):
        return [p for p in r.get("props", []) if is_unwind(p) and p["status"] != "SUCCESS"]

    r, spent = None, 0.0
    for rnd in range(4):
        us = setting()
        r2 = cbmc(gb, entry, unwind, min(left(), tmo), list(extra) + us)
        spent += r2["time"]
        if r and r2["status"] != "ok":
            break
        r = dict(r2, extra=us, unwind=max([unwind] + list(sets.values())))
        bad = unended(r)
        if (r["status"] != "ok" or not bad or time.time() - T0 > 450 or any(
                p["status"] == "FAILURE" and not is_reach(p) and not is_unwind(p) for p in r["props"])):
            break
        # how far the loops that do not end yet go, looked at on their own
        watch = {p["id"] for p in bad}
        for _ in range(6):
            for p in bad:
                loop = p["id"].replace(".unwind.", ".").replace(".recursion", "")
                k = sets.get(loop, unwind)
                sets[loop] = next((x for x in (unwind * 3, 70, 140, 280, 560) if x > k), k * 2)
            q = cbmc(gb, entry, unwind, min(left(), tmo, 60), list(extra) + setting() +
                     [x for i in sorted(watch) for x in ("--property", i)])
            spent += q["time"]
            bad = unended(q)
            if q["status"] != "ok" or not bad or time.time() - T0 > 450:
                break
    r["time"] = spent
    return r


def merge_cases(rs):
    """an obligation of a case-split harness holds iff it holds in every case"""
    bad = [r for r in rs if r["status"] != "ok"]
    if bad:
        return dict(bad[0], msg="case %s: %s" % (bad[0]["case"], bad[0].get("msg", "")))
    props = {}
    for r in sorted(rs, key=lambda r: r["case"]):
        for p in r["props"]:
            q = props.setdefault(p["id"], dict(p, case=r["case"], extra=r.get("extra", [])))
            if p["status"] != "SUCCESS" and q["status"] == "SUCCESS":
                q.update(status=p["status"], case=r["case"], extra=r.get("extra", []))
    return dict(status="ok", time=sum(r["time"] for r in rs), solver=sum(r.get("solver", 0) for r in rs),
                props=list(props.values()), harness=rs[0]["harness"], tu=rs[0]["tu"],
                unwind=max(r["unwind"] for r in rs), cases=len(rs))


def check(prop, only=None):
    from checks import CHECKS
    import loops
    c = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup()
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)

    tus = [t for t in c["tus"] if t.get("tier", "quick") == "quick" or tier == "thorough"]
    if only:
        tus = [t for t in tus if t["name"] in only.split(",") or any(o.startswith(t["name"] + "/") for o in only.split(","))]
    errors, notes = [], []
    rejected = []
    metas = {}
    results = []
    pool = cf.ThreadPoolExecutor(JOBS)

    def do_extract(tu):
        try:
            return extract(tu, work), None
        except CheckError as x:
            return None, x

    futs = {}
    pend = {pool.submit(do_extract, t): t for t in tus}
    hfuts = {}
    for f in cf.as_completed(pend):
        tu = pend[f]
        m, err = f.result()
        if err:
            if tu.get("optional"):
                notes.append("optional unit %s not applicable to this tree: %s" % (tu["name"], str(err).splitlines()[0][:200]))
            elif getattr(err, "rejected", None):
                rejected.append((tu, err.rejected))
            else:
                errors.append(str(err))
            continue
        if tu.get("rejected"):
            rejected.append((tu, tu["rejected"]))
        metas[tu["name"]] = m
        hs = [h[len("vf_h_"):] for h in m["harnesses"]]
        if only and any("/" in o for o in only.split(",")):
            hs = [h for h in hs if tu["name"] + "/" + h in only.split(",")]
        if not hs:
            errors.append("no harness in " + tu["name"])
        for h in hs:
            fn = loops.decide if tu.get("mode") == "loop" else decide
            if h in m["cases"]:
                for k in range(m["cases"][h]):
                    hfuts[pool.submit(decide, tu, m, h, work, k)] = (tu, h)
            else:
                hfuts[pool.submit(fn, tu, m, h, work)] = (tu, h)
    by_case = {}
    for f in cf.as_completed(hfuts):
        try:
            tu, h = hfuts[f]
            r = f.result()
            if r.get("case") is not None:
                got = by_case.setdefault((tu["name"], h), [])
                got.append(r)
                if len(got) < metas[tu["name"]]["cases"][h]:
                    continue
                r = merge_cases(got)
            results.append((tu, r))
        except Exception as x:  # noqa
            errors.append("%s/%s: %r" % (hfuts[f][0]["name"], hfuts[f][1], x))
    pool.shutdown()

    obligations = discharged = covers = 0
    kinds = {}
    failed = []
    hrep = []
    solver = 0.0
    for tu, r in sorted(results, key=lambda x: (x[0]["name"], x[1]["harness"])):
        hid = tu["name"] + "/" + r["harness"]
        if r["status"] == "timeout" or "out of memory" in r.get("msg", "").lower():
            # not discharged: look for a failing input instead
            p = dict(id="undecided", desc="undecided: the verifier gives no answer (%s)" % r["status"], status="UNKNOWN")
            obligations += 1
            failed.append((tu, dict(r, search=True, small=False, props=[p], unwind=r.get("unwind", 0)), [p]))
            continue
        if r["status"] != "ok":
            errors.append("%s: verifier %s %s" % (hid, r["status"], r.get("msg", "")[-400:]))
            continue
        no = nd = nc = 0
        bad_cover = []
        fails = []
        for p in r["props"]:
            if is_reach(p):
                if p["status"] == "FAILURE":
                    nc += 1
                else:
                    bad_cover.append(p["desc"])
                continue
            no += 1
            k = p["desc"].split(":")[0] if p["desc"].startswith(("post:", "ub:")) else (
                "termination" if is_unwind(p) else "memory")
            kinds[k] = kinds.get(k, 0) + 1
            if p["status"] == "SUCCESS":
                nd += 1
            else:
                fails.append(p)
        obligations += no
        discharged += nd
        covers += nc
        solver += r.get("solver", 0.0)
        hrep.append(dict(harness=hid, obligations=no, discharged=nd, covers=nc, unwind=r["unwind"],
                         cases=r.get("cases", 1),
                         seconds=round(r["time"], 2), **({"inferred": r["inferred"]} if "inferred" in r else {})))
        if fails:
            failed.append((tu, r, fails))
        elif bad_cover or nc == 0:
            errors.append("%s: vacuous, cover not reached: %s" % (hid, bad_cover or "none present"))
        if no == 0:
            errors.append("%s: no obligations generated" % hid)

    # ---- violations
    known = known_findings(prop)
    violations = []
    known_hit = []
    native = {}
    nconfirm = 0
    search_s = 120.0
    for tu, r, fails in failed:
        hid = tu["name"] + "/" + r["harness"]
        gap = tu.get("gap")
        if gap and r["harness"].startswith(gap) and not any(
                t is tu and not q["harness"].startswith(gap) for t, q, _ in failed):
            # the code looks at nodes the unbounded argument leaves out, and
            # behaves as specified on every complete list
            notes.append("%s: argument for lists of any length does not apply (%s); complete lists only" % (
                hid, "; ".join(sorted({p["desc"] for p in fails}))[:300]))
            continue
        gb = r.get("gb", os.path.join(work, tu["name"] + ".gb"))
        kf = [k for k in known if k["harness"] == hid]
        unlisted = []
        for p in fails:
            m = [k for k in kf if k["obligation"] == p["desc"]]
            if m:
                known_hit.append((hid, p["desc"], m[0]["text"]))
            else:
                unlisted.append(p)
        if not unlisted:
            continue
        # user-visible obligations first, internal invariants last
        def rank(p):
            d = p["desc"]
            return (0 if d.startswith("post:") and not d.startswith("post:inv") else
                    1 if d.startswith("ub:") else 3 if d.startswith("post:inv") else 4 if is_unwind(p) else 2)
        unlisted.sort(key=rank)
        confirmed = None
        tried = []
        if nconfirm < 6 and left() > 30:
            if tu["name"] not in native:
                native[tu["name"]] = native_build(tu, work)
            exe, cmd = native[tu["name"]]
            for p in unlisted[:3]:
                if r.get("search"):
                    ins, txt = None, "induction fails"
                    if exe and p is unlisted[0] and not any(v[3] for v in violations) and search_s > 1:
                        t = time.time()
                        ins, txt, _ = loops.search(exe, r["harness"], seed, min(45, search_s, left() / 3), r.get("small", True))
                        search_s -= time.time() - t
                else:
                    k = p.get("case")
                    entry = r["harness"] if k is None else "%s__%d" % (r["harness"], k)
                    ins, txt = trace_inputs(gb, entry, tu_unwind(tu, r["harness"], k), p["id"], min(left(), 300),
                                            list(tu.get("cbmc", [])) + p.get("extra", r.get("extra", [])))
                    if k is not None and ins is not None:
                        ins = [k] + ins
                rec = dict(obligation=p["desc"], inputs=ins, verifier=txt)
                if exe and ins is not None:
                    rc, out = native_run(exe, r["harness"], ins)
                    v = native_verdict(rc, out)
                    rec.update(native_exit=rc, native_output=out, native_verdict=v)
                    if v == "fails":
                        confirmed = rec
                        nconfirm += 1
                        tried.append(rec)
                        break
                elif not exe:
                    rec["native_build"] = cmd
                tried.append(rec)
                if left() < 30:
                    break
        if all(is_unwind(p) for p in unlisted) and not r.get("search") and not confirmed:
            # neither an end of the loop nor an input on which it does not end
            exe = native.get(tu["name"], (None,))[0]
            if exe and search_s > 1 and not any(v[3] for v in violations):
                t = time.time()
                ins, txt, _ = loops.search(exe, r["harness"], seed, min(45, search_s, left() / 3), False)
                search_s -= time.time() - t
                tried.append(dict(obligation=unlisted[0]["desc"], inputs=ins, verifier=txt))
                if ins is not None:
                    rc, out = native_run(exe, r["harness"], ins)
                    if native_verdict(rc, out) == "fails":
                        confirmed = dict(tried[-1], native_exit=rc, native_output=out, native_verdict="fails")
        only_inv = all(rank(p) == 3 for p in unlisted)
        if only_inv:
            # representation invariant only: behaviour is still decided by the
            # black-box contracts; the induction over histories is lost.
            notes.append("%s: representation invariant not preserved (%s); this unit counts as bounded" % (
                hid, "; ".join(p["desc"] for p in unlisted)))
            continue
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, tu["name"], r["harness"]))
        json.dump(dict(property=prop, tu=tu["name"], harness=r["harness"],
                       failed_obligations=[dict(id=p["id"], obligation=p["desc"]) for p in unlisted],
                       confirmed_natively=bool(confirmed), attempts=tried,
                       reproduce="python3 tools/vf.py replay " + path),
                  open(path, "w"), indent=1, default=str)
        violations.append((hid, path, unlisted, confirmed))

    for tu, log in rejected:
        # the headers compile, a use of them that the contract allows does not
        first = ([l for l in log.splitlines() if "error:" in l] or [log[:200]])[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, tu["name"]))
        d = "well-formed: every use in the contract compiles (%s)" % first.split("/include/")[-1][:250]
        json.dump(dict(property=prop, tu=tu["name"], failed_obligations=[dict(id="well-formed", obligation=d)],
                       confirmed_natively=False, verifier=log[-6000:]), open(path, "w"), indent=1)
        obligations += 1
        violations.append((tu["name"], path, [dict(desc=d)], None))

    for hid, d, t in known_hit:
        print("KNOWN-FINDING: property=%s %s (%s, %s)" % (prop, t, hid, d))

    fns = {}
    for m in metas.values():
        for f in m["functions"]:
            if re.match(r"_ZZ?N[KVRO]*4stdx", f["sym"]):
                fns[f["name"]] = 1
    nass = 0
    for t in tus:
        try:
            nass += len(re.findall(r"\bvf_assume\(|\bbelow\(|\bupto\(", open(os.path.join(HARNESS, t["src"])).read()))
        except OSError:
            pass
    level = c.get("level", "proof")
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd="clang++-18 -O0 -emit-llvm | opt-18 -passes=mem2reg | build/ll2c | goto-cc | cbmc --pointer-check --unwinding-assertions (SAT back end)",
            trusted_base=["clang 18 front end and mem2reg", "tools/ll2c (IR to C)", "CBMC 6.11 with its SAT back end",
                          "libstdc++ 13 headers as compiled", "the specifications in harness/"],
            obligations_by_kind=kinds, covers_reached=covers, harnesses=hrep,
            functions_under_contract=len(fns), function_names=sorted(x[:160] for x in fns)[:400],
            solver_seconds=round(solver, 2), requires_clauses_in_harness=nass,
            known_findings_seen=len(known_hit), notes=notes),
        assumptions=about(prop),
        wall_s=round(time.time() - T0, 2), violations=len(violations))
    json.dump(evidence, open(ev_path, "w"), indent=1)

    for n in notes:
        print("note:", n)
    for hid, path, props, conf in violations:
        print("failed obligation(s) in %s: %s" % (hid, "; ".join(p["desc"] for p in props[:4])))
        if conf:
            print("  replayed on the real code: %s" % (conf["native_output"].strip().splitlines() or ["exit %s" % conf["native_exit"]])[0][:300])
    for e in errors:
        print("ERROR:", e)
    print("%s: %d obligations, %d discharged, %d covers, %d harnesses, %.1fs" % (
        prop, obligations, discharged, covers, len(hrep), time.time() - T0))
    if violations:
        # natively confirmed ones first
        violations.sort(key=lambda v: v[3] is None)
        hid, path, props, conf = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if conf else " no-failing-input-found"))
        return 1
    if errors:
        return 2
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return 0


def replay(path):
    from checks import CHECKS
    j = json.load(open(path))
    tu = [t for t in CHECKS[j["property"]]["tus"] if t["name"] == j["tu"]][0]
    work = os.path.join(BUILD, "work", "replay")
    os.makedirs(work, exist_ok=True)
    exe, cmd = native_build(tu, work)
    if not exe:
        try:
            extract(tu, work)
            exe, cmd = native_build(tu, work)
        except CheckError:
            pass
    if not exe:
        print(cmd)
        return 2
    rcx = 0
    for a in j.get("attempts", []):
        if a.get("inputs") is None:
            print("no concrete input for", a["obligation"], "-", a["verifier"])
            continue
        rc, out = native_run(exe, j["harness"], a["inputs"])
        print(a["obligation"], "->", native_verdict(rc, out))
        print(out)
        if native_verdict(rc, out) == "fails":
            rcx = 1
    return rcx


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        setup()
        sys.exit(0)
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        try:
            sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None))
        except CheckError as x:
            print("ERROR:", x)
            sys.exit(2)
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
