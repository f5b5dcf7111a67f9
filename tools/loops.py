"""Loops of any length: every loop of a harness (all calls inlined) is cut at
its header, and the inductive invariants that close the proof are found by
dropping, from a fixed family of candidates, those that are not inductive."""
import os
import random
import re


def harden(ll):
    """everything is inlined into the harness: at -O0 clang forbids it"""
    s = open(ll).read()
    s = re.sub(r"\bnoinline\b", "alwaysinline", s)
    open(ll, "w").write(s)


PASSES = "always-inline,function(sroa,early-cse,sroa,simplifycfg,adce,sroa)"


def closed(props, cut):
    shown = set()
    for p in props:
        if p["desc"].startswith("var:"):
            if p["status"] == "SUCCESS":
                shown.add(int(p["desc"].split(":")[1]))
        elif not p["desc"].startswith("reach:") and p["status"] != "SUCCESS":
            return False
    return cut <= shown


def decide(tu, meta, harness, work):
    import vf
    mine = [l for l in meta["loops"] if l["fn"] == "vf_h_" + harness]
    uncut = [l for l in mine if "uncut" in l]
    base = os.path.join(work, tu["name"])
    d = os.path.join(work, tu["name"] + "." + harness)
    os.makedirs(d, exist_ok=True)
    gb = os.path.join(d, "cut.gb")
    ncand = max([l["last"] for l in meta["loops"] if "last" in l] + [0])
    on, more = set(), set()
    for l in mine:
        if "last" in l:
            on |= set(range(l["first"], l["tier1"]))
            more |= set(range(l["tier1"], l["last"]))
    text = {}
    for l in mine:
        for i, t in enumerate(l.get("text", [])):
            text[l["first"] + i] = t
    cut = {l["loop"] for l in mine if "last" in l}
    total = solver = 0.0
    rounds = 0
    while True:
        rounds += 1
        with open(os.path.join(d, "cands.h"), "w") as f:
            for i in range(ncand):
                f.write("#define VF_ON_%d %d\n" % (i, i in on))
        rc, o, e = vf.run(["goto-cc", "-DVF_CUT"] + (["-DVF_MORE"] if more is None else []) + [ "-I" + d, "-I" + os.path.join(vf.ROOT, "tools", "ll2c"),
                           base + ".c", "-o", gb], vf.left())
        if rc != 0:
            raise vf.CheckError("goto-cc failed on %s: %s" % (tu["name"], (o + e)[-2000:]))
        r = vf.cbmc(gb, harness, 2, min(vf.left(), tu.get("timeout", 300)), tu.get("cbmc", []))
        total += r["time"]
        solver += r.get("solver", 0.0)
        if r["status"] != "ok":
            break
        drop = {int(p["desc"].split(":")[1]) for p in r["props"]
                if p["desc"].startswith("inv:") and p["status"] != "SUCCESS"}
        on -= drop
        if drop:
            continue
        if more and not uncut and not closed(r["props"], cut):
            on, more = on | more, None
            continue
        break
    r.update(harness=harness, tu=tu["name"], unwind=0, case=None, gb=gb, time=total, solver=solver)
    if r["status"] != "ok":
        return r
    props = []
    variants = {}
    for p in r["props"]:
        if p["desc"].startswith("var:"):
            k = int(p["desc"].split(":")[1])
            if p["status"] == "SUCCESS" or k not in variants:
                variants[k] = dict(p, desc="termination of loop %s: some measure decreases" % k)
        elif p["desc"].startswith("inv:"):
            props.append(dict(p, desc="loop:" + p["desc"]))
        else:
            props.append(p)
    for k in cut - set(variants):
        variants[k] = dict(id="loop.%d.variant" % k, status="FAILURE", desc="termination of loop %d: no measure" % k)
    props += list(variants.values())
    for l in uncut:
        props.append(dict(id="loop.%s" % l["loop"], status="FAILURE",
                          desc="loop: no argument for any length (%s in the loop)" % l["uncut"]))
    r["props"] = props
    r["inferred"] = dict(loops=len(mine), candidates=len(text), invariants=len(on), rounds=rounds)
    r["search"] = True
    return r


def search(exe, harness, seed, seconds, small=True):
    """the induction failed: look for a failing input by running the harness"""
    import time
    import vf
    rng = random.Random(seed)
    t = time.time()
    vals = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300,
            511, 512, 513, 1000, 32767, 32768, 65535, 65536, 65537, 100000]
    wide = [2**64 - 1, 2**63, 2**63 - 1, 2**32, 2**32 - 1, 2**31, 2**31 - 1, 2**64 - 2**31, 2**64 - 2]
    n = 0
    while time.time() - t < seconds and n < 4000:
        n += 1
        ins = []
        kind = rng.choice((0, 0, 1, 2))
        for _ in range(12 if small else 40):
            x = rng.random()
            if small or kind == 0:
                ins.append(rng.choice(vals) if x < 0.9 else rng.getrandbits(16))
            elif kind == 1:
                ins.append(rng.choice(vals) if x < 0.4 else rng.choice(wide) if x < 0.6 else rng.getrandbits(64))
            else:
                ins.append(rng.getrandbits(64))
        rc, out = vf.native_run(exe, harness, ins)
        if vf.native_verdict(rc, out) == "fails":
            return ins, "found by running the harness on chosen inputs (attempt %d)" % n, n
    return None, "no failing input among %d runs" % n, n
