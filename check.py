#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]

Decides one property: model checks the specification modules it rests on,
drives the implementation in /repo, and validates the recorded executions
against the specification with TLC.  Exit 0: held; exit 1: VIOLATION line;
anything else: the machinery itself failed."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
PY = os.environ.get("ABABE_PYTHON", "/opt/pvenv/bin/python")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from plan import PLAN, ASSUMPTIONS                                # noqa: E402

NSHARD = 8


class Machinery(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=3600):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"})
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def tlc(work, module, cfg, env=None, workers=1, extra=(), tag="", heap="2g", timeout=3600):
    meta = os.path.join(work, "meta-%s-%s" % (module, tag))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-XX:ActiveProcessorCount=%d" % max(2, workers),
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-workers", str(workers),
           "-metadir", meta, "-config", cfg] + list(extra) + [module + ".tla"]
    t = time.time()
    rc, out = sh(cmd, SPEC, env, timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "", 0))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "s": time.time() - t}


# ------------------------------------------------------------------ design models
def run_model(work, spec):
    module, cfg = spec["module"], spec["cfg"]
    r = tlc(work, module, cfg, workers=spec.get("workers", 4), tag=os.path.basename(cfg),
            extra=spec.get("extra", ()), heap=spec.get("heap", "4g"))
    ok = "Model checking completed. No error has been found." in r["out"] or spec.get("simulate")
    if r["rc"] != 0 or not ok:
        raise Machinery("model %s/%s does not check:\n%s" % (module, cfg, r["out"][-3000:]))
    r.update(module=module, cfg=cfg)
    return r


def run_suite(work, spec):
    """Behaviours generated by TLC from a design model: lines  B<json>  in its output."""
    r = tlc(work, spec["module"], spec["cfg"], workers=1, tag="suite-" + spec["cfg"],
            extra=spec.get("extra", ()), heap="4g")
    if r["rc"] != 0:
        raise Machinery("suite %s: %s" % (spec["module"], r["out"][-2000:]))
    path = os.path.join(work, "suite-%s.ndjson" % spec["cfg"])
    n = 0
    seen = set()
    with open(path, "w") as f:
        for line in r["out"].splitlines():
            if line.startswith('"B') and line.endswith('"'):
                body = json.loads(line)[1:]
                if body not in seen:
                    seen.add(body)
                    f.write(body + "\n")
                    n += 1
    if n == 0:
        raise Machinery("suite %s generated no behaviour:\n%s" % (spec["module"], r["out"][-2000:]))
    r.update(path=path, behaviours=n, module=spec["module"], cfg=spec["cfg"])
    return r


# ------------------------------------------------------------------ conformance
def read_trace(path):
    recs, pending, ended = [], None, False
    if not os.path.exists(path):
        return recs, pending, ended
    with open(path) as f:
        for line in f:
            if line == "END\n":
                ended = True
            elif "\t" in line:
                a, _, b = line.rstrip("\n").partition("\t")
                d = json.loads(a)
                try:
                    d.update(json.loads(b))
                except ValueError:
                    pending = d
                    continue
                recs.append(d)
    return recs, pending, ended


def drive(work, fam, n, seed, tier, shard, nsh, suite, limit):
    """Run one shard of a driver to its end, surviving crashes of the implementation."""
    out = os.path.join(work, "%s-%d.trace" % (fam, shard))
    cmd = [PY, "-W", "ignore", os.path.join(HARNESS, "run.py"), fam, "--seed", str(seed), "--tier", tier,
           "--shard", "%d/%d" % (shard, nsh), "--n", str(n), "--out", out, "--limit", str(limit),
           "--budget", "500" if tier == "quick" else "5000"]
    if suite:
        cmd += ["--suite", suite]
    scratch = os.path.join(work, "cwd-%s-%d" % (fam, shard))
    os.makedirs(scratch, exist_ok=True)
    try:
        rc, txt = sh(cmd, scratch, timeout=700 if tier == "quick" else 7000)
    except subprocess.TimeoutExpired:
        rc, txt = 124, "driver did not finish"
    recs, pending, ended = read_trace(out)
    if not ended:
        if pending is None:
            raise Machinery("driver %s shard %d failed (rc %s): %s" % (fam, shard, rc, txt[-2000:]))
        # the implementation took the whole process down (or hung in native code): try that case alone
        again = run_inputs(work, fam, [{"id": pending["id"], "in": pending["in"]}], "%s-%d-again" % (fam, shard), limit)
        if again and "out" in again[0]:
            recs.append(again[0])
        else:
            recs.append(dict(pending, out={"exc": "process died (rc %s)" % rc}))
    return recs


def run_inputs(work, fam, inputs, tag, limit):
    src = os.path.join(work, "in-%s.ndjson" % tag)
    out = os.path.join(work, "re-%s.trace" % tag)
    with open(src, "w") as f:
        for r in inputs:
            f.write(json.dumps(r) + "\n")
    scratch = os.path.join(work, "cwd-%s" % tag)
    os.makedirs(scratch, exist_ok=True)
    try:
        sh([PY, "-W", "ignore", os.path.join(HARNESS, "run.py"), fam, "--inputs", src, "--out", out,
            "--limit", str(limit)], scratch, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return []
    return read_trace(out)[0]


def validate(work, module, recs, tag, depth=0):
    """TLC judges every record; returns ({case id: [clauses]}, generated, distinct)."""
    if not recs:
        return {}, 0, 0
    path = os.path.join(work, "val-%s.ndjson" % tag)
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    r = tlc(work, module, "Trace.cfg", env={"TRACE": path}, tag=tag)
    fails = {}
    flat = re.sub(r"\s+", " ", r["out"])
    for m in re.finditer(r'<<"FAIL", (-?\d+), \{(.*?)\}>>', flat):
        fails.setdefault(int(m.group(1)), []).extend(re.findall(r'"([^"]+)"', m.group(2)))
    done = re.search(r'<<"DONE", (\d+)>>', flat)
    os.remove(path)
    if r["rc"] == 0 and done and int(done.group(1)) == len(recs):
        return fails, r["generated"], r["distinct"]
    # TLC could not evaluate some record: isolate it
    if "java.lang.OutOfMemoryError" in r["out"] or "Parsing or semantic analysis failed" in r["out"] or depth > 14:
        raise Machinery("TLC on %s: %s" % (module, r["out"][-2500:]))
    if len(recs) == 1:
        if "Error:" not in r["out"]:
            raise Machinery("TLC on %s: %s" % (module, r["out"][-2500:]))
        msg = re.sub(r"\s+", " ", r["out"][r["out"].find("Error:"):])[:300]
        return {recs[0]["id"]: ["outside_the_specification: " + msg]}, r["generated"], r["distinct"]
    h = len(recs) // 2
    f1, g1, d1 = validate(work, module, recs[:h], tag + "a", depth + 1)
    f2, g2, d2 = validate(work, module, recs[h:], tag + "b", depth + 1)
    for k, v in f2.items():
        f1.setdefault(k, []).extend(v)
    return f1, g1 + g2, d1 + d2


def conform(work, item, seed, tier, shard, nsh, suite):
    fam = item["fam"]
    n = item["n"][0 if tier == "quick" else 1]
    limit = item.get("limit", 60)
    recs = drive(work, fam, n, seed, tier, shard, nsh, suite, limit)
    # a case that timed out is tried once more on its own before it is believed
    for i, r in enumerate(recs):
        if r["out"].get("exc") == "Timeout":
            again = run_inputs(work, fam, [{"id": r["id"], "in": r["in"]}], "%s-%d-slow" % (fam, shard), 2 * limit)
            if again and "out" in again[0]:
                recs[i] = again[0]
    fails, g, d = validate(work, item["trace"], recs, "%s-%d" % (fam, shard))
    return {"fam": fam, "recs": recs, "fails": fails, "generated": g, "distinct": d}


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


def matches(k, prop, fam, rec, clauses):
    return (k["property"] == prop and k.get("family") == fam and set(clauses) <= set(k.get("clauses", []))
            and k.get("input") == rec["in"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    plan = PLAN[prop]
    t0 = time.time()
    work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        if a.replay:
            return replay(work, prop, plan, a.replay)
        return check(work, prop, plan, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(work, prop, plan, path):
    r = json.load(open(path))
    item = next(i for i in plan["conformance"] if i["fam"] == r["family"])
    recs = run_inputs(work, r["family"], [{"id": r["id"], "in": r["in"]}], "replay", 300)
    fails, _, _ = validate(work, item["trace"], recs, "replay")
    print(json.dumps({"recorded_now": recs[0]["out"] if recs else None, "failed_clauses": fails}, indent=1)[:6000])
    return 1 if fails else 0


def check(work, prop, plan, tier, seed, t0):
    ti = 0 if tier == "quick" else 1
    models = [m for m in plan.get("models", []) if tier == "thorough" or not m.get("thorough")]
    results, confs, suites = [], [], {}
    with cf.ThreadPoolExecutor(max_workers=NSHARD) as ex:
        for item in plan["conformance"]:
            if item.get("suite"):
                s = item["suite"] if isinstance(item["suite"], dict) else item["suite"][ti]
                suites[item["fam"]] = run_suite(work, dict(s, extra=[x.replace("@SEED", str(seed)) for x in s.get("extra", ())]))
        jobs = []
        for item in plan["conformance"]:
            n = item["n"][ti]
            nsh = min(item.get("shards", NSHARD), max(1, n))
            su = suites.get(item["fam"])
            if su and item.get("whole_suite"):
                n = su["behaviours"]
                item = dict(item, n=(n, n))
            for s in range(nsh):
                jobs.append(ex.submit(conform, work, item, seed, tier, s, nsh, su["path"] if su else None))
        mj = [ex.submit(run_model, work, m) for m in models]
        confs = [j.result() for j in jobs]
        results = [j.result() for j in mj]
    return report(prop, plan, tier, seed, t0, results, confs, suites)


def report(prop, plan, tier, seed, t0, models, confs, suites):
    bad, known = [], []
    kf = known_findings()
    for c in confs:
        by = {r["id"]: r for r in c["recs"]}
        for cid, clauses in sorted(c["fails"].items()):
            rec = by[cid]
            hit = [k for k in kf if matches(k, prop, c["fam"], rec, clauses)]
            if hit:
                known.append((hit[0], rec, clauses))
            else:
                bad.append((c["fam"], rec, clauses))
    validated = sum(len(c["recs"]) for c in confs)
    steps = sum(len(r["out"].get("steps", [])) for c in confs for r in c["recs"])
    distinct = len({json.dumps([c["fam"], r["in"]], sort_keys=True) for c in confs for r in c["recs"]})
    cov = {
        "states": sum(m["distinct"] for m in models) + sum(c["distinct"] for c in confs)
                  + sum(s["distinct"] for s in suites.values()),
        "transitions": sum(m["generated"] for m in models) + sum(c["generated"] for c in confs)
                       + sum(s["generated"] for s in suites.values()),
        "traces_validated_against_impl": validated,
        "distinct_inputs": distinct,
        "recorded_steps": steps,
        "models": [{"module": m["module"], "cfg": m["cfg"], "distinct_states": m["distinct"],
                    "transitions": m["generated"], "s": round(m["s"], 1)} for m in models],
        "suites": [{"module": s["module"], "behaviours": s["behaviours"]} for s in suites.values()],
        "families": {},
        "samples": [],
    }
    for c in confs:
        f = cov["families"].setdefault(c["fam"], {"cases": 0, "trace_states": 0})
        f["cases"] += len(c["recs"])
        f["trace_states"] += c["distinct"]
    for c in confs:
        if c["recs"] and len(cov["samples"]) < 3 and c["fam"] not in [s["family"] for s in cov["samples"]]:
            r = c["recs"][0]
            cov["samples"].append({"family": c["fam"], "in": r["in"], "out": json.dumps(r["out"])[:1500]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
          "coverage": cov, "assumptions": ASSUMPTIONS + plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, rec, clauses in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if validated == 0:
        raise Machinery("no execution was recorded")
    if bad:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, (fam, rec, clauses) in enumerate(bad[:5]):
            path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, fam, rec["id"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "family": fam, "clauses": clauses, "seed": seed, "tier": tier,
                           "id": rec["id"], "in": rec["in"], "out": rec["out"]}, f)
            print("failed clauses: %s  (family %s, case %s)" % (", ".join(sorted(set(clauses)))[:400], fam, rec["id"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d of %d recorded executions are not behaviours of the specification" % (len(bad), validated))
        return 1
    print("OK %s: %d executions validated, %d model states, %.0f s" % (
        prop, validated, cov["states"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Machinery as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        sys.exit(3)
