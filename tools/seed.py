#!/usr/bin/env python3
"""tools/seed.py add DEF.py   : make /verif/seeded/<id>/ from a definition (ID, PROP, NEEDS, BREAKS, EDITS, DEMO)
   tools/seed.py try ID [PROP] : run the check of the property against a scratch copy with the bug
Development only; no check reads it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pvenv/bin/python"


def sh(cmd, cwd, env=None, quiet=True, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    shutil.rmtree(d)
    sh(["cp", "-a", "/repo", d], "/")
    sh("git checkout -q -- . ", d)
    return d


def add(path, skip_tests=False):
    ns = {}
    exec(open(path).read(), ns)
    d = copy()
    try:
        for f, old, new in ns["EDITS"]:
            s = open(os.path.join(d, f)).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(os.path.join(d, f), "w").write(s.replace(old, new))
        _, diff = sh("git diff", d)
        out = os.path.join(HERE, "seeded", ns["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os, sys, warnings\nwarnings.filterwarnings('ignore')\nsys.path.insert(0, os.getcwd())\n"
            "sys.dont_write_bytecode = True\n" + ns["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/bash\nexport LC_ALL=C.UTF-8 LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1\n"
            'exec /opt/pvenv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        ok = rc == 0
        if not ok:
            print("demo on clean tree:", rc, o[-600:])
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], d, {"PYTHONPATH": d})
        if rc == 0:
            print("demo does not fail with the patch", o[-300:])
            ok = False
        else:
            print("demo with patch:", rc, o.strip().splitlines()[-1][:200] if o.strip() else "")
        if not skip_tests:
            t = os.path.join(d, "r.json")
            code = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d)
            open(os.path.join(d, "t.sh"), "w").write(code)
            sh(["bash", os.path.join(d, "t.sh"), t], d, {"PYTHONPATH": d})
            r = json.load(open(t))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("passed") or base
            if isinstance(names, dict):
                names = names.get("passed", names)
            passed = set(r.get("passed", []))
            missing = [n for n in names if n not in passed]
            if missing:
                print("TESTS FAIL:", missing[:5])
                ok = False
        print(("KEPT " if ok else "REJECTED ") + ns["ID"])
        if not ok:
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(sid, prop=None, tier="quick", seed="1"):
    m = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
    d = copy()
    try:
        rc, o = sh(["git", "apply", os.path.join(HERE, "seeded", sid, "patch.diff")], d)
        assert rc == 0, o
        rc, o = sh([sys.executable, os.path.join(HERE, "check.py"), prop or m["property"], tier, "--seed", seed], HERE,
                   {"ABABE_REPO": d, "PYTHONPATH": d})
        print("%-28s %s -> rc %d  %s" % (sid, prop or m["property"], rc,
                                        next((l for l in o.splitlines() if "failed clauses" in l or "Machinery" in l or "rror" in l),
                                             (o.splitlines() or [""])[-1])[:160]), flush=True)
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "add":
        for p in sys.argv[2:]:
            add(p)
    elif sys.argv[1] == "try":
        attempt(*sys.argv[2:])
    elif sys.argv[1] == "all":
        bad = [s for s in sorted(os.listdir(os.path.join(HERE, "seeded")))
               if os.path.exists(os.path.join(HERE, "seeded", s, "meta.json")) and attempt(s) != 1]
        print("missed:", bad)
