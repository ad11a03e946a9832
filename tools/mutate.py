#!/opt/veriftools/pyvenv/bin/python
"""Mutation campaign (development only; no check reads it or its results).
mutate.py gen OUT.jsonl            : all single-point mutants of the non-test sources
mutate.py tests IN OUT [jobs]      : those that the existing tests do not notice
mutate.py checks IN OUT [workers]  : which property's quick check notices each"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pvenv/bin/python"
SKIP_FUNCS = {"raise_not_defined", "nodup_generator", "from_poscar", "default", "random_fill"}

PROPS = [                 # file, function pattern, properties in the order to try
    ("ababe/stru/sogen.py", r"all_speckle|add_one", "C02 C19"),
    ("ababe/stru/sogen.py", r"OccupyGenerator.*(__init__|is_equiv)", "C03 C01 C02 C19"),
    ("ababe/stru/sogen.py", r"OccupyGenerator|numbers2id", "C01 C02 C19 C21"),
    ("ababe/stru/sogen.py", r"get_permutation_cell", "C03 C12"),
    ("ababe/stru/sogen.py", r".", "C12 C03 C21"),
    ("ababe/stru/scaffold.py", r"SitesGrid", "C18 C12"),
    ("ababe/stru/scaffold.py", r"CStru.*neighbors|midpoint", "C15 C12"),
    ("ababe/stru/scaffold.py", r"CStru", "C12 C18 C15"),
    ("ababe/stru/scaffold.py", r"GeneralCell.*(supercell|get_frac)", "C05 C20"),
    ("ababe/stru/scaffold.py", r"GeneralCell.*(refined|shaped|primitive)", "C06 C11 C20"),
    ("ababe/stru/scaffold.py", r"GeneralCell.*(symmetry|wyck)", "C03 C01"),
    ("ababe/stru/scaffold.py", r"GeneralCell", "C21 C01 C03 C08 C02 C06 C07"),
    ("ababe/stru/scaffold.py", r"ModifiedCell.*(sphere|euclid)", "C10 C20"),
    ("ababe/stru/scaffold.py", r"ModifiedCell", "C09 C10 C20"),
    ("ababe/stru/scaffold2d.py", r".", "C15 C18"),
    ("ababe/stru/grid.py", r"to_general|get_frac", "C05 C11"),
    ("ababe/stru/grid.py", r".", "C04 C05 C11"),
    ("ababe/stru/restriction.py", r".", "C08 C11"),
    ("ababe/stru/clarifier.py", r".", "C10 C20"),
    ("ababe/stru/buckyball.py", r".", "C13"),
    ("ababe/stru/site.py", r".", "C09 C10"),
    ("ababe/stru/element.py", r".", "C17 C21"),
    ("ababe/stru/io.py", r".", "C07 C11"),
    ("ababe/io/", r".", "C07 C20 C11"),
    ("ababe/mlearn/mcts.py", r".", "C16"),
    ("ababe/mlearn/dsutils.py", r".", "C14"),
    ("ababe/mlearn/arr", r".", "C15 C14"),
    ("ababe/cmdline/apps/atom", r".", "C20"),
    ("ababe/cmdline/runatilib", r".", "C20"),
    ("ababe/cmdline/", r".", "C11"),
]


def props_of(m):
    for f, pat, ps in PROPS:
        if m["file"].startswith(f) and re.search(pat, m["func"]):
            return ps.split()
    return []


# ------------------------------------------------------------------ generation
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["*"], ast.FloorDiv: ["*", "-"], ast.Mod: ["*"], ast.Pow: ["*"]}


def offsets(src):
    o = [0]
    for line in src.splitlines(True):
        o.append(o[-1] + len(line.encode()))
    return o


def mutants_of(path, rel):
    src = open(path).read()
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def at(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = at(n)
        return b[s:e].decode()

    def add(n, new, what, func, span=None):
        s, e = span or at(n)
        if b[s:e].decode() != new:
            out.append({"file": rel, "func": func, "line": n.lineno, "s": s, "e": e, "new": new, "what": what,
                        "old": b[s:e].decode()})

    def visit(n, func, stmt_print=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP_FUNCS:
                return
            func = (func + "." if func else "") + n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            add(n, "%s %s %s" % (text(n.left), CMP[t], text(n.comparators[0])), "cmp", func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for o in BIN[type(n.op)]:
                add(n, "(%s) %s (%s)" % (text(n.left), o, text(n.right)), "bin", func)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, o.join("(%s)" % text(v) for v in n.values), "bool", func)
            for k in range(len(n.values)):
                add(n, "(" + text(n.values[k]) + ")", "bool1", func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + text(n.operand) + ")", "not", func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(" + text(n.operand) + ")", "neg", func)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const", func)
            elif isinstance(v, int):
                add(n, str(v + 1), "const", func)
                add(n, "(%d)" % (v - 1), "const", func)
            elif isinstance(v, float):
                for k in (0.01, 0.1, 10, 100):
                    add(n, repr(v * k), "const", func)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "not (%s)" % text(n.test), "cond", func)
            if isinstance(n, ast.If):
                add(n.test, "True", "cond", func)
                add(n.test, "False", "cond", func)
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                add(i, "True", "filter", func)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and func and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            add(n, "pass", "drop", func)
        if isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (text(n.target), text(n.value)), "aug", func)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "lower", "rstrip", "rint", "append", "diagonal"):
                add(n, text(n.func.value), "call", func)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "set", "int", "abs", "sorted", "reversed", "float", "deepcopy") and len(n.args) >= 1:
                add(n, "(" + text(n.args[0]) + ")", "call", func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("around", "rint", "floor", "abs", "array", "transpose", "inv", "mod", "sqrt", "ascontiguousarray") and n.args:
                add(n, "(" + text(n.args[0]) + ")", "call", func)
            if len(n.args) == 2 and all(not isinstance(a, ast.Starred) for a in n.args):
                add(n.args[0], text(n.args[1]), "arg", func)
                s, e = at(n.args[0])[0], at(n.args[1])[1]
                add(n, "%s, %s" % (text(n.args[1]), text(n.args[0])), "swap", func, (s, e))
            for k in n.keywords:
                if isinstance(k.value, ast.Constant) and k.value.value is None:
                    continue
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == "self":
            add(n, "return None", "ret", func)
        if isinstance(n, ast.Attribute) and n.attr == "T":
            add(n, text(n.value), "attrT", func)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), "slice", func)
        for c in ast.iter_child_nodes(n):
            visit(c, func)
    visit(tree, "")
    res, seen = [], set()
    for m in out:
        k = (m["s"], m["e"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        t = (b[:m["s"]] + m["new"].encode() + b[m["e"]:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(m)
    return res


def gen(out):
    n = 0
    with open(out, "w") as f:
        for p in sorted(glob.glob("/repo/ababe/**/*.py", recursive=True)):
            rel = os.path.relpath(p, "/repo")
            if "/tests/" in rel or rel.endswith("__init__.py") or "_default_for_test" in rel:
                continue
            for m in mutants_of(p, rel):
                m["id"] = n
                n += 1
                f.write(json.dumps(m) + "\n")
    print(n)


def apply(d, m):
    p = os.path.join(d, m["file"])
    b = open(os.path.join("/repo", m["file"]), "rb").read()
    open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])


def revert(d, m):
    shutil.copy(os.path.join("/repo", m["file"]), os.path.join(d, m["file"]))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
KNOWN = ["TestTest", ]


OWN = {"sogen": "test_sogen test_scaffold", "scaffold": "test_scaffold", "grid": "test_grid", "buckyball": "test_buckyball",
       "element": "test_element", "site": "test_site", "restriction": "test_restriction", "clarifier": "test_clarifier",
       "io": "test_io", "vasp": "test_vasp", "yaml": "test_yaml"}


def own_fail(d, m):
    """A quick look at the file's own tests."""
    k = os.path.basename(m["file"])[:-3]
    ts = ["%s/tests/%s.py" % (os.path.dirname(m["file"]), t) for t in OWN.get(k, "").split()]
    ts = [t for t in ts if os.path.exists(os.path.join(d, t))]
    if not ts:
        return False
    key = (d, tuple(ts))
    ok = []
    for _ in range(1):
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "-rf", "-W", "ignore"] + ts, cwd=d,
                               env=dict(ENV, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            o = p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return True
        bad = set(re.findall(r"^(?:FAILED|ERROR) (\S+)", o, re.M))
        if "rror" in o.splitlines()[-1] or {b for b in bad - KNOWNBAD if "test_time_of" not in b}:
            return True
    return False


KNOWNBAD = set()


def failing(d):
    e = dict(ENV, PYTHONPATH=d)
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-rA", "--tb=no",
                            "-W", "ignore", "ababe"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    except subprocess.TimeoutExpired:
        return None
    # the timing test depends on the load of the machine
    return {t for t in re.findall(r"^PASSED (\S+)", p.stdout.decode(errors="replace"), re.M) if "test_time_of" not in t}


def tests(inp, out, jobs=7):
    ms = [json.loads(l) for l in open(inp)]
    lock = threading.Lock()
    dirs = []
    for k in range(jobs):
        d = "/tmp/mut/t%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        dirs.append(d)
    base = failing(dirs[0])
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--tb=no", "-rf", "-W", "ignore", "ababe"], cwd=dirs[0],
                       env=dict(ENV, PYTHONPATH=dirs[0]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    KNOWNBAD.update(re.findall(r"^(?:FAILED|ERROR) (\S+)", p.stdout.decode(errors="replace"), re.M))
    print("baseline", len(base), KNOWNBAD, flush=True)
    open(out, "a").close()
    ms = [m for m in ms if m["id"] not in {json.loads(l)["id"] for l in open(out)}]
    done = 0

    def one(m):
        nonlocal done
        with lock:
            d = dirs.pop()
        try:
            apply(d, m)
            got = None if own_fail(d, m) else failing(d)
        finally:
            revert(d, m)
            with lock:
                dirs.append(d)
                done += 1
        if got is not None and base <= got:
            with lock, open(out, "a") as f:
                f.write(json.dumps(m) + "\n")
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms))


def checks(inp, out, workers=2):
    have = set()
    if os.path.exists(out):
        have = {json.loads(l)["id"] for l in open(out)}
    ms = [m for m in map(json.loads, open(inp)) if m["id"] not in have]
    lock = threading.Lock()
    slots = []
    for k in range(workers):
        d, v = "/tmp/mut/c%d" % k, "/tmp/mut/v%d" % k
        for x in (d, v):
            shutil.rmtree(x, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        subprocess.run("git -C /verif archive HEAD | (mkdir -p %s && tar -x -C %s)" % (v, v), shell=True, check=True)
        slots.append((d, v))

    def one(m):
        with lock:
            d, v = slots.pop()
        try:
            apply(d, m)
            m["props"] = props_of(m)
            m["caught"] = None
            m["log"] = []
            for p in m["props"]:
                e = dict(ENV, ABABE_REPO=d, PYTHONPATH=d, VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    r = subprocess.run(["timeout", "600", "python3", "check.py", p, "quick"], cwd=v, env=e, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT)
                    o = r.stdout.decode(errors="replace")
                    m["log"].append([p, r.returncode, o[:300]])
                    if r.returncode == 1:
                        m["caught"] = p
                        break
                except Exception as x:
                    m["log"].append([p, -1, repr(x)])
        finally:
            revert(d, m)
            with lock:
                slots.append((d, v))
        with lock, open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    {"gen": gen, "tests": lambda i, o, j="7": tests(i, o, int(j)), "checks": lambda i, o, w="2": checks(i, o, int(w))}[sys.argv[1]](*sys.argv[2:])
