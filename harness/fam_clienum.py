# C11: the enumeration commands
import itertools
import math
import os
from math import comb

import numpy as np

import cli
import isometry
from common import (KINDS, adj3, build_arrays, crystal, det3, listing, prototype, quad, random_crystal, sym_perms)
from fam_fileio import SYM


def coarse(cr):
    return 10**4 % cr["N"] == 0 or max(cr["G"][i][i] for i in range(3)) <= 26


def distances(cr, top):
    """All distances (A) below top between atoms of the crystal, own images included."""
    N, G = cr["N"], cr["G"]
    A, d = adj3(G), det3(G)
    B = [math.isqrt(int(top * top * A[i][i] // d)) + 1 for i in range(3)]
    S = cr["sites"]
    D = {tuple((a[k] - b[k]) % N for k in range(3)) for a in S for b in S}
    out = set()
    for u in D:
        for t in itertools.product(*[range(-b - 1, b + 1) for b in B]):
            q = quad(G, [u[k] + N * t[k] for k in range(3)])
            if 0 < q < (top * N)**2:
                out.add(q)
    return sorted(out)


def threshold(rng, cr):
    """(text, k): a distance well away from every distance in the crystal, squared (times N^2) between k and k+1."""
    ds = [0] + distances(cr, 7.0)[:8]
    ds = [math.sqrt(x) / cr["N"] for x in ds]
    gaps = [(a, b) for a, b in zip(ds, ds[1:]) if b - a > 0.03]
    if not gaps:
        return None
    a, b = rng.choice(gaps)
    d = round((a + b) / 2, 4)
    return str(d), int(math.floor((d * cr["N"])**2))


def gen_suplat(rng, tier):
    while True:
        cr = prototype(rng) if rng.random() < 0.75 else random_crystal(rng, 4)
        cr.pop("name", None)
        if coarse(cr) and len(isometry.translations(cr)) == 1 and len(cr["sites"]) <= 6:
            break
    cr = listing(rng, cr, shift=False)
    flat = rng.random() < 0.4
    v = rng.randint(1, 6 if flat else 4) if tier == "quick" else rng.randint(1, 9 if flat else 6)
    return {"cmd": "suplat", "cr": cr, "v": v, "flat": flat, "comment": rng.choice(["", "", "run1"]), "out": rng.choice(["yaml", "vasp", ""]),
            "form": rng.choice(["vasp", "yaml"]), "seed": rng.randrange(10**6), "rate": rng.choice([0, 0.3, 0.7]),
            "before": rng.choice([[], ["SUPLAT_other/keep.yaml"], ["SUPLAT_other/keep.yaml", "SUPLAT_2.vasp", "notes.txt"]])}


def gen(rng, i, tier):
    if rng.random() < 0.25:
        return gen_suplat(rng, tier)
    cap, orbs = (160, 16) if tier == "quick" else (420, 40)
    if rng.random() < 0.08:
        cap, orbs = 600, 60
    while True:
        cr = crystal(rng, maxsites=rng.choice([3, 4, 6, 8, 8]))
        cr.pop("name", None)
        if len(cr["sites"]) < 2 or not coarse(cr) or cr["N"] > 24 or max(cr["G"][k][k] for k in range(3)) > 400:
            continue
        cr = listing(rng, cr)
        cmd = rng.choice(["ocumaker", "ocumaker", "ocubiter", "ocubiter", "ocutenter", "ocumakert"])
        tri = cmd in ("ocutenter", "ocumakert")
        form = "yaml" if tri or rng.random() < 0.3 else "vasp"
        if form == "yaml" and rng.random() < 0.2:
            z = rng.choice(cr["nums"])
            cr["nums"] = [0 if y == z else y for y in cr["nums"]]
            if set(cr["nums"]) == {0}:
                continue
        kinds = sorted(set(cr["nums"]))
        ele = rng.choice(kinds)
        A = cr["nums"].count(ele)
        others = [z for z in KINDS + [0] + kinds if z != ele]
        sp = rng.choice(others)
        sp2 = rng.choice([z for z in others if z != sp])
        op = {"ele": ele, "given": int(len(kinds) > 1 or rng.random() < 0.5), "sp": sp, "sp2": sp2, "n": -1, "n2": -1, "zoom": 0}
        if cmd in ("ocumaker", "ocubiter") and sp == 0:
            op["spgiven"] = rng.choice([0, 1])
        else:
            op["spgiven"] = 1
        have = cr["nums"].count(sp)
        if cmd == "ocumaker":
            if rng.random() < 0.6:
                op["n"] = rng.choice([0, rng.randint(0, A + have), rng.randint(0, A + have)])
            top = A - 1 if op["n"] < 0 else op["n"]
            reqs = [[k, 0] for k in range(1, top - have + 1) if k <= A]
        elif cmd == "ocubiter":
            if rng.random() < 0.8:
                op["n"] = rng.randint(0, A)
            reqs = [[A // 2 + 1 if op["n"] < 0 else op["n"], 0]]
        elif cmd == "ocutenter":
            op["n"] = rng.randint(0, A)
            op["n2"] = rng.randint(0, A - op["n"])
            reqs = [[op["n"], op["n2"]]]
        else:
            reqs = [[a, b] for a in range(1, A) for b in range(1, A) if a + b < A]
        size = sum(comb(A, a) * comb(A - a, b) for a, b in reqs if a + b <= A)
        if size > cap:
            continue
        # at least one atom stays
        left = [z for z in cr["nums"] if z not in (0, ele)]
        worst = max([a * (sp == 0) + b * (sp2 == 0 and tri) for a, b in reqs] or [0])
        if not left and A * (ele != 0) - worst < 1:
            continue
        if ele == 0 and not left:
            continue
        if tri and rng.random() < 0.4:
            op["zoom"], op["by"] = rng.choice([1, 2]), rng.choice([1.25, 0.8, 0.5, 2])      # 1: in the settings, 2: on the command line
        trs = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = threshold(rng, cr)
                if t:
                    trs.append([rng.choice([ele, sp, sp, sp2 if tri else ele] + kinds)] + list(t))
        case = {"cmd": cmd, "cr": cr, "op": op, "reqs": reqs, "trs": [{"z": a, "text": b, "k": c} for a, b, c in trs], "form": form,
                "refined": rng.choice([1, 1, 0]), "mpr": rng.choice([1, 0]) if cmd in ("ocubiter", "ocutenter") else 1,
                "out": rng.choice(["", "vasp", "yaml"]), "comment": rng.choice(["", "", "job"]),
                "seed": rng.randrange(10**6), "rate": rng.choice([0, 0.3, 0.7]), "before": rng.choice([0, 1])}
        reps = orbits(case)
        if len(reps) > orbs:
            continue
        n = sum(wanted(case, c) for c in reps)
        if rng.random() < (0.3 if op["n"] == 0 else 0.04, 0.2, 0.6, 1)[min(n, 3)]:
            return case


def orbits(case):
    """Representatives of the classes that are asked for (used only to find certificates)."""
    cr, op = case["cr"], case["op"]
    perms = sym_perms(cr)
    sites = [i for i, z in enumerate(cr["nums"]) if z == op["ele"]]
    seen, out = set(), []
    for a, b in case["reqs"]:
        for S in itertools.combinations(sites, a):
            for T in itertools.combinations([i for i in sites if i not in S], b):
                c = list(cr["nums"])
                for i in S:
                    c[i] = op["sp"]
                for i in T:
                    c[i] = op["sp2"]
                c = tuple(c)
                if c in seen:
                    continue
                out.append(list(c))
                for p in perms:
                    seen.add(tuple(c[p[i]] for i in range(len(c))))
    return out


def wanted(case, col):
    """Our own idea whether the class is to be written; only a preference in matching files to classes."""
    cr = dict(case["cr"], nums=col)
    if case["mpr"] and len(isometry.translations(cr)) > 1:
        return False
    for t in case["trs"]:
        sub = [s for s, z in zip(cr["sites"], col) if z == t["z"]]
        if sub and any(q <= t["k"] for q in distances(dict(cr, sites=sub), float(t["text"]) + 0.1)):
            return False
    return True


def occupied(cr, col):
    keep = [i for i, z in enumerate(col) if z != 0]
    return {"N": cr["N"], "G": cr["G"], "sites": [cr["sites"][i] for i in keep], "nums": [col[i] for i in keep]}


def strip(f):
    L, P, nums = f
    keep = [i for i, z in enumerate(nums) if z != 0]
    return L, P[keep] if len(keep) else np.zeros((0, 3)), [nums[i] for i in keep]


def run(inp):
    cr = inp["cr"]
    L, P, nums = build_arrays(cr, {})
    name = {"vasp": "mother.vasp", "yaml": "mother.yaml"}[inp["form"]]
    with cli.scratch() as d:
        if inp["cmd"] == "suplat":
            return run_suplat(inp, d, name, L, P, nums.tolist())
        op = inp["op"]
        zoom = op["by"] if op["zoom"] else 1
        text = (cli.poscar_text if inp["form"] == "vasp" else cli.yaml_text)(L / zoom, P, nums.tolist())
        if inp["form"] == "yaml":
            text = cli.yaml_text(L / zoom, P, nums.tolist(), zoom=op["by"] if op["zoom"] == 1 else (7 if op["zoom"] == 2 else 1))
        with open(name, "w") as f:
            f.write(text)
        args = [inp["cmd"], name]
        tri = inp["cmd"] in ("ocutenter", "ocumakert")
        if op["given"]:
            args += ["--element", SYM[op["ele"]]]
        if tri:
            args += ["--speckle", SYM[op["sp"]], SYM[op["sp2"]]]
            if inp["cmd"] == "ocutenter":
                args += ["-n", op["n"], op["n2"]]
            if op["zoom"] == 2:
                args += ["--zoom", op["by"]]
        else:
            if op["spgiven"]:
                args += ["-s", SYM[op["sp"]]]
            if op["n"] >= 0:
                args += ["-n", op["n"]]
        for t in inp["trs"]:
            args += ["-r", SYM[t["z"]], t["text"]]
        if not inp["refined"]:
            args += ["--no-refined"]
        if inp["out"]:
            args += ["--outmode", inp["out"]]
        if inp["comment"]:
            args += ["--comment", inp["comment"]]
        if not inp["mpr"]:
            args += ["--no-move-supercell"]
        if inp["before"]:         # the names that come up first are taken already
            from ababe.stru.scaffold import GeneralCell
            names = {inp["comment"] or x for x in ("default", "made here", GeneralCell(L, P, nums).comment)}
            for c in names:
                for k in (4, 5):
                    p = "STRUCTURES_%s_%s" % (c, "A" * k)
                    os.makedirs(p)
                    with open(os.path.join(p, "STRUCTURE_%s_AAAA.vasp" % c), "w") as f:
                        f.write("precious\n")
        before = cli.tree(d)
        with cli.coinciding_names(inp["seed"], inp["rate"]):
            cli.call("runaba", args)
        files, kept = cli.read_new(d, before)
        reps = orbits(inp)
        mirror = next(iter(sorted(sym_perms(cr, -1))), None)
        pref = {r for r, c in enumerate(reps) if wanted(inp, c)}
        tally = [sorted(set((z, c.count(z)) for z in c if z)) for c in reps]
        certs, edges = {}, []
        for k, (p, f) in enumerate(files):
            f = strip(f)
            e = set()
            for r, c in enumerate(reps):
                m = len(f[2])
                tot = sum(x for _, x in tally[r])
                if m == 0 or [(z, x * m) for z, x in tally[r]] != [(z, f[2].count(z) * tot) for z in sorted(set(f[2]))]:
                    continue
                for col in [c] + ([[c[i] for i in mirror]] if mirror else []):
                    cert = isometry.find(occupied(cr, col), *f)
                    if cert:
                        certs[k, r] = (col, cert)
                        e.add(r)
                        break
            edges.append(e)
        m = cli.matching(edges, len(files), len(reps), pref)
        out = []
        for k, (p, f) in enumerate(files):
            r = {"found": k in m, "nums": strip(f)[2], "readable": cli.readable(p, f[2])}
            if k in m:
                r["claim"], r["cert"] = certs[k, m[k]]
            out.append(r)
        return {"files": out, "kept": kept}


def run_suplat(inp, d, name, L, P, nums):
    cr = inp["cr"]
    with open(name, "w") as f:
        f.write((cli.poscar_text if inp["form"] == "vasp" else cli.yaml_text)(L, P, nums))
    for p in inp["before"]:
        if "/" in p:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("precious\n")
    before = cli.tree(d)
    args = ["suplat", name, "-v", inp["v"]] + (["-L"] if inp["flat"] else [])
    if inp["out"]:
        args += ["-o", inp["out"]]
    if inp["comment"]:
        args += ["-c", inp["comment"]]
    with cli.coinciding_names(inp["seed"], inp["rate"]):
        cli.call("runaba", args)
    files, kept = cli.read_new(d, before)
    out = []
    for p, f in files:
        cert = isometry.find(cr, *f)
        r = {"found": cert is not None, "nums": f[2], "readable": cli.readable(p, f[2])}
        if cert:
            r["cert"] = cert
        out.append(r)
    return {"files": out, "kept": kept}
