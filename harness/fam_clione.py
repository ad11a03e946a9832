# C20: the commands that write one structure
import math
import os

import numpy as np

import cli
import isometry
from common import KINDS, build_arrays, crystal, grid, gram_of, listing, micro, sym_perms
from fam_clienum import coarse, distances, strip, threshold
from fam_fileio import SYM


def near(cr, a, b, k):
    """Is some image of site a within sqrt(k + 1/2)/N of site b (only to choose inputs)."""
    import itertools
    from common import quad
    u = [a[i] - b[i] for i in range(3)]
    N = cr["N"]
    u = [((x + N // 2) % N) - N // 2 for x in u]
    return any(quad(cr["G"], [u[i] + N * t[i] for i in range(3)]) <= k for t in itertools.product((-2, -1, 0, 1, 2), repeat=3))


NAMES = {"vasp": ["in.vasp", "a.b.vasp", "POSCAR", "POSCAR_x", "sub/cell.vasp", "run.1/x.vasp", "./y.vasp", "CELL.VASP"],
         "yaml": ["in.yaml", "sub/cell.yaml", "x.y.yaml", "run.1/POSCAR.yaml"]}


def gen(rng, i, tier):
    cmd = rng.choice(["supcell", "pcell", "atclear", "atclear", "perturb"])
    while True:
        cr = crystal(rng, maxsites=rng.choice([4, 8, 12]))
        cr.pop("name", None)
        if not coarse(cr) or cr["N"] > 24 or max(cr["G"][k][k] for k in range(3)) > 600:
            continue
        cr = listing(rng, cr)
        form = rng.choice(["vasp", "vasp", "yaml"])
        if form == "yaml" and rng.random() < 0.2:
            z = rng.choice(cr["nums"])
            cr["nums"] = [0 if y == z else y for y in cr["nums"]]
            if set(cr["nums"]) == {0}:
                continue
        case = {"cmd": cmd, "cr": cr, "form": form, "name": rng.choice(NAMES[form]), "abs": rng.choice([0, 0, 1]),
                "out": rng.choice(["", "stdio", "vasp", "yaml"]) if cmd in ("supcell", "pcell") else ""}
        kinds = sorted(set(cr["nums"]))
        if cmd == "supcell":
            case["scale"] = [rng.choice([1, 1, 2, 3, 4]) for _ in range(3)]
            if case["scale"][0] * case["scale"][1] * case["scale"][2] * len(cr["sites"]) > 120:
                continue
        elif cmd == "atclear":
            t = threshold(rng, cr)
            if t is None:
                continue
            case["text"], case["k"] = t
            if rng.random() < 0.05:
                case["text"], case["k"] = "", -1           # no radius given: nothing is in range
            case["around"], case["ele"] = rng.choice(kinds + [rng.choice(KINDS)]), rng.choice(kinds)
            case["refined"] = rng.choice([0, 1, 1])
            X = [s for s, z in zip(cr["sites"], cr["nums"]) if z == case["around"]]
            left = [z for s, z in zip(cr["sites"], cr["nums"])
                    if not (z == case["ele"] and any(near(cr, s, x, case["k"]) for x in X))]
            if not [z for z in left if z]:
                continue
            if len(left) == len(cr["nums"]) and rng.random() < 0.6:
                continue
        elif cmd == "perturb":
            ds = distances(cr, 6.0)
            top = 0.45 * math.sqrt(ds[0]) / cr["N"] if ds else 0.5
            case["r"] = rng.choice([0, 5, 20, int(100 * min(top, 0.5)), int(100 * min(top, 1.5))])     # in 1e-2 A
        return case


def nearest(cr, L, F, nums):
    """For each atom the closest site of its kind, and the distance to it (1e-6 A)."""
    S = np.array(cr["sites"], float) / cr["N"]
    out = []
    images = np.array([[a, b, c] for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1)], float)
    for f, z in zip(F, nums):
        best = (0, 1e3)
        for j in range(len(S)):
            if cr["nums"][j] != z:
                continue
            u = f - S[j]
            u = u - np.rint(u)
            d = np.sqrt((np.matmul(u + images, L)**2).sum(axis=1)).min()
            if d < best[1]:
                best = (j + 1, d)
        out.append([best[0], micro(best[1])])
    return out


def lattice_error(L, G):
    """How far the lattice vectors' scalar products are off, as a length (1e-6 A)."""
    G = np.array(G, float)
    n = np.sqrt(np.diag(G))
    return micro((np.abs(np.matmul(L, L.T) - G) / (n[:, None] + n[None, :])).max())


def run(inp):
    cr = inp["cr"]
    L, P, nums = build_arrays(cr, {})
    nums = nums.tolist()
    with cli.scratch() as d:
        name = inp["name"]
        if "/" in name:
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, "w") as f:
            f.write((cli.poscar_text if inp["form"] == "vasp" else cli.yaml_text)(L, P, nums))
        with open("other.txt", "w") as f:
            f.write("precious\n")
        os.makedirs("elsewhere")
        before = cli.tree(d)
        args = [inp["cmd"], os.path.join(d, name) if inp["abs"] else name]
        if inp["cmd"] == "supcell":
            args += ["-s"] + inp["scale"]
        elif inp["cmd"] == "atclear":
            args += ["-c", SYM[inp["around"]], "-e", SYM[inp["ele"]]] + (["-r", inp["text"]] if inp["text"] else [])
            if not inp["refined"]:
                args += ["--no-refined"]
        elif inp["cmd"] == "perturb":
            args += ["-r", "%.2f" % (inp["r"] / 100)]
        if inp["out"]:
            args += ["--outmode", inp["out"]]
        text = cli.call("runati", args)
        files, kept = cli.read_new(d, before)
        res = {"kept": kept, "nfiles": len(files), "printed": False, "here": True}
        if inp["cmd"] in ("supcell", "pcell") and inp["out"] in ("", "stdio"):
            lines = text.split("\n")
            if lines and lines[0].startswith("PROCESSING"):
                lines = lines[1:]
            f = cli.parse("standard output", "\n".join(lines))
            res["printed"] = True
        else:
            if len(files) != 1:
                return res
            f = files[0][1]
            res["here"] = "/" not in files[0][0]
            res["readable"] = cli.readable(files[0][0], f[2])
        L2, F, n2 = strip(f)
        res["nums"] = n2
        N = cr["N"]
        if inp["cmd"] == "supcell":
            s = inp["scale"]
            H = np.diag(s)
            res["sites"] = grid(F, N * s[0] * s[1] * s[2], tol=1e-3)
            res["gerr"] = lattice_error(L2, gram_of(H.tolist(), cr["G"]))
            return res
        if inp["cmd"] == "perturb":
            res["gerr"] = lattice_error(L2, cr["G"])
            res["moved"] = nearest(cr, L, F, n2)
            return res
        c = cr
        if inp["cmd"] == "atclear":
            X = [s for s, z in zip(cr["sites"], cr["nums"]) if z == inp["around"]]
            keep = [i for i, (s, z) in enumerate(zip(cr["sites"], cr["nums"]))
                    if not (z == inp["ele"] and any(near(cr, s, x, inp["k"]) for x in X))]
            c = dict(cr, sites=[cr["sites"][i] for i in keep], nums=[cr["nums"][i] for i in keep])
        keep = [i for i, z in enumerate(c["nums"]) if z != 0]
        o = dict(c, sites=[c["sites"][i] for i in keep], nums=[c["nums"][i] for i in keep])
        cert = isometry.find(o, L2, F, n2)
        res["found"] = cert is not None
        if cert:
            res["cert"] = cert
        res["gerr"] = lattice_error(L2, cr["G"])
        return res
