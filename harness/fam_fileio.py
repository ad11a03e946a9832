# C07: structure files
import os
import re
import shutil
import tempfile

import numpy as np

from common import GRAMS, Malformed, det3, intlist, micro, random_crystal
from common import KINDS

SYM = dict(zip(range(1, 119), (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo "
    "Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl "
    "Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()))
SYM[0] = "G"
ZS = [z for z in range(1, 57)] + [z for z in range(72, 89)]
M6 = 10**6


def lattice6(rng):
    while True:
        kind = rng.random()
        if kind < 0.4:
            L = [[0] * 3 for _ in range(3)]
            for i in range(3):
                L[i][i] = rng.randint(2 * M6, 9 * M6)
        elif kind < 0.6:
            G = np.array(GRAMS[rng.choice(sorted(GRAMS))], float)
            L = np.rint(np.linalg.cholesky(G) * M6 * rng.choice([1, 0.91, 1.23])).astype(int).tolist()
        else:
            L = [[rng.randint(-3 * M6, 3 * M6) for _ in range(3)] for _ in range(3)]
            for i in range(3):
                L[i][i] = rng.choice([-1, 1, 1, 1]) * rng.randint(3 * M6, 9 * M6)
        if rng.random() < 0.3:
            L = [[round(x, -4) for x in r] for r in L]
        d = np.linalg.det(np.array(L) / M6)
        if abs(d) > 20 and max(abs(x) for r in L for x in r) < 98 * M6 // 10:
            return L


def gen(rng, i, tier):
    N = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24])
    n = rng.randint(1, min(8 if rng.random() < 0.8 else 40, N**3))
    pts = set()
    while len(pts) < n:
        pts.add(tuple(rng.randrange(N) for _ in range(3)))
    pts = [list(p) for p in sorted(pts)]
    rng.shuffle(pts)
    if rng.random() < 0.3:
        pts = [[c + N * rng.choice([0, 0, 0, 1, -1]) for c in p] for p in pts]
    zs = rng.sample(ZS, rng.randint(1, 4))
    nums = [rng.choice(zs) for _ in pts]
    op = {"what": rng.choice(["write", "write", "write", "read"]), "p": 1, "q": 1, "neg": 0, "direct": 1}
    if rng.random() < 0.4:
        op["p"], op["q"] = rng.choice([(1, 2), (3, 2), (2, 1), (5, 4), (7, 8), (1, 4), (3, 1), (4, 3)])
    if op["what"] == "write":
        if rng.random() < 0.4:
            nums = [z if rng.random() < 0.6 else 0 for z in nums]
        if all(z == 0 for z in nums):
            nums[0] = zs[0]
        op["via"] = rng.choice(["io_vasp", "io_vasp", "stru_vasp", "io_yaml", "stru_yaml", "general", "general", "print"])
        if op["via"] in ("io_vasp", "stru_vasp"):
            op["direct"] = rng.choice([1, 1, 0])
        elif op["via"] not in ("stru_yaml",):
            op["p"] = op["q"] = 1
        op["fmt"], op["name"] = rng.choice([
            ("", "x.vasp"), ("", "a.b.VASP"), ("", "POSCAR"), ("", "POSCAR_12"), ("", "myPOSCAR.txt"), ("", "s.yaml"),
            ("", "s.YAML"), ("", "s.yaml~"), ("vasp", "out"), ("VASP", "out.txt"), ("yaml", "out"), ("Yaml", "out.dat"),
            ("vasp", "STRUCT_x.vasp"), ("yaml", "x.yaml")])
        if op["via"] == "print":
            op["fmt"] = rng.choice(["vasp", "VASP", "yaml", "YAML"])
        op["yaml"] = int(op["via"] in ("io_yaml", "stru_yaml")
                         or (op["via"] == "general" and (op["fmt"].lower() == "yaml" or "yaml" in op["name"].lower()))
                         or (op["via"] == "print" and op["fmt"].lower() == "yaml"))
    else:
        op["yaml"] = rng.choice([0, 0, 0, 1])
        op["direct"] = 1 if op["yaml"] else rng.choice([1, 0])
        op["neg"] = 0 if op["yaml"] else rng.choice([0, 0, 1])
        op["mode"] = rng.choice(["Direct", "direct", "D", "fractional"] if op["direct"] else
                                ["Cartesian", "cartesian", "C", "c", "K", "kart"])
        op["labels"] = rng.choice([0, 1])
        op["blank"] = rng.choice([0, 1])
        op["ws"] = rng.choice([0, 1, 2])
        op["comment"] = rng.choice(["some comment", "# by hand", "Si2 O4", "2", "Direct", "cartesian lattice: 3", "  indented", "! 1 2 3"])
        if not op["yaml"]:                       # runs of the same species, any order of species
            order = [rng.choice(zs) for _ in range(rng.randint(1, 5))]
            nums = sorted(range(len(nums)), key=lambda k: k * len(order) // len(nums))
            nums = [order[k * len(order) // len(nums)] for k in range(len(pts))]
        elif rng.random() < 0.4:
            nums[rng.randrange(len(nums))] = 0
    return {"N": N, "L": lattice6(rng), "sites": pts, "nums": nums, "op": op}


def s6(x):
    return "%.6f" % (x / M6)


def text_of(inp):
    op, N = inp["op"], inp["N"]
    sc = op["p"] / op["q"]
    frac = np.array(inp["sites"], float) / N
    L = np.array(inp["L"], float) / M6
    sep = [" ", "   ", "\t"][op["ws"]]
    if op["yaml"]:
        f = lambda rows: "[" + ", ".join("[" + ", ".join("%.8f" % x for x in r) + "]" for r in rows) + "]"
        return "comment: c\nlattice: %s\npositions: %s\nnumbers: [%s]\nzoom: %s\n" % (
            f(L), f(frac), ", ".join(map(str, inp["nums"])), sc if op["q"] != 1 else op["p"])
    if op["neg"]:
        scale = "%.12f" % (-abs(np.linalg.det(L)) * sc**3)
    else:
        scale = "%.10f" % sc if op["q"] != 1 else str(op["p"])
    lines = [op["comment"], scale] + [sep.join(s6(x) for x in r) for r in inp["L"]]
    species, counts = [], []
    for z in inp["nums"]:
        if species and species[-1] == SYM[z]:
            counts[-1] += 1
        else:
            species.append(SYM[z])
            counts.append(1)
    lines += [sep.join(species), sep.join(map(str, counts)), op["mode"]]
    P = frac if op["direct"] else np.matmul(frac, L)
    for r, z in zip(P, inp["nums"]):
        lines.append((sep if op["ws"] else "") + sep.join("%.9f" % x for x in r) + (" " + SYM[z] if op["labels"] else ""))
    return "\n".join(lines) + "\n" + ("\n\n" if op["blank"] else "")


def match(inp, F, nums, tol=2e-3):
    """Which listed site, and which image of it, each of the positions F is (0: none)."""
    out = []
    S = np.array(inp["sites"], float) / inp["N"]
    used = set()
    for f, z in zip(F, nums):
        best = {"s": 0, "k": [0, 0, 0]}
        for j in range(len(S)):
            d = f - S[j]
            k = np.rint(d)
            if np.abs(d - k).max() < tol and j not in used and (inp["nums"][j] == z):
                best = {"s": j + 1, "k": [int(x) for x in k]}
                used.add(j)
                break
        out.append(best)
    return out


def ints6(A):
    return [[micro(x) for x in r] for r in np.asarray(A, float).tolist()]


def parse_poscar(inp, text):
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    sc = float(lines[1])
    L = np.array([[float(x) for x in l.split()] for l in lines[2:5]])
    species = lines[5].split()
    counts = [int(x) for x in lines[6].split()]
    mode = lines[7].strip()
    atoms, labels = [], []
    for l in lines[8:]:
        w = l.split()
        atoms.append([float(x) for x in w[:3]])
        labels.append(w[3] if len(w) > 3 else "")
    if L.shape != (3, 3):
        raise Malformed("POSCAR lattice")
    inv = {v: k for k, v in SYM.items()}
    seqn = [inv.get(s, -1) for s, c in zip(species, counts) for _ in range(c)]
    if len(seqn) != len(atoms):
        seqn = [-1] * len(atoms)
    P = np.array(atoms) if atoms else np.zeros((0, 3))
    direct = mode[:1].upper() not in ("C", "K")
    F = P if direct else np.matmul(P, np.linalg.inv(np.array(inp["L"]) / M6))
    com = re.findall(r"([A-Z][a-z]?)(\d+)", lines[0])
    return {"comment": [[a, int(b)] for a, b in com], "comment_ok": "".join(a + b for a, b in com) == lines[0].strip(),
            "scale": micro(sc), "latt": ints6(L), "species": species, "counts": counts, "mode": mode[:1].upper(),
            "atoms": ints6(P), "labels": labels, "nums": seqn, "src": match(inp, F, seqn)}


def parse_yaml(inp, text):
    import yaml
    d = yaml.safe_load(text)
    nums = intlist(d["numbers"])
    com = re.findall(r"([A-Z][a-z]?)(\d+)", str(d["comment"]))
    return {"comment": [[a, int(b)] for a, b in com], "scale": micro(d["zoom"]), "latt": ints6(d["lattice"]),
            "atoms": ints6(d["positions"]), "nums": nums, "src": match(inp, np.array(d["positions"], float), nums)}


def describe(inp, cell):
    nums = intlist(cell.numbers)
    return {"latt": ints6(cell.lattice), "atoms": ints6(cell.positions), "nums": nums,
            "src": match(inp, np.asarray(cell.positions, float), nums), "count": int(cell.num_count)}


def run(inp):
    from ababe.io.io import GeneralIO
    from ababe.io.vasp import VaspInput, VaspOutput
    from ababe.io.yaml import YamlInput, YamlOutput
    from ababe.stru import io as sio
    from ababe.stru.scaffold import GeneralCell
    op = inp["op"]
    d = tempfile.mkdtemp(prefix="ababe-io-")
    try:
        if op["what"] == "read":
            name = os.path.join(d, "x.yaml" if op["yaml"] else "POSCAR")
            with open(name, "w") as f:
                f.write(text_of(inp))
            cell = GeneralIO.from_file(name)
            with open(name) as f:
                same = f.read() == text_of(inp)
            return {"back": describe(inp, cell), "intact": same}
        zoom = op["p"] / op["q"] if op["q"] != 1 else op["p"]
        pos = np.array(inp["sites"], float) / inp["N"]
        cell = GeneralCell(np.array(inp["L"], float) / M6, pos, np.array(inp["nums"]))
        before = (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist())
        out = {}
        via = op["via"]
        name = os.path.join(d, op["name"])
        if via == "print":
            import io as _io
            import sys
            buf, old = _io.StringIO(), sys.stdout
            sys.stdout = buf
            try:
                GeneralIO(cell).write_file(fmt=op["fmt"])
            finally:
                sys.stdout = old
            text = buf.getvalue()
            out["files"] = sorted(os.listdir(d))
        elif via == "general":
            if op["fmt"]:
                GeneralIO(cell).write_file(name, fmt=op["fmt"])
            else:
                GeneralIO(cell).write_file(name)
            out["files"] = sorted(os.listdir(d))
            with open(name) as f:
                text = f.read()
            back = GeneralIO.from_file(name, fmt=op["fmt"] or None)
        else:
            w = {"io_vasp": lambda: VaspOutput(cell, zoom=zoom), "stru_vasp": lambda: sio.VaspPOSCAR(cell, zoom=zoom),
                 "io_yaml": lambda: YamlOutput(cell), "stru_yaml": lambda: sio.YamlOutput(cell, zoom=zoom)}[via]()
            text = w.get_string(direct=False) if not op["direct"] else w.get_string()
            if op["direct"] and not (str(w) == text and repr(w) == text):
                text = str(w)
            if op["direct"]:
                (w.write_file if hasattr(w, "write_file") else w.write)(name)
                out["files"] = sorted(os.listdir(d))
                with open(name) as f:
                    t2 = f.read()
                out["same_text"] = t2 == text
        if via != "general":
            back = GeneralCell(*(YamlInput if op["yaml"] else VaspInput).from_string(text))
        out["doc"] = (parse_yaml if op["yaml"] else parse_poscar)(inp, text)
        out["back"] = describe(inp, back)
        out["intact"] = before == (cell.lattice.tolist(), cell.positions.tolist(), cell.numbers.tolist())
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
