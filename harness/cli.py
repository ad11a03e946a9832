# Running the command line programs inside a scratch directory.
import contextlib
import hashlib
import os
import random
import re
import shutil
import tempfile

import numpy as np

from common import Malformed, intlist
from fam_fileio import SYM

NUM = {v: k for k, v in SYM.items()}


def poscar_text(L, pos, nums, comment="made here", labels=True, order=None):
    """A POSCAR of our own making; species in the given order."""
    kinds = order or sorted(set(nums))
    idx = [i for z in kinds for i in range(len(nums)) if nums[i] == z]
    lines = [comment, "1.0"] + ["  ".join("%.12f" % x for x in r) for r in np.asarray(L).tolist()]
    lines += [" ".join(SYM[z] for z in kinds), " ".join(str(sum(1 for y in nums if y == z)) for z in kinds), "Direct"]
    for i in idx:
        lines.append("  ".join("%.12f" % x for x in pos[i]) + ("  " + SYM[nums[i]] if labels else ""))
    return "\n".join(lines) + "\n"


def yaml_text(L, pos, nums, comment="made here", zoom=1):
    f = lambda rows: "[" + ", ".join("[" + ", ".join("%.12f" % x for x in r) + "]" for r in np.asarray(rows).tolist()) + "]"
    return "comment: %s\nlattice: %s\npositions: %s\nnumbers: [%s]\nzoom: %s\n" % (
        comment, f(L), f(pos), ", ".join(map(str, nums)), zoom)


def parse(name, text):
    """(L, pos, nums) of a structure file, read without the code under test."""
    if "lattice:" in text and "numbers:" in text:
        import yaml
        d = yaml.safe_load(text)
        return (np.array(d["lattice"], float) * float(d.get("zoom", 1)), np.array(d["positions"], float).reshape(-1, 3),
                intlist(d["numbers"]))
    lines = [l for l in text.split("\n")]
    try:
        sc = float(lines[1])
        L = np.array([[float(x) for x in l.split()[:3]] for l in lines[2:5]])
        species, counts = lines[5].split(), [int(x) for x in lines[6].split()]
        mode = lines[7].strip()[:1].upper()
        nums = [NUM[s] for s, c in zip(species, counts) for _ in range(c)]
        P = np.array([[float(x) for x in l.split()[:3]] for l in lines[8:8 + len(nums)]]).reshape(-1, 3)
        rest = [l for l in lines[8 + len(nums):] if l.strip()]
    except (ValueError, IndexError, KeyError):
        raise Malformed("%s is not a structure file" % os.path.basename(name))
    if P.shape[0] != len(nums) or rest or len(species) != len(counts) or L.shape != (3, 3):
        raise Malformed("%s is not a structure file" % os.path.basename(name))
    if sc < 0:
        sc = (-sc / abs(np.linalg.det(L)))**(1 / 3.0)
    L = L * sc
    if mode in ("C", "K"):
        P = np.matmul(P * sc, np.linalg.inv(L))
    return L, P, nums


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha1(h.read()).hexdigest()
        for f in dirs:
            out[os.path.relpath(os.path.join(base, f), d) + "/"] = ""
    return out


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="ababe-cli-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def coinciding_names(seed, rate):
    """random.choices with coincidences: now and then it repeats something it returned before."""
    rng = random.Random(seed)
    real = random.choices
    last = []

    def choices(population, weights=None, *, cum_weights=None, k=1):
        if last and rng.random() < rate:
            same = [x for x in last if len(x) == k]
            if same:
                return list(rng.choice(same))
        pop = list(population)
        r = [pop[0]] * k if not last else [pop[rng.randrange(len(pop))] for _ in range(k)]
        last.append(r)
        return list(r)
    random.choices = choices
    try:
        yield
    finally:
        random.choices = real


def call(app, args):
    """Runs one command of runaba/runati in this process; what it printed."""
    import io
    import sys
    from ababe.cmdline import runabalib, runatilib
    group = {"runaba": runabalib, "runati": runatilib}[app].exec_from_cmdline
    buf, old = io.StringIO(), sys.stdout
    sys.stdout = buf
    try:
        group.main(args=[str(a) for a in args], prog_name=app, standalone_mode=False)
    finally:
        sys.stdout = old
    return buf.getvalue()


def read_new(d, before):
    """The files that are new in d, parsed; and whether everything that was there still is as it was."""
    after = tree(d)
    kept = all(after.get(p) == h for p, h in before.items())
    files = []
    for p in sorted(after):
        if p.endswith("/") or p in before:
            continue
        with open(os.path.join(d, p)) as f:
            files.append((p, parse(p, f.read())))
    return files, kept


def readable(path, nums):
    """The package itself reads the file, and finds those atoms in it."""
    from ababe.io.io import GeneralIO
    c = GeneralIO.from_file(path)
    return sorted(intlist(c.numbers)) == sorted(nums)


def matching(edges, n_left, n_right, prefer):
    """A matching of lefts to rights, rights in `prefer` used first. edges[l] = set of rights."""
    owner = {}

    def aug(l, seen):
        for r in sorted(edges[l], key=lambda r: (r not in prefer, r)):
            if r in seen:
                continue
            seen.add(r)
            if r not in owner or aug(owner[r], seen):
                owner[r] = l
                return True
        return False
    # first the preferred rights alone
    full = edges
    edges = [set(e) & prefer for e in full]
    left = [l for l in range(n_left) if not aug(l, set())]
    edges = full
    for l in left:
        aug(l, set())
    return {l: r for r, l in owner.items()}
