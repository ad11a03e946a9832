# C14: the random-pop set
import random

NAMES = ["add", "add", "push", "push", "discard", "discard", "remove", "random_pop", "random_pop", "pop", "get_random", "sample",
         "sample_pop", "contains", "clear", "ior", "iand", "isub", "ixor", "or", "and", "sub", "eq", "new"]


def gen(rng, i, tier, suite):
    if i < len(suite):
        return {"ops": suite[i], "kind": rng.choice(["int", "tuple", "str", "zero", "empty", "sets"]), "seed": rng.randrange(10**6)}
    U = rng.choice([1, 2, 3, 6, 12, 40])
    w = rng.choice([NAMES, [n for n in NAMES if n in ("add", "push", "discard", "random_pop", "get_random", "contains")]])
    ops = []
    for _ in range(rng.choice([6, 20, 60] if tier == "quick" else [20, 60, 200])):
        n = rng.choice(w)
        if n in ("clear", "new") and rng.random() < 0.7:
            n = "add"
        ops.append({"op": n, "x": rng.randint(1, U), "xs": [rng.randint(1, U) for _ in range(rng.randint(0, 5))]
                    if n in ("ior", "iand", "isub", "ixor", "or", "and", "sub", "eq", "new") else []})
    return {"ops": ops, "kind": rng.choice(["int", "tuple", "str", "zero", "empty", "sets"]), "seed": rng.randrange(10**6)}


def run(inp):
    from ababe.mlearn.dsutils import RandomPopSet
    random.seed(inp["seed"])
    enc = {"int": lambda x: x, "tuple": lambda x: (x // 4, x % 4, 0), "str": lambda x: "e%d" % x,
           # the first element is one that counts as false, others are equal to something of another type
           "zero": lambda x: x - 1, "empty": lambda x: () if x == 1 else "" if x == 2 else 0.0 if x == 3 else (x,),
           "sets": lambda x: frozenset(range(x - 1))}[inp["kind"]]
    top = max([o["x"] for o in inp["ops"]] + [x for o in inp["ops"] for x in o["xs"]] + [1])
    dec = {enc(x): x for x in range(0, top + 1)}
    s = RandomPopSet()
    steps = []

    def one(v):
        return [] if v is None else [dec[v]]
    for o in inp["ops"]:
        n, x, xs = o["op"], enc(o["x"]), [enc(v) for v in o["xs"]]
        err, ret = False, []
        try:
            if n == "add":
                s.add(x)
            elif n == "push":
                s.push(x)
            elif n == "discard":
                s.discard(x)
            elif n == "remove":
                s.remove(x)
            elif n == "random_pop":
                ret = one(s.random_pop())
            elif n == "pop":
                ret = one(s.pop())
            elif n == "get_random":
                ret = one(s.get_random())
            elif n == "sample":
                if len(s) <= 12:
                    k = 40 * len(s) + 5
                    ret = sorted({dec[v] for v in (s.get_random() for _ in range(k)) if v is not None})
                else:
                    ret = sorted(dec[v] for v in s)
            elif n == "sample_pop":
                if len(s) <= 8:
                    got = set()
                    for _ in range(40 * len(s)):
                        got.add(dec[RandomPopSet(list(s)).random_pop()])
                    ret = sorted(got)
                else:
                    ret = sorted(dec[v] for v in s)
            elif n == "contains":
                ret = [1 if x in s else 0]
            elif n == "clear":
                s.clear()
            elif n == "ior":
                s |= RandomPopSet(xs)
            elif n == "iand":
                s &= set(xs)
            elif n == "isub":
                s -= set(xs)
            elif n == "ixor":
                s ^= set(xs)
            elif n == "or":
                ret = sorted(dec[v] for v in (s | set(xs)))
            elif n == "and":
                ret = sorted(dec[v] for v in (s & set(xs)))
            elif n == "sub":
                ret = sorted(dec[v] for v in (s - set(xs)))
            elif n == "eq":
                ret = [1 if s == RandomPopSet(xs) else 0]
            elif n == "new":
                s = RandomPopSet(xs)
        except KeyError:
            err = True
        items = [dec.get(v, -1) for v in s]
        steps.append({"op": o, "obs": {"len": len(s), "items": items, "err": err, "ret": ret,
                                       "members": [k for v, k in dec.items() if v in s]}})
    return {"steps": steps}
