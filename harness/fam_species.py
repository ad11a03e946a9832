# C17: species
ZS = list(range(0, 57)) + list(range(72, 89))


def gen(rng, i, tier):
    if i < len(ZS):
        return {"z": ZS[i]}
    return None


def run(inp):
    import json
    import os
    import ababe.stru.element as el
    from ababe.stru.element import GhostSpecie, Specie
    from ababe.stru.site import Site
    from fam_fileio import SYM
    z = inp["z"]
    s = SYM[z]
    with open(os.path.join(os.path.dirname(el.__file__), "pt.json")) as f:
        keys = sorted(json.load(f))
    a = Specie.from_num(z)
    b = Specie(s) if z or "G" in keys else GhostSpecie()
    others = []
    for k in keys:
        for o in (Specie(k), Specie.from_num(Specie(k).Z)):
            others.append({"sym": k, "z": int(o.Z), "eq": bool(a == o), "ne": bool(a != o), "eqr": bool(o == b), "ner": bool(o != b)})
    g = GhostSpecie()
    others.append({"sym": "G", "z": int(g.Z), "eq": bool(a == g), "ne": bool(a != g), "eqr": bool(g == b), "ner": bool(g != b)})
    foreign = [None, z, s, a.Z, (z,), object(), float(z), [s]]
    sites = [Site((0, 0, 0), z), Site([0, 0, 0], s) if z or "G" in keys else Site((0, 0, 0), g), Site((0, 0, 0), a)]
    moved = Site((0, 0.5, 0), z)
    other = Site((0, 0, 0), Specie.from_num(7 if z != 7 else 8))
    return {"z": int(b.Z), "za": int(a.Z), "names": [a.name, b.name, a.symbol, b.symbol, str(Specie.to_name(z))],
            "others": others, "foreign": any(bool(a == x) or not bool(a != x) for x in foreign),
            "keys": keys,
            "sites": [int(x.element.Z) for x in sites], "site_eq": all(bool(x == y) for x in sites for y in sites),
            "site_moved_eq": bool(sites[0] == moved), "site_other_eq": bool(sites[0] == other)}
