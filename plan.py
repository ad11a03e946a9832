# Which specification modules and which recorded executions decide each property.
ASSUMPTIONS = [
    "spglib, numpy, scipy and xxhash behave as documented",
    "crystals are given to well within the symmetry tolerance (1e-3) of the exact crystal of the specification",
]

M_ENUM = {"module": "Enumerator", "cfg": "Enumerator_t.cfg"}
M_RED = {"module": "Reduction", "cfg": "Reduction.cfg"}
M_RED_T = {"module": "Reduction", "cfg": "Reduction_t.cfg", "thorough": True}
M_EDIT = {"module": "MC_CellEdit", "cfg": "MC_CellEdit.cfg"}
M_POP = {"module": "PopSet", "cfg": "PopSet.cfg"}
M_BOARD = {"module": "MC_Board", "cfg": "MC_Board.cfg"}
M_BOARD_T = {"module": "MC_Board", "cfg": "MC_Board_t.cfg", "thorough": True}
M_GROW = {"module": "Growth", "cfg": "Growth.cfg"}
M_GROW_T = {"module": "Growth", "cfg": "Growth_t.cfg", "thorough": True}
M_TREE = {"module": "MC_TreeSearch", "cfg": "MC_TreeSearch.cfg"}
M_TREE_T = {"module": "MC_TreeSearch", "cfg": "MC_TreeSearch_t.cfg", "thorough": True}
M_LEVELS = {"module": "Levels", "cfg": "Levels.cfg"}


def lemmas(part):
    return [{"module": "Lemmas", "cfg": "Lemmas_%s.cfg" % part, "workers": 8},
            {"module": "Lemmas", "cfg": "Lemmas_%s_t.cfg" % part, "workers": 8, "thorough": True},
            {"module": "Lemmas", "cfg": "Lemmas_%s_u.cfg" % part, "workers": 8, "thorough": True}]


M_OUT = {"module": "Output", "cfg": "Output.cfg"}
M_OUT_T = {"module": "Output", "cfg": "Output_t.cfg", "thorough": True}
M_SCAN = {"module": "Scan", "cfg": "Scan.cfg"}
M_SCAN_T = {"module": "Scan", "cfg": "Scan_t.cfg", "thorough": True}
M_ROUND = {"module": "Rounding", "cfg": "Rounding.cfg"}
M_ROUND_T = {"module": "Rounding", "cfg": "Rounding_t.cfg", "thorough": True}
L_SYM, L_DIST, L_CLASS, L_TILE = lemmas("sym"), lemmas("dist"), lemmas("class"), lemmas("tile")


def conf(fam, quick, thorough, trace=None, **kw):
    return dict(fam=fam, trace="Trace_" + (trace or fam), n=(quick, thorough), **kw)


def suite(module, num, depth):
    return {"module": module, "cfg": module + ".cfg",
            "extra": ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", "@SEED"]}


N_TRACE = ("Every recorded execution of the real code (seeded, generated inputs) is decided exactly by TLC against the "
           "integer-exact specification; inputs outside the generated families are not covered. ")
N_THEORY = "The theory the specification rests on is model checked over every small crystal of the configuration. "
N_MODEL = "The algorithm's design is model checked exhaustively for the small constants of the configuration. "

PLAN = {
    "C01": {"note": N_TRACE + N_MODEL, "models": [M_ENUM], "conformance": [conf("occ", 800, 20000)]},
    "C02": {"note": N_TRACE + N_MODEL, "models": [M_LEVELS], "conformance": [conf("pulls", 800, 16000)]},
    "C03": {"note": N_TRACE + N_THEORY, "models": [M_ENUM] + L_SYM, "conformance": [conf("sym", 800, 16000)]},
    "C04": {"note": N_TRACE + N_MODEL, "models": [M_RED, M_RED_T], "conformance": [conf("superl", 240, 4000)]},
    "C05": {"note": N_TRACE + N_THEORY + N_MODEL, "models": [M_SCAN, M_SCAN_T] + L_TILE, "conformance": [conf("tile", 1200, 20000)]},
    "C06": {"note": N_TRACE + N_THEORY, "models": L_SYM, "conformance": [conf("std", 640, 10000)]},
    "C07": {"note": N_TRACE + N_MODEL, "models": [M_ROUND, M_ROUND_T], "conformance": [conf("fileio", 2400, 40000)]},
    "C08": {"note": N_TRACE + N_THEORY, "models": L_DIST, "conformance": [conf("restr", 1600, 30000)]},
    "C09": {"note": N_TRACE + N_MODEL, "models": [M_EDIT],
            "conformance": [conf("edit", 2400, 30000, suite=suite("Suite_CellEdit", 800, 18))]},
    "C10": {"note": N_TRACE + N_THEORY, "models": L_DIST, "conformance": [conf("sphere", 1600, 30000)]},
    "C11": {"note": N_TRACE + N_THEORY + N_MODEL, "models": [M_OUT, M_OUT_T] + L_CLASS, "conformance": [conf("clienum", 640, 8000)]},
    "C12": {"note": N_TRACE + N_MODEL, "models": [M_ENUM], "conformance": [conf("cstru", 800, 16000)]},
    "C13": {"note": N_TRACE, "models": [], "conformance": [conf("bucky", 160, 3000)]},
    "C14": {"note": N_TRACE + N_MODEL + "All histories of the suite's length over three elements are replayed. ", "models": [M_POP],
            "conformance": [conf("popset", 6000, 140000, suite=[{"module": "Suite_PopSet", "cfg": "Suite_PopSet.cfg"},
                                                               {"module": "Suite_PopSet", "cfg": "Suite_PopSet_t.cfg"}])]},
    "C15": {"note": N_TRACE + N_MODEL, "models": [M_GROW, M_GROW_T], "conformance": [conf("growth", 1600, 20000)]},
    "C16": {"note": N_TRACE + N_MODEL, "models": [M_TREE, M_TREE_T], "conformance": [conf("mcts", 1600, 12000)]},
    "C17": {"note": "Every species of the table and every pair is checked. ", "models": [], "conformance": [conf("species", 80, 80)]},
    "C18": {"note": N_TRACE + N_MODEL, "models": [M_BOARD, M_BOARD_T], "conformance": [conf("board", 2000, 30000)]},
    "C19": {"note": N_TRACE + N_MODEL, "models": [M_LEVELS], "conformance": [conf("inter", 500, 10000, trace="pulls")]},
    "C20": {"note": N_TRACE + N_THEORY, "models": L_TILE, "conformance": [conf("clione", 1600, 20000)]},
    "C21": {"note": N_TRACE, "models": [], "conformance": [conf("canon", 2400, 40000)]},
}
