# C16: tree search, observed through the callbacks it is given
import random

from common import Malformed


def gen(rng, i, tier):
    par = {"L": rng.choice([1, 2, 2, 3, 4, 6]), "c10": rng.choice([1, 5, 10, 25, 50, 50, 100]), "lm4": rng.choice([0, 1, 2, 2, 3, 4]),
           "limit": rng.choice([0, 1, 3, 12]) if rng.random() < 0.4 else 12,
           "np": rng.choice([1, 2, 5, 12, 30] if tier == "quick" else [5, 30, 60, 100])}
    game = {"seed": rng.randrange(10**9), "b": rng.choice([1, 2, 3, 5]), "depth": rng.choice([1, 2, 3, 5, 8]),
            "stop": rng.choice([0, 10, 25]), "pr": rng.choice(["flat", "random", "random", "sharp"]),
            "va": rng.choice(["random", "random", "byfirst", "zero"])}
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        steps.append("search")
        steps.append(rng.choice(["best", "best", "other", "unknown", "none"]))
    game["label"] = rng.choice(["int", "int", "zero", "tuple", "str", "neg"])
    game["pl"] = rng.choice([[1, -1], [1, -1], [1, 2], [2, 1], [-1, 1]])
    return {"par": par, "game": game, "plan": steps, "s": rng.randrange(10**6)}


# what a move is called is up to the game
LABELS = {"int": (lambda m: m, lambda a: a), "zero": (lambda m: m - 1, lambda a: a + 1), "neg": (lambda m: 2 - m, lambda a: 2 - a),
          "tuple": (lambda m: (0, m), lambda a: a[1]), "str": (lambda m: "m%d" % m if m > 1 else "", lambda a: int(a[1:]) if a else 1)}


class Game(object):
    """Every position is its move sequence; everything about it is a function of that and the seed."""

    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.enc, self.dec = LABELS[g.get("label", "int")]

    def r(self, path, what):
        return random.Random("%s/%s/%s" % (self.g["seed"], what, path))

    def once(self, key, path, f):
        k = (key, tuple(path))
        if k not in self.memo:
            self.memo[k] = f(path)
        return self.memo[k]

    def moves(self, path):
        return list(self.once("m", path, self._moves))

    def priors(self, path, what):
        return [list(x) for x in self.once("p" + what, path, lambda q: self._priors(q, what))]

    def value(self, path):
        return self.once("v", path, self._value)

    def winner(self, path):
        return self.once("w", path, lambda q: self.r(q, "w").choice([-1, 0, 1]))

    def _moves(self, path):
        if len(path) >= self.g["depth"] or (path and self.r(path, "stop").randrange(100) < self.g["stop"]):
            return []
        return list(range(1, 1 + self.r(path, "moves").randint(1, self.g["b"])))

    def _priors(self, path, what):
        ms = self.moves(path)
        r = self.r(path, "p" + what)
        r.shuffle(ms)
        if self.g["pr"] == "flat":
            return [[m, 1000 // len(ms)] for m in ms]
        if self.g["pr"] == "sharp":
            return [[m, r.choice([0, 10, 990])] for m in ms]
        return [[m, r.randint(0, 1000)] for m in ms]

    def _value(self, path):
        if self.g["va"] == "zero":
            return 0
        if self.g["va"] == "byfirst":
            return (1000 if path and path[0] == 1 else -1000) // 2
        return self.r(path, "v").randint(-1000, 1000)


class State(object):
    def __init__(self, game, path, log, base=0):
        self.game, self.path, self.log, self.base = game, list(path), log, base

    def copy(self):
        c = State(self.game, self.path, self.log, self.base)
        if self.log is not None and not getattr(self, "derived", False):
            self.log.new(c)
        c.derived = True
        return c

    def do_move(self, a):
        a = self.game.dec(a)
        if a not in self.game.moves(self.path):
            raise Malformed("illegal move %r" % (a,))
        self.path.append(a)

    def get_current_player(self):
        p = self.game.g.get("pl", [1, -1])[len(self.path) % 2]
        self.log.event("player", self, p)
        return p

    def get_winner(self):
        w = self.game.winner(self.path)
        self.log.event("winner", self, w)
        return w


class Log(object):
    def __init__(self, base):
        self.base, self.pls = base, []

    def new(self, st):
        self.pls.append({"leaf": None, "policy": [], "roll": [], "value": 0, "player": 0, "winner": 0, "end": None})

    def event(self, what, st, v):
        if not self.pls:
            raise Malformed("%s before any copy of the state" % what)
        p = self.pls[-1]
        q = list(st.path[self.base:])
        if what == "policy":
            p["policy"].append({"at": q, "priors": v})
        elif what == "roll":
            if p["leaf"] is None:
                p["leaf"] = q
            p["roll"].append({"at": q, "priors": v})
        elif what == "value":
            p["leaf"] = q
            p["value"] = v
        elif what == "player":
            if p["leaf"] is None:
                p["leaf"] = q
            p["player"] = v
        elif what == "winner":
            p["winner"] = v
            p["end"] = q


def run(inp):
    from ababe.mlearn.mcts import MCTS
    par = inp["par"]
    game = Game(inp["game"])
    rng = random.Random(inp["s"])
    cur = {"log": None}

    def policy(st):
        pr = game.priors(st.path, "a")
        cur["log"].event("policy", st, pr)
        return [(game.enc(a), p / 1000.0) for a, p in pr]

    def rollout(st):
        pr = game.priors(st.path, "b")
        cur["log"].event("roll", st, pr)
        return [(game.enc(a), p / 1000.0) for a, p in pr]

    def value(st):
        v = game.value(st.path)
        cur["log"].event("value", st, v)
        return v / 1000.0
    m = MCTS(value, policy, rollout, lmbda=par["lm4"] / 4.0, c_puct=par["c10"] / 10.0, rollout_limit=par["limit"],
             playout_depth=par["L"], n_playout=par["np"])
    path, steps = [], []
    best = None
    for what in inp["plan"]:
        if what == "search":
            if not game.moves(path):
                break
            log = Log(len(path))
            cur["log"] = log
            st = State(game, path, log)
            best = m.get_move(st)
            for p in log.pls:
                if p["leaf"] is None:
                    raise Malformed("a playout without an evaluation")
                if p["end"] is None:
                    p["end"] = p["leaf"]
            steps.append({"op": "search", "playouts": log.pls, "intact": st.path == path, "a": int(game.dec(best))})
        elif what != "none":
            ms = game.moves(path)
            a = game.dec(best) if what == "best" else rng.choice(ms) if what == "other" else 99
            m.update_with_move(game.enc(a))
            steps.append({"op": "advance", "a": int(a)})
            if what == "unknown":
                path = list(path)              # the game is taken up again from where it stands
            else:
                path = path + [a]
    return {"steps": steps}
