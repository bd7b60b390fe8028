"""O04: recipe books.  Recipes.tla."""
import os
import random
import numpy as np
import ljhfab
from vlib import expect, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "recipe functions are pure and can be pickled by dill", "names containing 'cut' are only used for truth-valued recipes"]
BASE = ["filtValue", "pretriggerMean", "unixnano"]
OPS = dict(add=2, sub=2, mix=3, dbl=1, inc=1, neg=1, opt=1, gt=2, ge0=1, odd=1)
OPS["and"] = 2
ROWS = [dict(filtValue=3, pretriggerMean=-1, unixnano=7), dict(filtValue=0, pretriggerMean=5, unixnano=8), dict(filtValue=-4, pretriggerMean=-4, unixnano=9),
        dict(filtValue=10, pretriggerMean=2, unixnano=11), dict(filtValue=1, pretriggerMean=1, unixnano=12)]
BODY = {"add": "{0} + {1}", "sub": "{0} - {1}", "mix": "{0} - 2 * {1} + 3 * {2}", "dbl": "2 * {0}", "inc": "{0} + 1", "neg": "-{0}", "opt": "{0} + extra",
        "gt": "{0} > {1}", "ge0": "{0} >= 0", "odd": "{0} % 2 == 1", "and": "np.logical_and({0}, {1})"}


class Callable:
    """A recipe function that is an object, not a function."""

    def __init__(self, op):
        self.op = op

    def __call__(self, p):
        p = np.multiply(p, 1)
        return {"dbl": lambda: 2 * p, "inc": lambda: p + 1, "neg": lambda: -p, "ge0": lambda: p >= 0}[self.op]()


def func(op, args):
    sig = ", ".join(args) + (", extra=100" if op == "opt" else "")
    return eval(f"lambda {sig}: " + BODY[op].format(*[f"np.multiply({a}, 1)" for a in args]), {"np": np})


class BookTarget:
    def __init__(self, wd):
        self.wd = wd
        self.book = mass.off.util.RecipeBook(baseIngredients=list(BASE), propertyClass=None, coefs_dtype=None)
        self.src = {b: np.array([r[b] for r in ROWS]) for b in BASE}
        self.n = 0

    def add(self, name, f, ings, ow):
        return self.book.add(name, f, ings, overwrite=ow, **({"createProperty": False} if self.n % 2 else {}))

    def value(self, name):
        return self.book.craft(name, self.src)

    def temp(self, f):
        return self.book.craft(f, self.src)

    def bang(self, name):
        return self.book.craft(name, self.src)

    def keys(self):
        return list(self.book.keys())

    def reload(self, k):
        self.n += 1
        p = os.path.join(self.wd, f"book{self.n if k == 0 else 0}.pkl")
        if os.path.exists(p):
            before = open(p, "rb").read()
            try:
                self.book.to_file(p)
            except Exception:
                expect("a refused overwrite leaves the file", True, open(p, "rb").read() == before, "to_file")
            else:
                raise Divergence("a saved recipe book was overwritten without permission", sig="to_file")
            self.book.to_file(p, overwrite=True)
        else:
            self.book.to_file(p)
        self.book = mass.off.util.RecipeBook.from_file(p)

    def recipe(self, name):
        return self.book[name]


class ChannelTarget:
    """The recipes of a channel of an OFF group."""
    own = ("relTimeSec", "filtPhase", "cutNone")

    def __init__(self, wd):
        self.wd, self.n = wd, 0
        self.cls = type("Ch", (mass.off.channels.Channel,), {})
        P, B = ljhfab.off_model(3, 6)
        rows = [dict(r, coefs=[1, 2, r["filtValue"]], recordSamples=6, recordPreSamples=2) for r in ROWS]
        for c in (1, 2):
            with open(f"{wd}/run_chan{c}.off", "wb") as f:
                f.write(ljhfab.off_header("0.3.0", 3, P, B) + ljhfab.off_records("0.3.0", 3, rows))
        ljhfab.state_file(f"{wd}/run_experiment_state.txt", [(0, "A")])
        self.data = mass.off.ChannelGroup([f"{wd}/run_chan{c}.off" for c in (1, 2)], verbose=False)
        self.both = True

    @property
    def ds(self):
        return self.data[1]

    def add(self, name, f, ings, ow):
        if name.startswith("cut"):
            r = self.data.cutAdd(name, f, ings, overwrite=ow, _rethrow=True)
            return r
        for ds in self.data.values():
            ds.recipes.add(name, f, ings, overwrite=ow)

    def value(self, name):
        self.n += 1
        out = self.ds.getAttr(name, [None, slice(0, len(ROWS)), [slice(0, 2), slice(2, 5)], mass.off.util.NoCutInds()][self.n % 4], "cutNone")
        other = self.data[2].getAttr(name, None, "cutNone")
        expect(f"{name} in both channels", [float(x) for x in out], [float(x) for x in other], "channels")
        return out

    def temp(self, f):
        return self.ds.recipes.craft(f, self.ds.offFile)

    def bang(self, name):
        sel = self.ds.getAttr("unixnano", None, name)
        return np.isin([r["unixnano"] for r in ROWS], sel)

    def keys(self):
        return [k for k in self.ds.recipes.keys() if k not in self.own]

    def reload(self, k):
        p = os.path.join(self.wd, f"books{self.n}.pkl")
        self.data.saveRecipeBooks(p)
        if k:
            self.data = mass.off.ChannelGroup([f"{self.wd}/run_chan{c}.off" for c in (1, 2)], verbose=False)
        self.data.loadRecipeBooks(p)

    def recipe(self, name):
        return self.ds.recipes[name]


def replay(trace, wd):
    rng = random.Random(repr(trace))
    t = BookTarget(wd) if rng.random() < .6 else ChannelTarget(wd)
    held = {}
    for i, s in enumerate(trace):
        with at_step(i, s["act"]):
            step(t, s, rng, held)


def ints(x):
    return [int(v) for v in x]


def step(t, s, rng, held):
    a = s["act"]
    if a == "add":
        ings, op = s["ings"], s["op"]
        distinct = len(set(ings)) == len(ings)
        if s["sty"] == 0 and distinct and op != "opt":
            f, given = func(op, ings), None            # by argument names
        elif s["sty"] == 1 and op in ("dbl", "inc", "neg", "ge0"):
            f, given = Callable(op), list(ings)
        else:
            f, given = func(op, ["p", "q", "w"][:len(ings)]), list(ings)
        try:
            t.add(s["name"], f, given, s["ow"])
            out = "ok"
        except Exception as e:
            out = "refused"
            if s["out"] == "ok":
                raise Divergence(f"adding {s['name']} from {ings} was refused", "ok", repr(e), "refused")
        if isinstance(t, ChannelTarget):
            t.data.markAllGood()
        expect(f"adding {s['name']} from {ings}", s["out"], out, "add")
    elif a == "badname":
        try:
            t.add("!" + s["name"], func("dbl", ["p"]), ["filtValue"], True)
            out = "ok"
        except Exception:
            out = "refused"
        if isinstance(t, ChannelTarget):
            t.data.markAllGood()
        expect("a name starting with !", s["out"], out, "badname")
    elif a == "temp":
        expect("temporary recipe", s["val"], ints(t.temp(func(s["op"], s["ings"]))), "temp")
    elif a == "bang":
        expect("!" * s["k"] + s["name"], s["val"], ints(t.bang("!" * s["k"] + s["name"])), "negated cut")
    elif a == "reload":
        t.reload(s["k"])
        held.clear()
    o = s["obs"]
    expect("recipe names", sorted(n for n, _ in o["names"]), sorted(t.keys()), "names")
    for n, col in o["names"]:
        expect(f"value of {n}", col, ints(t.value(n)), "value")
    # definitions held on to keep their meaning although their names were given away
    book = dict(map(tuple, o["book"]))
    if isinstance(t, BookTarget):
        for n, d in book.items():
            if d not in held:
                held[d] = t.recipe(n)
        for d, r in held.items():
            expect(f"value of definition {d}", o["defs"][d - 1], ints(r(t.src)), "held definition")


REPLAY = {"recipes": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("Recipes", dict(Base={"a"}, Names={"n", "cutA"}, Ops=dict(sub=2, inc=1), Rows=[dict(a=1), dict(a=-2)], MaxDefs=ctx.n(3, 4)),
                        invs=["WellFounded"], props=["Stable"], next="NextSmall", workers=3)
    depth = ctx.n(24, 40)
    traces = ctx.gen("RecipesGen", dict(Base=set(BASE), Names={"e1", "e2", "e3", "e4", "e5", "cutA", "cutB", "cutC"}, Ops=OPS, Rows=ROWS, MaxDefs=0, Depth=depth, MaxBang=3),
                     num=ctx.n(200, 3000), depth=depth + 1, init="InitG", next="NextG")
    ctx.replay(replay, traces, "recipes")
    ctx.end_check(h)
    ctx.need_actions("add", "temp", "bang", "reload", "badname")
