"""O06: OFF channel groups: the channels shown, include-bad scopes, looped operations.  Group.tla."""
import contextlib
import os
import random
import h5py
import numpy as np
import ljhfab
from b_group import Boom, make_exc, words
from vlib import expect, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "faults are injected by replacing a part the operation uses with one that raises",
               "scopes are closed in the order opposite to that in which they were opened"]
CHANS = [1, 3, 5, 12]
OPS = ["custom", "cut", "drift", "export", "bins"]


def verif_poke(self, verif_plan, verif_log):
    verif_plan(self.channum)
    verif_log.append(self.channum)
    return self.channum * 10


class Left(Exception):
    pass


class Rig:
    def __init__(self, rng, wd):
        self.rng, self.wd = rng, wd
        if not hasattr(mass.off.util.GroupLooper, "verif_poke"):
            mass.off.util.add_group_loop(verif_poke)
        self.order = list(CHANS)
        self.kind = rng.choice(["off", "off", "np"])
        ljhfab.state_file(f"{wd}/run_experiment_state.txt", [(0, "A"), (1_600_000_000_000_000_005, "B")])
        if self.kind == "off":
            P, B = ljhfab.off_model(3, 6)
            for c in CHANS:
                rows = [dict(recordSamples=6, recordPreSamples=2, framecount=i, unixnano=1_600_000_000_000_000_000 + i, coefs=[1, 2, 100 + i * c],
                             pretriggerMean=(7 * i) % 5) for i in range(12)]
                with open(f"{wd}/run_chan{c}.off", "wb") as f:
                    f.write(ljhfab.off_header("0.3.0", 3, P, B) + ljhfab.off_records("0.3.0", 3, rows))
            self.data = mass.off.ChannelGroup([f"{wd}/run_chan{c}.off" for c in CHANS], verbose=False)
        else:
            esf = mass.off.ExperimentStateFile(f"{wd}/run_experiment_state.txt")
            chans = []
            for c in CHANS:
                a = np.zeros(12, dtype=[("filtValue", "f8"), ("pretriggerMean", "f8"), ("unixnano", "i8")])
                a["filtValue"], a["pretriggerMean"] = 100 + c * np.arange(12), (7 * np.arange(12)) % 5
                a["unixnano"] = 1_600_000_000_000_000_000 + np.arange(12)
                chans.append(mass.off.channels.ChannelFromNpArray(a, c, f"np{c}", experimentStateFile=esf, verbose=False))
            self.data = mass.off.channels.ChannelGroupFromNpArrays(chans, "np", verbose=False, experimentStateFile=esf)
        self.all = {c: dict.__getitem__(self.data, c) for c in CHANS}
        for ds in self.all.values():
            ds.recipes.add("energy", lambda p: p, ["filtValue"])
        self.n = 0
        self.stack = []      # the include-bad scopes open

    def views(self, obs):
        d, sh = self.data, obs["shown"]
        expect("keys", sh, list(d.keys()), "keys")
        expect("iteration", sh, [c for c in d], "iter")
        expect("len", len(sh), len(d), "len")
        expect("values", sh, [ds.channum for ds in d.values()], "values")
        expect("items", [(c, c) for c in sh], [(c, ds.channum) for c, ds in d.items()], "items")
        bad = {int(c): rs[-1] for c, rs in obs["bad"]}
        got = d.whyChanBad
        expect("bad channels", sorted(bad), sorted(got), "bad")
        for c, w in bad.items():
            if w.startswith("@"):
                if w[1:] not in str(got[c]):
                    raise Divergence(f"reason of channel {c} does not name the failure", w, got[c], "reasontext")
            else:
                expect(f"reason of channel {c}", w, got[c], "reason")
        for c, ds in self.all.items():
            expect(f"channel {c} marked bad", c in bad, bool(ds.markedBadBool), "marked")
        # asking must not have changed what is shown
        expect("keys, after asking why", sh, list(d.keys()), "keys")
        try:
            got = d.firstGoodChannel().channum
        except Exception:
            got = None
        expect("first good channel", obs["good"][0] if obs["good"] else None, got, "first")
        if self.n % 3 == 0:
            e = np.array([0., 105., 1e6])
            want = np.sum([np.histogram(self.all[c].filtValue, e)[0] for c in sh], axis=0) if sh else np.zeros(2)
            expect("group histogram", [int(v) for v in want], [int(v) for v in d.hist(e, "filtValue", cutRecipeName="cutNone")[1]], "hist")


def replay(trace, wd):
    rng = random.Random(repr(trace))
    rig = Rig(rng, wd)
    for k, s in enumerate(words(trace)):
        with at_step(k, s["act"] + ":" + s.get("op", "")):
            step(rig, s, trace)


def step(rig, s, trace):
    a, d, rng = s["act"], rig.data, rig.rng
    rig.n += 1
    if a == "bad":
        for c in s["S"]:
            rig.all[c].markBad(s["reason"], *([{"extra": 1}] if rng.random() < .3 else []))
    elif a == "good":
        for c in s["S"]:
            rig.all[c].markGood()
    elif a == "allgood":
        d.markAllGood()
    elif a == "enter":
        scope = d.includeBad() if s["x"] and rng.random() < .7 else d.includeBad(s["x"])
        scope.__enter__()
        rig.stack.append(scope)
    elif a == "leave":
        scope = rig.stack.pop()
        if s["k"]:
            try:
                raise Left("an error inside the scope")
            except Left as e:
                if scope.__exit__(type(e), e, e.__traceback__):
                    raise Divergence("an include-bad scope swallowed an error", sig="swallowed")
        else:
            scope.__exit__(None, None, None)
    elif a == "op":
        run_op(rig, s)
    rig.views(s["obs"])


@contextlib.contextmanager
def broken(rig, excs, part):
    saved = []
    for c, e in excs.items():
        ds = rig.all[c]
        saved.append((ds, ds.__dict__.get(part, saved)))
        ds.__dict__[part] = Boom(e)
    try:
        yield
    finally:
        for ds, v in saved:
            if v is saved:
                del ds.__dict__[part]
            else:
                ds.__dict__[part] = v


def run_op(rig, s):
    d, op = rig.data, s["op"]
    plan = dict(zip(CHANS, s["plan"]))
    excs = {c: make_exc(s["text"][1:], p, rig.rng) for c, p in plan.items() if p != "ok"}
    kw = {"_rethrow": True} if s["re"] else {}
    log, name, r = [], f"cutN{rig.n}", None
    path = os.path.join(rig.wd, f"out{rig.n}.hdf5")
    got = "ok"
    try:
        if op == "custom":
            def p(c):
                if c in excs:
                    raise excs[c]
            r = d.verif_poke(p, log, **kw)
        elif op == "cut":
            with broken(rig, excs, "recipes"):
                r = d.cutAdd(name, lambda filtValue: filtValue > 3, **kw)
        elif op == "drift":
            with broken(rig, excs, "getAttr"):
                r = d.learnDriftCorrection(correctedName=name, cutRecipeName="cutNone", **kw)
        elif op == "bins":
            with broken(rig, excs, "hist"):
                with h5py.File(path, "w") as h5:
                    # the looped form, which ChannelGroup.histsToHDF5 hides
                    r = d._histsToHDF5(h5, np.array([0., 100., 200.]), "filtValue", **kw)
        else:
            with broken(rig, excs, "getAttr"):
                with h5py.File(path, "w") as h5:
                    r = d.energyTimestampLabelToHDF5(h5, "cutNone", **kw) if rig.kind == "off" else d._histsToHDF5(h5, np.array([0., 100.]), "filtValue", **kw)
    except KeyboardInterrupt:
        got = "interrupt"
    except Exception as e:
        if not (s["re"] and e in excs.values()):
            raise
        got = "error"
    expect(f"outcome of {op}", s["out"], got, f"{op}:outcome")
    reached = []
    for c in s["shown"]:
        if plan[c] == "stop" or (s["re"] and plan[c] == "fail"):
            break
        if plan[c] == "ok":
            reached.append(c)
    if got == "ok":
        expect(f"channels in the result of {op}", reached, list(r.keys()), f"{op}:returned")
        if op == "custom":
            expect("values returned", [10 * c for c in reached], list(r.values()), f"{op}:returned")
    if op == "custom":
        expect("channels processed, in order", reached, log, f"{op}:processed")
    elif op in ("cut", "drift"):
        expect(f"channels with {op}", reached, [c for c in CHANS if name in rig.all[c].recipes.keys()], f"{op}:processed")
    elif op in ("export", "bins"):
        with h5py.File(path, "r") as h5:
            expect("channels stored", sorted(str(c) for c in reached), sorted(c for c in h5 if "name_of_energy_indicator" in h5[c] or "used_cut_recipe_name" in h5[c]), f"{op}:processed")


REPLAY = {"offgroup": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(MarkRaised=True, Chans=ctx.n({1, 2}, {1, 2, 3}), Reasons={"a", "b"}, Ops={"o"})
    h = ctx.start_check("Group", small, invs=["Inv"], props=["ReasonsGrow", "Untouched", "NothingLost", "Restores"], next="NextSmall", workers=3)
    depth = ctx.n(20, 40)
    consts = dict(MarkRaised=True, Chans=set(CHANS), Ops=set(OPS), ReOps=set(OPS), Depth=depth, MaxOpen=3, InclOps=set(), Reasons={"noisy", "odd", "", "DEJAVU"},
                  FailTexts={"@boom", "@DEJAVU", "@", "@first line\nsecond line", "@100% {wrong}"})
    traces = ctx.gen("GroupGen", consts, num=ctx.n(200, 4000), depth=depth + 1, init="InitG", next="NextO6", invs=["Inv"])
    ctx.replay(replay, traces, "offgroup")
    ctx.end_check(h)
    ctx.need_actions("bad", "good", "allgood", "op", "enter", "leave")
