"""O05: selecting data from OFF channels.  Select.tla."""
import os
import random
import numpy as np
import h5py
import ljhfab
from vlib import expect, expect_close, at_step, Divergence, Raw

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "state marks and record times are logged in non-decreasing order", "cuts are pure functions of their ingredients"]
T0 = 1_600_000_000_000_000_000
NAN, NONE = -99999, -88888


def val(x):
    return np.nan if x == NAN else float(x)


def pred(p, arg):
    body = {"all": "np.ones(len({0}), dtype=bool)", "none": "np.zeros(len({0}), dtype=bool)", "lt": "{0} < {1}", "ge": "{0} >= {1}",
            "odd": "np.mod({0}, 2) == 1"}[p["k"]].format(arg, p["v"])
    return eval(f"lambda {arg}: {body}", {"np": np})


class Rig:
    def __init__(self, s, grows, rng, wd):
        self.rng, self.wd = rng, wd
        self.kind = "off" if grows else rng.choice(["off", "off", "np", "npt"])
        self.version = rng.choice(["0.1.0", "0.2.0", "0.3.0"])
        # arrays with a p_timestamp in seconds: whole seconds only (the existing tests assert a unixnano of whole seconds for them)
        self.scale = rng.choice([1_000_000_000, 1_000_000_000, 37, 128]) if self.kind != "npt" else 1_000_000_000
        self.chans = s["chans"]
        self.recs = dict(zip(self.chans, s["recs"]))
        self.esfname = ljhfab.state_file(f"{wd}/run_experiment_state.txt", [(self.ns(m["t"]), m["l"]) for m in s["marks"]])
        self.x, self.id = ("filtValue", "framecount") if self.kind == "off" else ("x", "id")
        if self.kind == "off":
            P, B = ljhfab.off_model(3, 6)
            for c in self.chans:
                with open(self.path(c), "wb") as f:
                    f.write(ljhfab.off_header(self.version, 3, P, B))
                self.append(c, self.recs[c], 0)
            if rng.random() < .5:
                self.data = mass.off.ChannelGroup([self.path(c) for c in self.chans], verbose=False, excludeStates=list(s["excl"]))
            else:
                self.data = mass.off.ChannelGroup([self.path(c) for c in self.chans], verbose=False,
                                                  experimentStateFile=mass.off.ExperimentStateFile(self.esfname, excludeStates=list(s["excl"])))
        else:
            esf = mass.off.ExperimentStateFile(self.esfname, excludeStates=list(s["excl"]))
            chans = []
            for c in self.chans:
                a = np.zeros(len(self.recs[c]), dtype=[("x", "f8"), ("id", "i4"), ("unixnano", "i8") if self.kind == "np" else ("p_timestamp", "f8")])
                a["x"] = [val(r["x"]) for r in self.recs[c]]
                a["id"] = 1 + np.arange(len(a))
                if self.kind == "np":
                    a["unixnano"] = [self.ns(r["u"]) for r in self.recs[c]]
                else:
                    a["p_timestamp"] = [1.6e9 + r["u"] for r in self.recs[c]]
                chans.append(mass.off.channels.ChannelFromNpArray(a, c, f"np chan{c}", experimentStateFile=esf, verbose=False))
            self.data = mass.off.channels.ChannelGroupFromNpArrays(chans, "np", verbose=False, experimentStateFile=esf)
        for c in self.chans:
            self.data[c].recipes.add("energy", lambda p: 2 * p + 1, [self.x])

    def ns(self, t):
        return T0 + t * self.scale

    def path(self, c):
        return os.path.join(self.wd, f"run_chan{c}.off")

    def append(self, c, recs, k):
        rows = [dict(recordSamples=6, recordPreSamples=2, framecount=k + i + 1, unixnano=self.ns(r["u"]), coefs=[7 + i, 8, val(r["x"])], pretriggerMean=i)
                for i, r in enumerate(recs)]
        with open(self.path(c), "ab") as f:
            f.write(ljhfab.off_records(self.version, 3, rows))

    # ---- saying the same thing in several ways ----
    def sel(self, s, states_only=False):
        def sl(b):
            return slice(*[None if v == NONE else v for v in b])
        k, r = s["k"], self.rng
        if k == "all":
            return None if states_only else r.choice([None, None, slice(None), slice(0, None), [slice(None)], [slice(0, 10000)]])
        if k == "nocut":
            return mass.off.util.NoCutInds()
        if k == "slice":
            return sl(s["b"][0])
        if k == "slices":
            return [sl(b) for b in s["b"]]
        if k == "state":
            return r.choice([s["l"][0], [s["l"][0]]])
        return list(s["l"])

    def cut(self, g):
        return None if g["dflt"] else "!" * g["neg"] + g["n"]

    def values(self, c, idx):
        rs = self.recs[c]
        x = np.array([val(rs[i - 1]["x"]) for i in idx])
        u = [self.ns(rs[i - 1]["u"]) for i in idx]
        return dict(id=[int(i) for i in idx], x=x, energy=2 * x + 1, unixnano=u)


def compare(what, want, name, got):
    if name in ("id", "unixnano"):
        expect(f"{what}: {name}", want[name], [int(v) for v in got], "selection")
    else:
        expect_close(f"{what}: {name}", want[name], got, sig="selection")


def replay(trace, wd):
    rng = random.Random(repr(trace[0]) + str(len(trace)))
    rig = Rig(trace[0], any(s["act"] == "grow" for s in trace), rng, wd)
    for k, s in enumerate(trace):
        with at_step(k, s["act"]):
            step(rig, s)


def attempt(f, *a, **k):
    try:
        f(*a, **k)
        return "ok"
    except Exception:
        return "refused"


def step(rig, s):
    a, d, rng = s["act"], rig.data, rig.rng
    if a == "cutadd":
        out = attempt(d[s["c"]].cutAdd, s["n"], pred(s["p"], rng.choice([rig.x, "energy"]) if s["p"]["k"] in ("all", "none") else rig.x),
                      overwrite=s["ow"], setDefault=s["def"])
        expect("cutAdd", s["out"], out, "cutAdd")
    elif a == "groupcutadd":
        if rng.random() < .5:
            d.cutAdd(s["n"], pred(s["p"], rig.x), overwrite=s["ow"], setDefault=s["def"])
        else:
            d.cutAdd(s["n"], pred(s["p"], "p"), [rig.x], s["ow"], s["def"])
    elif a == "setdef":
        expect("cutSetDefault", s["out"], attempt(d[s["c"]].cutSetDefault, s["n"]), "cutSetDefault")
    elif a == "groupsetdef":
        expect("group cutSetDefault", s["out"], attempt(d.cutSetDefault, s["n"]), "cutSetDefault")
    elif a == "setbad":
        for c in rig.chans:
            if c in s["bad"]:
                d[c].markBad("as told")
            else:
                d[c].markGood()
    elif a == "grow":
        for c, new in zip(rig.chans, s["new"]):
            rig.append(c, new, len(rig.recs[c]))
            rig.recs[c] = rig.recs[c] + new
        d.refreshFromFiles()
    elif a == "get":
        get(rig, s)
    elif a == "getunknown":
        expect("getting with an unknown cut", "refused", attempt(d[s["c"]].getAttr, rig.x, rig.sel(s["s"]), s["n"]), "unknown cut")
        expect("getting an unknown attribute", "refused", attempt(d[s["c"]].getAttr, "nosuch", rig.sel(s["s"]), "cutNone"), "unknown attribute")
    elif a == "hist":
        cal = None if s["f"] == 1 else (lambda v: s["f"] * v)
        e = s["e"] if rng.random() < .5 else np.array(s["e"], dtype=float)
        st = rig.sel(s["s"], states_only=True)
        centers, counts = d[s["c"]].hist(e, rig.x, st, rig.cut(s["g"]), calibration=cal)
        expect_close("bin centers", np.convolve(s["e"], [.5, .5], "valid"), centers)
        expect("histogram", s["h"], [int(v) for v in counts], "hist")
        if rng.random() < .2 and rig.kind == "off":
            ds = d[s["c"]]
            if rng.random() < .5:
                got = fitted({1: ds}, lambda: ds.linefit("MnKAlpha", rig.x, st, binEdges=np.array(e), cutRecipeName=rig.cut(s["g"]), calibration=cal, plot=False))
            elif s["f"] == 1:
                got = fitted({1: ds}, lambda: ds.qualityCheckLinefit("MnKAlpha", attr=rig.x, states=st, binEdges=np.array(e), cutRecipeName=rig.cut(s["g"])))
            else:
                got = {1: counts}
            expect("histogram fitted", s["h"], [int(v) for v in got[1]], "fitted")
        if s["f"] == 1 and rng.random() < .1 and st is not None:
            import matplotlib.pyplot as plt
            ax = plt.figure().gca()
            d[s["c"]].plotHist(e, rig.x, axis=ax, states=st, cutRecipeName=rig.cut(s["g"]), coAddStates=True)
            expect("plotted histogram", s["h"], [int(v) for v in ax.lines[0].get_ydata()], "plotHist")
            plt.close("all")
    elif a == "grouphist":
        st, cut = rig.sel(s["s"], states_only=True), rig.cut(s["g"])
        centers, dd = d.hists(s["e"], rig.x, st, cut, **({"channums": list(s["q"])} if s["named"] else {}))
        expect_close("bin centers", np.convolve(s["e"], [.5, .5], "valid"), centers)
        expect("channels in hists", s["q"], list(dd.keys()), "hists")
        for c, h in zip(s["q"], s["hs"]):
            expect(f"histogram of {c}", h, [int(v) for v in dd[c]], "hists")
        if not s["named"]:
            _, tot = d.hist(s["e"], rig.x, st, cut)
            expect("group histogram", s["sum"], [int(v) for v in tot], "group hist")
            if rng.random() < .2 and rig.kind == "off" and cut is not None:
                got = fitted({None: d}, lambda: d.linefit("MnKAlpha", rig.x, st, binEdges=np.array(s["e"]), cutRecipeName=cut, plot=False))
                expect("histogram fitted for the group", s["sum"], [int(v) for v in got[None]], "fitted")
    elif a == "export":
        export(rig, s)
    expect("channels shown", s["shown"], list(d.keys()), "shown")
    expect("bad channels", s["bad"], sorted(d.whyChanBad), "bad")


class Enough(BaseException):
    pass


def fitted(channels, call):
    """The histograms a fit is made from, by channel; the fit itself is not run."""
    got = {}
    for key, ds in channels.items():
        def hist(*a, _key=key, _ds=ds, **k):
            del _ds.__dict__["hist"]
            got[_key] = _ds.hist(*a, **k)[1]
            raise (Enough() if _key is None or len(channels) == 1 else RuntimeError("enough"))
        ds.__dict__["hist"] = hist
    try:
        call()
    except Enough:
        pass
    for ds in channels.values():
        ds.__dict__.pop("hist", None)
    return got


def get(rig, s):
    d, rng, c = rig.data, rig.rng, s["c"]
    want = rig.values(c, s["idx"])
    cut = rig.cut(s["g"])
    names = rng.sample(["id", "x", "energy", "unixnano"], rng.randrange(1, 5))
    real = {"id": rig.id, "x": rig.x}
    if len(names) == 1 and rng.random() < .7:
        compare("getAttr", want, names[0], d[c].getAttr(real.get(names[0], names[0]), rig.sel(s["s"]), cut))
    else:
        got = d[c].getAttr([real.get(n, n) for n in names], rig.sel(s["s"]), cut)
        expect("number of vectors", len(names), len(got), "vectors")
        for n, g in zip(names, got):
            compare("getAttr", want, n, g)
    if rig.kind == "off" and rng.random() < .3:
        co = d[c].getAttr("coefs", rig.sel(s["s"]), cut)
        expect("shape of coefs", (len(s["idx"]), 3), tuple(co.shape), "coefs")
        expect_close("coefs", want["x"], co[:, 2], sig="coefs")
    if s["s"]["k"] in ("state", "states") and rng.random() < .1 and not s["g"]["neg"]:
        import matplotlib.pyplot as plt
        ax = plt.figure().gca()
        st = rig.sel(s["s"])
        d[c].plotAvsB(rig.id, "energy", axis=ax, states=st, includeBad=True, cutRecipeName=cut)
        got = [int(v) for line in ax.lines[::2] for v in line.get_xdata()]
        expect("plotted records", want["id"], got, "plotAvsB")
        both = sorted([int(v) for line in ax.lines for v in line.get_xdata()])
        expect("plotted records, good and bad", sorted(int(v) for v in d[c].getAttr(rig.id, st, "cutNone")), both, "plotAvsB")
        plt.close("all")


def export(rig, s):
    d, rng = rig.data, rig.rng
    cut, e = rig.cut(s["g"]), np.array(s["e"], dtype=float)
    used = "!" * s["used"]["neg"] + s["used"]["n"]
    p = os.path.join(rig.wd, "out.hdf5")
    with h5py.File(p, "w") as h5:
        if s["what"] == "hists":
            if rig.kind != "off":      # a group of arrays has no file name to record: each channel stores its own
                for c in s["q"]:
                    d[c].histsToHDF5(h5, e, rig.x, cut)
            else:
                d.histsToHDF5(h5, e, rig.x, cut)
                expect("groups written", sorted([str(c) for c in s["q"]] + ["all_channels"]), sorted(h5), "histsToHDF5")
            for i, c in enumerate(s["q"]):
                hist_group(h5[str(c)], s["L"], s["all"][i], [x[i] for x in s["st"]], e)
            if rig.kind != "off":
                return
            hist_group(h5["all_channels"], s["L"], s["sumall"], s["sumst"], e)
            expect("cut recorded", used, h5["all_channels/used_cut_recipe_name"][()].decode(), "histsToHDF5")
        elif rig.kind == "off":
            trig = {}
            if rng.random() < .6:
                for c in s["q"]:
                    for name in ("after_last", "until_next", "from_nearest"):
                        v = trig[c, name] = rng.randrange(100) + .5 * np.arange(len(d[c]))
                        setattr(d[c], f"seconds_{name}_external_trigger", v)
            d.energyTimestampLabelToHDF5(h5, cut)
            expect("groups written", sorted(str(c) for c in s["q"]), sorted(h5), "timesToHDF5")
            for i, c in enumerate(s["q"]):
                g = h5[str(c)]
                expect("cut recorded", used, g["used_cut_recipe_name"][()].decode(), "timesToHDF5")
                for j, lab in enumerate(s["L"]):
                    w = rig.values(c, s["idx"][j][i])
                    compare(f"stored for {c} {lab}", w, "energy", g[f"{lab}/energy"][()])
                    compare(f"stored for {c} {lab}", w, "unixnano", g[f"{lab}/unixnano"][()])
                    for name in ("after_last", "until_next", "from_nearest"):
                        if (c, name) in trig:
                            fn = {"after_last": "seconds_after_last", "until_next": "seconds_until_next", "from_nearest": "seconds_from_nearest"}[name]
                            expect_close(f"trigger times stored for {c} {lab}", [trig[c, name][k - 1] for k in s["idx"][j][i]],
                                         g[f"{lab}/{fn}_external_trigger"][()], sig="timesToHDF5")
                if not s["L"]:
                    w = rig.values(c, s["idxall"][i])
                    compare(f"stored for {c}", w, "energy", g["energy"][()])
                    compare(f"stored for {c}", w, "unixnano", g["unixnano"][()])
            for c in s["q"]:
                for name in ("seconds_after_last", "seconds_until_next", "seconds_from_nearest"):
                    if hasattr(d[c], name + "_external_trigger"):
                        delattr(d[c], name + "_external_trigger")


def hist_group(g, labels, allh, st, e):
    expect("stored histogram", allh, [int(v) for v in g["counts"][()]], "histsToHDF5")
    expect_close("stored bin centers", (e[1:] + e[:-1]) / 2, g["bin_centers_ev"][()], sig="histsToHDF5")
    for lab, h in zip(labels, st):
        expect(f"stored histogram of {lab}", h, [int(v) for v in g[f"{lab}/counts"][()]], "histsToHDF5")
        expect_close("stored bin centers", (e[1:] + e[:-1]) / 2, g[f"{lab}/bin_centers"][()], sig="histsToHDF5")


REPLAY = {"select": replay}
P = "[k |-> \"%s\", v |-> %s]"


def run(ctx):
    global mass
    mass = ctx.mass
    marks = Raw('{<<[t |-> 1, l |-> "A"], [t |-> 2, l |-> "X"], [t |-> 2, l |-> "B"]>>' + (', <<[t |-> 2, l |-> "B"], [t |-> 3, l |-> "A"]>>' if not ctx.quick else "") + "}")
    h = ctx.start_check("Select", dict(Chans={1, 2}, Labels={"A", "B"}, Excl={"X"}, CutNames={"cutA"}, Preds=Raw("{" + P % ("lt", 1) + "}"),
                                       MaxRec=ctx.n(1, 2), Xs={0, 2, NAN}, SmallBounds={NONE, -1, 1}, SmallMarks=marks),
                        invs=["Partition", "StatesDisjoint", "HistCounts", "DefaultKnown", "VisOK"], props=["NoForget"], next="NextSmall", workers=3)
    depth = ctx.n(26, 40)
    gen = dict(Chans={1, 4, 7}, Labels={"A", "B", "C"}, Excl={"X"}, CutNames={"cutA", "cutB"}, MaxRec=2, Xs={0}, SmallBounds={0}, SmallMarks=set(),
               Preds=Raw("{" + ", ".join(P % p for p in (("lt", 3), ("ge", 1), ("odd", 0), ("none", 0), ("all", 0), ("lt", "(-2)"))) + "}"),
               Depth=depth, XRange=Raw("-5..12"), NMarks=6, Bounds=Raw("{None, -30, -3, -1, 0, 1, 2, 5, 9, 40}"),
               Edges=Raw("{<<0, 1, 2, 3, 4>>, <<-5, 3, 12>>, <<-10, -1, 0, 7, 24>>, <<3, 4>>}"))
    traces = ctx.gen("SelectGen", dict(gen, NRec=9, Grows=True), num=ctx.n(150, 2000), depth=depth + 1, init="InitG", next="NextG")
    traces += ctx.gen("SelectGen", dict(gen, NRec=14, Grows=False), num=ctx.n(120, 2000), depth=depth + 1, init="InitG", next="NextG")
    ctx.replay(replay, traces, "select")
    ctx.end_check(h)
    ctx.need_actions("cutadd", "groupcutadd", "setdef", "groupsetdef", "setbad", "grow", "get", "getunknown", "hist", "grouphist", "export")
