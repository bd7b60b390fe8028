"""H01: the pulses used by histograms, count rates, lists and averages.  Chosen.tla; histories of ChosenGen.tla are replayed into TESGroup."""
import random
import h5py
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "energies, times and edges are exact multiples of a binary unit, so that a value lies in a bin or not without rounding",
               "no size lies at exactly 5% from the median"]
CHANS, NAN, NPRE, NSAMP, CATS = (1, 3, 6), -7777, 6, 16, ("uncategorized", "A", "B")
TB = 2.0 ** -10


class Rig:
    def __init__(self, first, wd, rng):
        self.wd, self.rng = wd, rng
        self.p = {c: list(v) for c, v in first["p"]}
        kw = dict(nsamp=NSAMP, npre=NPRE, timebase="0.0009765625", subdiv=64, rows=8, cols=1, row=0, col=0)
        self.raw = {c: [np.array(x["rec"]).astype(np.uint16) for x in v] for c, v in self.p.items()}
        self.files = []
        for c in CHANS:
            k = np.arange(len(self.raw[c]))
            self.files.append(ljhfab.write22(f"{wd}/run_chan{c}.ljh", self.raw[c], 1000 * k, 1_600_000_000_000_000 + 10_000 * k, chan=c, **kw))
        self.open()
        self.data.summarize_data(pretrigger_ignore_microsec=(first["ign"] + .5) * TB * 1e6)
        self.data.register_categorical_cut_field("side", list(CATS[1:]))
        self.data.register_boolean_cut_fields("told")
        ch = rng.choice
        self.u = dict(e=ch([1, .25, 64]), f=ch([1, 2]), t=ch([1, .25]), a=ch([1, 4, .5]))
        self.z = dict(e=ch([0, 0, 6000, -8]), f=ch([0, 100]), t=0)
        for c in CHANS:
            ds, v = self.data.channel[c], self.p[c]
            for name, q in (("p_energy", "e"), ("p_filt_value", "f"), ("p_timestamp", "t")):
                getattr(ds, name)[:] = [np.nan if x[q] == NAN else self.z[q] + self.u[q] * x[q] for x in v]
            ds.p_pulse_average[:] = [self.u["a"] * x["a"] for x in v]
            ds.p_peak_value[:] = [x["a"] for x in v]
            ds.p_pulse_rms[:] = [self.u["a"] * x["a"] for x in v]

    def open(self):
        self.data = mass.TESGroup(self.files, hdf5_filename=self.wd + "/m.hdf5")

    def close(self):
        f = self.data.hdf5_file
        if isinstance(f, h5py.File):
            f.close()

    def num(self, q, k):
        x = self.z[q] + self.u[q] * k
        return self.rng.choice([float(x), np.float64(x)] + ([int(x)] if float(x).is_integer() else []))

    def masks(self, s):
        """Through make_masks, from any of the quantities; the same for all of them."""
        rng = self.rng
        kw = dict(gains=[dict(map(tuple, s["gain"]))[c] for c in CHANS]) if s["gains"] else {}
        name, u = rng.choice([("pulse_avg_range", self.u["a"]), ("pulse_peak_range", 1), ("pulse_rms_range", self.u["a"])])
        lim = (u * s["lo"], u * s["hi"])
        out = self.data.make_masks(**{name: lim if rng.random() < .5 else list(lim)}, **kw)
        expect("masks", [sorted(dict(map(tuple, s["m"]))[c]) for c in CHANS], [(1 + np.nonzero(m)[0]).tolist() for m in out], "masks")
        return out

    def step(self, s):
        a, rng, data = s["act"], self.rng, self.data
        if a == "cut":
            ds = data.channel[s["c"]]
            ds.cuts.clear_cut("told")
            ds.cuts.cut("told", np.isin(1 + np.arange(ds.nPulses), s["out"]))
        elif a == "cat":
            ds = data.channel[s["c"]]
            ds.cuts.cut_categorical("side", {k: np.array([x == k for x in s["cat"]]) for k in CATS[1:]})
        elif a == "bad":
            data.set_chan_bad(s["c"], "tested")
        elif a == "good":
            data.set_chan_good(s["c"])
        elif a == "hist":
            self.hist(s)
        elif a == "rate":
            ds = data.channel[s["c"]]
            edges = np.array([self.z["t"] + self.u["t"] * k for k in s["edges"]])
            kw = dict(goodonly=True) if s["good"] else rng.choice([{}, dict(goodonly=False)])
            x, y = ds.count_rate(bin_s=edges, **kw)
            w = self.u["t"] * s["w"]
            expect_close(f"times of the count rate of channel {s['c']}", .5 * (edges[1:] + edges[:-1]), x, rtol=1e-12, sig="rate")
            expect_close(f"count rate of channel {s['c']}", np.array(s["counts"]) / w, y, rtol=1e-12, sig="rate")
        elif a == "first":
            ds = data.channel[s["c"]]
            rec, idx = ds.first_n_good_pulses(s["n"], **self.category(s["k"]))
            expect("indices of the first good pulses", [i - 1 for i in s["idx"]], np.asarray(idx).tolist(), "first")
            expect("the first good pulses", [self.raw[s["c"]][i - 1].tolist() for i in s["idx"]], np.asarray(rec).tolist(), "first")
        elif a == "ascii":
            name = f"{self.wd}/list{rng.randrange(3)}"
            data.save_pulse_energies_ascii(name)
            got = np.loadtxt(name + ".energies", ndmin=1).tolist() if s["all"] else []
            if not s["all"]:
                expect("list of energies", "", open(name + ".energies").read().strip(), "ascii")
            want = [None if k == NAN else float(self.z["e"] + self.u["e"] * k) for k in s["all"]]
            expect("list of energies", want, [None if np.isnan(x) else x for x in got], "ascii")
        elif a == "avgm":
            m = self.masks(s)
            if s["done"]:
                data.compute_average_pulse(m, **self.flags(s))
        elif a == "avg":
            kw = self.flags(s)
            if s["n"] != 7000 or rng.random() < .5:
                kw["max_pulses_to_use"] = s["n"]
            if s["one"] == 0:
                data.avg_pulses_auto_masks(**kw)
            else:
                try:
                    data.channel[s["one"]].avg_pulses_auto_masks(**kw)
                    done = True
                except ValueError:
                    done = False
                expect(f"averaging pulses of channel {s['one']} succeeds", s["fails"] == [], done, "refused")
        elif a == "reopen":
            bad, ign = list(data.why_chan_bad), data.channel[1].pretrigger_ignore_samples
            self.close()
            self.open()
            expect("samples before the trigger ignored", ign, self.data.channel[1].pretrigger_ignore_samples, "ignored")
        else:
            raise AssertionError(a)
        self.view(s["obs"])

    def flags(self, s):
        kw = {}
        if not s["sub"] or self.rng.random() < .5:
            kw["subtract_mean"] = s["sub"]
        if s["force"] or self.rng.random() < .5:
            kw["forceNew"] = s["force"]
        return kw

    def category(self, k):
        return dict(category={"side": k}) if k else self.rng.choice([{}, dict(category={})])

    def hist(self, s):
        rng, data = self.rng, self.data
        edges = [self.num(s["q"], k) for k in s["edges"]]
        edges = rng.choice([list, tuple, np.array])(edges)
        mask = {c: np.isin(1 + np.arange(len(self.p[c])), v) for c, v in s["g"]}
        kw = self.category(s["k"])
        if s["q"] != "e" or rng.random() < .5:
            kw["attr"] = {"e": "p_energy", "f": "p_filt_value"}[s["q"]]
        if s["t0"] != 0 or rng.random() < .3:
            kw["t0"] = self.num("t", s["t0"])
        if s["t1"] != 99 or rng.random() < .3:
            kw["tlast"] = self.num("t", s["t1"])
        if s["hasg"]:
            kw["g_func"] = lambda ds: mask[ds.channum]
        want = [self.z[s["q"]] + self.u[s["q"]] * .5 * (a + b) for a, b in zip(s["edges"], s["edges"][1:])]
        for what, (x, y), n in ((f"channel {s['one']}", data.channel[s["one"]].hist(edges, **kw), s["own"]), ("all channels", data.hist(edges, **kw), s["group"])):
            expect_close(f"bin centers ({what})", want, x, rtol=1e-12, sig="centers")
            expect(f"histogram of {what}", n, np.asarray(y).tolist(), "hist")
        x, y = data.hists(edges, **kw)
        expect_close("bin centers", want, x, rtol=1e-12, sig="centers")
        expect("histogram of each channel", {c: n for c, n in s["each"]}, {int(c): np.asarray(n).tolist() for c, n in y.items()}, "hists")

    def view(self, o):
        expect("channels excluded", sorted(o["bad"]), sorted(int(c) for c in self.data.why_chan_bad), "bad")
        for c, gone in o["out"]:
            ds = self.data.channel[c]
            expect(f"pulses of channel {c} cut", sorted(gone), (1 + np.nonzero(ds.bad())[0]).tolist(), "good")
        for c, v in o["avg"]:
            got = self.data.channel[c].average_pulse[:]
            if v == []:
                expect(f"average pulse of channel {c}", [0.0] * NSAMP, got.tolist(), "average")
            else:
                expect_close(f"average pulse of channel {c}", np.array(v["num"], float) / v["den"], got, rtol=1e-6, atol=1e-5, sig="average")


def replay(trace, wd):
    r = Rig(trace[0], wd, random.Random(repr(trace[0])))
    try:
        r.view(trace[0]["obs"])
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    laws = ["ByCategory", "ByTime", "ByPart", "Everything", "ByChannel", "Firsts"]
    consts = dict(Cats={"A", "none"}, NaN=NAN, NPre=1, NSamp=2)
    hs = [ctx.start_check("Chosen", dict(consts, Chans=c, MaxN=n), invs=laws, next="NextSmall", workers=2, timeout=700)
          for c, n in [({1, 2}, 1), ({1}, 3)] + ([] if ctx.quick else [({1, 2}, 2)])]
    depth = ctx.n(14, 24)
    traces = ctx.gen("ChosenGen", dict(Chans=set(CHANS), Cats=set(CATS), NaN=NAN, NPre=NPRE, NSamp=NSAMP, MaxN=0, Depth=depth),
                     num=ctx.n(400, 5000), depth=depth + 1, init="InitG", next="NextG", invs=["Counted"])
    ctx.replay(replay, traces, "history")
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("cut", "cat", "bad", "good", "hist", "rate", "first", "ascii", "avgm", "avg", "reopen")
