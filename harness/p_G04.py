"""G04: pulse summaries.  Summary.tla; files and settings of SummaryGen.tla are summarised by TESGroup."""
import random
import warnings
import h5py
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "the slope is taken where at least seven samples follow the usual peak",
               "pulse mean, RMS, promptness and rise time are defined differently by the two implementations (each is checked against its own definition, promptness only for the compiled one)"]
ORDER = {1: 1, 3: -1}        # channel 3 holds the same records backwards


class Rig:
    def __init__(self, first, wd, rng, tile=1):
        self.wd, self.rng, self.tile = wd, rng, tile
        c = self.c = first["conf"]
        self.tb = c["tb"] * 1e-6
        self.recs = [np.array(r) + c["base"] for r in first["recs"]]
        self.nr = len(self.recs)
        self.t = {ch: (np.array([rng.randrange(1, 10**12) for _ in range(self.nr * tile)]), np.array([1_600_000_000_000_000 + rng.randrange(10**9) for _ in range(self.nr * tile)])) for ch in ORDER}
        self.files = []
        for ch, o in ORDER.items():
            data = [(65535 - r if c["inv"] == "flag" else r).astype(np.uint16) for r in self.recs[::o]] * tile
            self.files.append(ljhfab.write22(f"{wd}/run_chan{ch}.ljh", data, *self.t[ch], nsamp=c["n"], npre=c["npre"], chan=ch, timebase=repr(self.tb)))
        self.per = c["per"]
        self.open()

    def open(self):
        self.data = mass.TESGroup(self.files, hdf5_filename=self.wd + "/m.hdf5", invert_data=self.c["inv"] == "flag")
        self.segment()

    def segment(self):
        size = 16 + 2 * self.c["n"]
        for ds in self.data if self.tile == 1 else ():
            ds.pulse_records.set_segment_size(self.per * size + self.rng.randrange(size))
            expect("records per segment", self.per, ds.pulse_records.pulses_per_seg, "segment")

    def close(self):
        if isinstance(self.data.hdf5_file, h5py.File):
            self.data.hdf5_file.close()

    def step(self, s):
        a, rng = s["act"], self.rng
        if a == "sum":
            us = self.tb * 1e6
            kw = dict(forceNew=s["force"], use_cython=s["how"] == "compiled")
            if s["a"] or s["b"] or rng.random() < .5:
                kw.update(cut_pre=s["a"], cut_post=s["b"])
            if s["ign"] >= 0:
                kw["pretrigger_ignore_microsec"] = (s["ign"] + .5) * us
            if s["pk"] >= 0:
                kw["peak_time_microsec"] = (s["pk"] + .5) * us
            fit = False
            if s["how"] == "python" and rng.random() < .5:
                fit = kw["doPretrigFit"] = True
            changed = s["obs"] != self.last
            if changed or s["force"]:
                self.fit = fit
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                if rng.random() < .5:
                    self.data.summarize_data(**kw)
                else:
                    for ds in self.data:
                        ds.summarize_data(**kw)
        elif a == "reopen":
            self.close()
            self.open()
        elif a == "segment":
            self.per = s["per"]
            self.segment()
        elif a == "slope":
            self.slope(s)
        self.last = s["obs"]
        if s["obs"]:
            self.view(s["obs"])

    def slope(self, s):
        y, base = self.recs[s["i"] - 1].astype(np.uint16), self.c["base"]
        kern, scale, extra = dict([("", (None, 10, 0)), ("SG", ("SG", 100000, -1)), ("own", ([float(v) for v in s["c"]], 1, sum(s["c"])))])[s["kern"]]
        want = (s["out"] + base * extra) / scale
        alg = mass.core.analysis_algorithms
        for f in (alg.compute_max_deriv, alg.python_compute_max_deriv):
            for arr, k in ((y.copy(), 0), (np.array([r.astype(np.uint16) for r in self.recs]), s["i"] - 1)):
                keep = arr.copy()
                got = f(arr, s["ign"], spike_reject=s["rej"], kernel=kern)
                expect_close(f"{f.__name__} of a {arr.ndim}-d array", want, got[k], rtol=2e-6, atol=2e-3 + base * 2e-7, sig="slope")
                expect("shape of the caller's array", keep.shape, arr.shape, "argument")
                expect("the caller's samples stay", True, bool(np.array_equal(keep, arr)), "argument")

    def view(self, o):
        expect("no channel is excluded", {}, dict(self.data.why_chan_bad), "bad")
        base, compiled = self.c["base"], o["how"] == "compiled"
        for ch, order in ORDER.items():
            ds = self.data.channel[ch]
            expect("position of the usual peak", o["pk"], ds.peak_samplenumber, "usual peak")
            got = [ds.cut_pre, ds.cut_post, ds.nPresamples - ds.cut_pre - ds.pretrigger_ignore_samples]
            expect("samples cut off, and presamples used", [o["a"], o["b"], o["r"][0]["def"]["e"]], [int(v) for v in got], "settings")
            expect("frame counts", self.t[ch][0].tolist(), [int(v) for v in ds.p_subframecount[:]], "subframes")
            expect_close("timestamps", self.t[ch][1] / 1e6, ds.p_timestamp[:], rtol=1e-15, atol=1e-7, sig="time")
            # the records over and over again: the same summaries
            for name in "pretrig_mean pretrig_rms pulse_average pulse_rms promptness rise_time postpeak_deriv peak_index peak_value min_value shift1".split() if self.tile > 1 else ():
                v = getattr(ds, "p_" + name)[:].reshape(self.tile, self.nr)
                expect(f"channel {ch}: {name} of repeated records", True, bool(np.array_equal(v[:1].repeat(self.tile, 0), v, equal_nan=v.dtype.kind == "f")), "tiled")
            for i, r in enumerate(o["r"][::order]):
                d, alt, at = r["def"], r["alt"], f"channel {ch} record {i}: "
                e, p = d["e"], d["ps"] / d["e"]
                var = (e * d["pss"] - d["ps"] ** 2) / e ** 2

                def close(what, want, got, atol=1e-6, rtol=3e-7):
                    expect_close(at + what, want, float(got), rtol=rtol, atol=atol, sig=what)

                close("pretrigger mean", base + p, ds.p_pretrig_mean[i])
                close("pretrigger variance", var, float(ds.p_pretrig_rms[i]) ** 2, atol=1e-9 + base ** 2 * 1e-14, rtol=1e-6)
                expect(at + "least value", d["min"] + base, int(ds.p_min_value[i]), "min")
                close("slope after the peak", d["deriv"] / 10, ds.p_postpeak_deriv[i], atol=1e-5 + base * 1e-7)
                if d["shift"] != "unsure":
                    expect(at + "shift flag", d["shift"] == "yes", bool(ds.p_shift1[i]), "shift")
                if compiled:
                    expect(at + "peak value", d["pv"], int(ds.p_peak_value[i]), "peak value")
                    if d["sense"] or o["a"] == 0:
                        expect(at + "peak index", d["idx"] + (o["a"] if d["sense"] else 0), int(ds.p_peak_index[i]), "peak index")
                    if d["shift"] != "unsure":
                        close("promptness", (d["prompt"] / 6 - p) / d["pv"] if d["pv"] else 0, ds.p_promptness[i])
                else:
                    expect(at + "peak value", alt["pv"], int(ds.p_peak_value[i]), "peak value")
                    expect(at + "peak index", alt["idx"] + o["a"], int(ds.p_peak_index[i]), "peak index")
                m = d if compiled else alt
                avg = m["qs"] / m["m"]
                close("pulse average", avg - p, ds.p_pulse_average[i], atol=1e-5)
                close("pulse mean square", m["qss"] / m["m"] - 2 * p * avg + p * p, float(ds.p_pulse_rms[i]) ** 2, atol=1e-9 + base ** 2 * 1e-14, rtol=1e-6)
                rise = m["rise"]
                if compiled:
                    if e % 5 and d["sense"]:
                        close("rise time", self.tb * (rise[0] * d["pv"] / rise[1] if rise else 1), ds.p_rise_time[i], atol=1e-12)
                elif rise:
                    close("rise time", self.tb * rise[0] * rise[2] / rise[3] / rise[1], ds.p_rise_time[i], atol=1e-12)
                else:
                    y = self.recs[::order][i].astype(np.uint16)[o["a"]:self.c["n"] - o["b"]]
                    with warnings.catch_warnings(), np.errstate(all="ignore"):
                        alone = mass.core.analysis_algorithms.estimateRiseTime(y, timebase=self.tb, nPretrig=self.c["npre"] - o["a"])[0]
                    expect_close(at + "rise time as of the record alone", np.float32(alone), ds.p_rise_time[i], rtol=1e-6, atol=1e-12, sig="alone")
                if not compiled:
                    if self.fit and e >= 3:
                        ln = alt["line"]
                        det = e * ln["k2"] - ln["k1"] ** 2
                        slope = (e * ln["kx"] - ln["k1"] * d["ps"]) / det
                        close("pretrigger slope", slope, ds.p_pretrig_deriv[i], atol=1e-5 + base * 1e-9, rtol=1e-5)
                        close("pretrigger offset", base + (d["ps"] - slope * ln["k1"]) / e - slope * o["a"], ds.p_pretrig_offset[i], atol=1e-3, rtol=1e-6)
                    elif not self.fit:
                        expect(at + "no pretrigger line", [0, 0], [float(ds.p_pretrig_deriv[i]), float(ds.p_pretrig_offset[i])], "line")


def replay_tiled(trace, wd):
    """The same records over and over, more than 65536 in one segment."""
    replay(trace, wd, tile=65600 // len(trace[0]["recs"]) + 1)


def replay(trace, wd, tile=1):
    r = Rig(trace[0], wd, random.Random(repr(trace[0])), tile)
    r.last, r.fit = [], False
    try:
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


REPLAY = {"history": replay, "tiled": replay_tiled}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("Summary", dict(NS=10, NPS={2} if ctx.quick else {1, 2}, MaxV=ctx.n(1, 2)), invs=["OnePass", "LevelFree", "SamePeak", "Bounded"], workers=ctx.n(2, 4), timeout=800)
    depth = ctx.n(9, 14)
    traces = ctx.gen("SummaryGen", dict(NS=1, NPS={1}, MaxV=1, MaxRec=8, Depth=depth), num=ctx.n(400, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["OneRecord"])
    ctx.replay(replay, traces, "history")
    ctx.replay(replay_tiled, [[s for s in t if s["act"] in ("setup", "sum")] for t in traces if any(s["act"] == "sum" for s in t)][:ctx.n(6, 30)], "tiled")
    ctx.end_check(h)
    ctx.need_actions("sum", "reopen", "segment", "slope")
