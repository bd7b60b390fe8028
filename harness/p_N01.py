"""N01: noise autocorrelations and power spectra.  Dft.tla, Noise.tla; histories of NoiseGen.tla are replayed into mass.mathstat.power_spectrum, NoiseRecords and TESGroup."""
import random
import h5py
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "spectra of records longer than 12 samples follow the same rules as the exactly specified shorter ones"]
TB = 2.0 ** -10
TOL = dict(rtol=1e-9, atol=1e-9)


def root(n):
    return np.sqrt(2 if n == 8 else 3)


def power(pow_, w2, m, dt):
    """A spectrum of the specification, in counts**2 per Hz."""
    a = np.array(pow_, dtype=float).reshape(m + 1, 2)
    return 2 * dt * (a[:, 0] + a[:, 1] * root(2 * m)) / (4.0 * w2)


def psd_value(p, dt):
    return power(p["pow"], p["w2"], p["m"], dt) / (p["sc"] * p["n"])


def lags(ac):
    return np.array([a / b for a, b in ac], dtype=float)


def refused(what, f, *exc):
    try:
        f()
        done = True
    except exc:
        done = False
    expect(f"{what} is accepted", False, done, "refused")


class Base:
    def __init__(self, first, wd, rng):
        self.rng, self.wd = rng, wd

    def window(self, kind, w, callable_only=False):
        """A window as a function, a sequence or nothing; its scale does not matter."""
        ps = mass.mathstat.power_spectrum
        named = {"hann": ps.hann, "bartlett": ps.bartlett, "welch": ps.welch}.get(kind)
        scale = self.rng.choice([1, 1.0, .125, 3])
        vec = self.rng.choice([list, tuple, np.array])([scale * x for x in w])
        if kind == "none" and self.rng.random() < .5:
            return None
        if named is not None and (callable_only or self.rng.random() < .6):
            return named
        if callable_only or self.rng.random() < .3:
            return lambda n: np.array(vec) if n == len(w) else np.full(n, np.nan)
        return vec

    def array(self, x):
        if self.rng.random() < .4:
            return np.array(x, dtype=int)
        return np.array(x, dtype=float)


class Accs(Base):
    def __init__(self, first, wd, rng):
        super().__init__(first, wd, rng)
        self.dt = rng.choice([None, 1.0, 2.0 ** -10, 1e-5, 3])
        self.t = 1.0 if self.dt is None else self.dt
        self.acc = {}

    def slot(self, k, m=2, over=False):
        ps = mass.mathstat.power_spectrum
        if k not in self.acc:
            self.acc[k] = (ps.PowerSpectrumOverlap if over else ps.PowerSpectrum)(m, dt=self.dt)
        return self.acc[k]

    def step(self, s):
        a, rng = s["act"], self.rng
        if a == "new":
            self.acc.pop(s["k"], None)
            self.slot(s["k"], s["m"], s["over"])
        elif a == "add":
            x, w = self.array(s["x"]), self.window(s["kind"], s["w"])
            kept = x.copy()
            go = lambda: self.slot(s["k"]).addDataSegment(x, window=w) if w is not None or rng.random() < .5 else self.slot(s["k"]).addDataSegment(x)
            if s["fits"]:
                go()
            else:
                refused("a segment of another length", go, ValueError)
            expect("the data given", kept.tolist(), x.tolist(), "data")
        elif a == "nan":
            x = np.array(s["x"], dtype=float)
            x[rng.randrange(len(x))] = np.nan
            refused("a segment with not-a-number", lambda: self.slot(s["k"]).addDataSegment(x), ValueError)
        elif a == "long":
            self.slot(s["k"]).addLongData(self.array(s["x"]), window=self.window(s["kind"], s["w"]))
        elif a == "copy":
            self.acc[s["j"]] = self.slot(s["k"]).copy()
        elif a == "rebin":
            sp, o = self.slot(s["k"]), s["obs"][s["k"] - 1]
            if not s["fits"]:
                refused("a spectrum of too many bins", lambda: sp.spectrum(s["nb"]), ValueError)
                refused("frequencies of too many bins", lambda: sp.frequencies(s["nb"]), ValueError)
            elif o["n"]:
                full = self.total(o)
                expect_close("rebinned spectrum", [np.mean([full[i] for i in b]) for b in s["bins"]], sp.spectrum(s["nb"]), sig="rebin", **TOL)
                expect_close("frequencies of bins", [b / (2 * self.t * s["nb"]) for b in range(s["nb"] + 1)], sp.frequencies(s["nb"]), sig="rebin", **TOL)
        elif a == "whole":
            x, ps = self.array(s["x"]), mass.mathstat.power_spectrum
            named = {"hann": ps.hann, "bartlett": ps.bartlett, "welch": ps.welch, "none": None}.get(s["kind"], lambda n: 1.0 + np.arange(n))
            kw = {} if named is None and rng.random() < .5 else dict(window=named)
            if s["segs"] > 1 or rng.random() < .5:
                kw["segfactor"] = s["segs"]
            want = sum(power(t["pow"], t["w2"], s["m"], self.t) for t in s["terms"]) / len(s["terms"])
            got = ps.computeSpectrum(x, dt=self.dt, **kw)
            if self.dt is not None:
                f, got = got
                expect_close("frequencies", np.arange(s["m"] + 1) / (2 * self.t * s["m"]), f, sig="whole", **TOL)
            expect_close("spectrum of all of the data", want, got, sig="whole", **TOL)
        elif a == "broken":
            x = np.array(s["rec"], dtype=float if s["float"] else rng.choice([int, np.int16])).T
            kept = x.copy()
            got = mass.mathstat.power_spectrum.autocorrelation_broken_from_pulses(x)
            expect_close("autocorrelation of records", lags(s["ac"]), got, sig="broken", **TOL)
            expect("the records given", kept.tolist(), x.tolist(), "data")
        self.view(s["obs"])

    def total(self, o):
        return sum(power(t["pow"], t["w2"], o["m"], self.t) for t in o["terms"]) / o["n"]

    def view(self, obs):
        for k, o in enumerate(obs, 1):
            sp = self.slot(k, o["m"], o["over"])
            expect(f"segments in spectrum {k}", o["n"], sp.nsegments, "segments")
            expect_close(f"frequencies of spectrum {k}", np.arange(o["m"] + 1) / (2 * self.t * o["m"]), sp.frequencies(), sig="frequencies", **TOL)
            if o["n"]:
                expect_close(f"spectrum {k}", self.total(o), sp.spectrum(), sig="spectrum", **TOL)

    def close(self):
        pass


class Recs(Base):
    def __init__(self, first, wd, rng):
        super().__init__(first, wd, rng)
        base = rng.choice([0, 100, 5000, 65500])
        recs = [np.array(r) + base for r in first["rec"]]
        self.n, self.cont = len(recs[0]), first["cont"]
        kw = dict(nsamp=self.n, npre=2, timebase="0.0009765625", subdiv=64, rows=8, cols=1, row=0, col=0)
        k = np.arange(len(recs))
        recs = [r.astype(np.uint16) for r in recs]
        self.noise = ljhfab.write22(f"{wd}/noise_chan5.ljh", recs, 1000 * k, 1_600_000_000_000_000 + 10_000 * k, chan=5, **kw)
        self.pulse = ljhfab.write22(f"{wd}/run_chan5.ljh", recs[:2], 1000 * k[:2], 1_600_000_000_000_000 + 10_000 * k[:2], chan=5, **kw)
        self.open()

    def open(self):
        kw = {} if self.cont and self.rng.random() < .5 else dict(noise_is_continuous=self.cont)
        self.data = mass.TESGroup([self.pulse], [self.noise], hdf5_filename=self.wd + "/m.hdf5", hdf5_noisefilename=self.wd + "/n.hdf5", **kw)
        self.ds = self.data.channel[5]
        self.nr = self.ds.noise_records

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if isinstance(f, h5py.File) and f:
                f.close()

    def psd(self, what, p, got, sp=None):
        expect_close(what, psd_value(p, TB), got, sig="psd", **TOL)
        if sp is not None:
            expect(f"segments in the {what}", p["n"], sp.nsegments, "psd")
            expect_close(f"frequencies of the {what}", np.arange(p["m"] + 1) / (2 * TB * p["m"]), sp.frequencies(), sig="psd", **TOL)
            expect_close(what, psd_value(p, TB), sp.spectrum(), sig="psd", **TOL)

    def exc(self, s):
        return {} if s["exc"] == 1000 and self.rng.random() < .5 else dict(max_excursion=s["exc"])

    def step(self, s):
        a, rng = s["act"], self.rng
        if a == "noise":
            kw = self.exc(s)
            if s["force"] or rng.random() < .5:
                kw["forceNew"] = s["force"]
            who = self.data if s["grp"] else self.ds
            go = rng.choice([who.compute_noise, who.compute_noise, who.compute_noise_spectra])
            if s["grp"] or not s["fails"]:
                if s["grp"] and go != who.compute_noise and s["fails"]:
                    go = who.compute_noise
                go(**kw)
            else:
                refused("too little continuous noise", lambda: go(**kw), ValueError)
        elif a == "white":
            who = self.data if s["grp"] else self.ds
            kw = {} if s["v"] == 1 and rng.random() < .5 else dict(noise_variance=rng.choice([int, float])(s["v"]))
            if s["force"] or rng.random() < .5:
                kw["forceNew"] = s["force"]
            who.assume_white_noise(**kw)
        elif a == "psd":
            kw = self.exc(s)
            w = self.window(s["kind"], s["w"], callable_only=True)
            if s["seg"] != self.n or rng.random() < .5:
                kw["seg_length"] = s["seg"]
            if self.cont and s["exc"] == 1000 and s["seg"] % 2 == 0 and s["seg"] // 2 != self.n // 2 and rng.random() < .5:
                sp, = self.nr.compute_fancy_power_spectra(window=w, plot=False, seglength_choices=[s["seg"]])
            elif s["seg"] == self.n and rng.random() < .3 and w is not None:
                kw.pop("seg_length", None)
                self.nr.compute_power_spectrum(window=w, plot=False, **kw)
                sp = None
            else:
                sp = self.nr.compute_power_spectrum_reshape(window=w, **kw)
            if sp is not None:
                self.psd("power spectrum", s["psd"], sp.spectrum(), sp)
        elif a == "seg":
            refused("cutting records anew that are not continuous", lambda: self.nr.compute_power_spectrum_reshape(seg_length=s["seg"]), ValueError)
        elif a == "ac":
            kw = dict(plot=False, **self.exc(s))
            if s["lags"] != -1 or rng.random() < .5:
                kw["n_lags"] = None if s["lags"] == -1 else s["lags"]
            if s["range"]:
                kw["data_samples"] = rng.choice([list, tuple])(s["range"])
            if s["fails"]:
                refused("this number of lags", lambda: self.nr.compute_autocorrelation(**kw), ValueError)
            else:
                self.nr.compute_autocorrelation(**kw)
                g = self.nr.hdf5_group[f"reclen{len(s['ac'])}"]["autocorrelation"]
                expect_close(f"stored autocorrelation of {len(s['ac'])} lags", lags(s["ac"]), g[:], sig="ac", **TOL)
        elif a == "alone":
            kw = dict(use_records=s["use"]) if s["use"] else {}
            nr = mass.NoiseRecords(self.noise, **kw) if not s["cont"] and rng.random() < .5 else mass.NoiseRecords(self.noise, records_are_continuous=s["cont"], **kw)
            sp = nr.compute_power_spectrum_reshape(window=self.window(s["kind"], s["w"], callable_only=True), **self.exc(s))
            self.psd("power spectrum without storage", s["psd"], nr.noise_psd, sp)
            kw = dict(n_lags=s["lags"], plot=False, **self.exc(s))
            if s["fails"]:
                refused("this number of lags", lambda: nr.compute_autocorrelation(**kw), ValueError)
            else:
                nr.compute_autocorrelation(**kw)
                expect_close("autocorrelation without storage", lags(s["ac"]), nr.autocorrelation, sig="alone", **TOL)
        elif a == "many":
            recs = [(np.array(r) + 40).astype(np.uint16) for r in s["rec"]]
            k = np.arange(len(recs))
            f = ljhfab.write22(f"{self.wd}/long_chan7.ljh", recs, 1000 * k, 1_600_000_000_000_000 + 10_000 * k, chan=7, nsamp=4, npre=2, timebase="0.0009765625", subdiv=64, rows=8, cols=1, row=0, col=0)
            nr = mass.NoiseRecords(f, records_are_continuous=True)
            nr.compute_autocorrelation(n_lags=s["lags"], plot=False)
            expect_close("autocorrelation of longer noise", lags(s["ac"]), nr.autocorrelation, sig="many", **TOL)
        elif a == "lags":
            # (through the group, a channel set aside would be left alone)
            who = self.ds if 5 in self.data.why_chan_bad or rng.random() < .5 else self.data
            who.compute_noise_nlags(s["lags"], **self.exc(s))
            nr = self.ds.noise_records_nlags
            self.psd("power spectrum of continuous noise", s["psd"], nr.noise_psd)
            expect_close("autocorrelation of continuous noise", lags(s["ac"]), nr.autocorrelation, sig="lags", **TOL)
        elif a == "reopen":
            self.close()
            self.open()
        self.view(s["obs"])

    def view(self, o):
        expect("channel set aside", o["bad"], 5 in self.data.why_chan_bad, "bad")
        for what, v, ac, psd in (("the records", o["st"], self.nr.autocorrelation, self.nr.noise_psd), ("the channel", o["ds"], self.ds.noise_autocorr, self.ds.noise_psd)):
            expect_close(f"autocorrelation of {what}", lags(v["ac"]) if v["ac"] else np.zeros(self.n), ac[:], sig="stored", **TOL)
            p = v["psd"]
            m = self.n // 2
            if p == -1:
                expect_close(f"power spectrum of {what}", np.zeros(m + 1), psd[:], sig="stored", **TOL)
            else:
                want = np.full(m + 1, 2 * TB * p["white"]) if "white" in p else psd_value(p, TB)
                expect_close(f"power spectrum of {what}", want, psd[:], sig="stored", **TOL)
                expect_close(f"frequency step of {what}", 1 / (2 * TB * m), psd.attrs["delta_f"], sig="step", **TOL)


def replay(trace, wd):
    rng = random.Random(repr(trace[0]) + repr(trace[1])[:200])
    r = (Accs if trace[0]["mode"] == "acc" else Recs)(trace[0], wd, rng)
    try:
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    laws = ["Conserved", "Largest", "ConstantFree", "NoDc", "AllBins"]
    hs = [ctx.start_check("Noise", dict(Slots={1}, Absent=-1, Vals=set(v), RecLen=n, MaxRec=k), invs=laws, next="NextSmall", workers=1, timeout=800)
          for n, v, k in [(4, (0, 1, 3), 1), (6, (0, 1), 1), (8, (0, 1), 1)] + ([] if ctx.quick else [(4, (0, 3), 2), (6, (0, 1, 4), 1), (12, (0, 1), 1)])]
    depth = ctx.n(14, 24)
    traces = ctx.gen("NoiseGen", dict(Slots={1, 2, 3}, Absent=-1, Vals={0}, RecLen=4, MaxRec=0, Depth=depth), num=ctx.n(240, 3000), depth=depth + 1, init="InitG", next="NextG", invs=["Sane"])
    ctx.replay(replay, traces, "history")
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("new", "add", "long", "copy", "rebin", "whole", "broken", "noise", "white", "psd", "ac", "alone", "lags", "many", "reopen")
