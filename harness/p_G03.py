"""G03: stored analysis results.  Pipeline.tla; histories of PipelineGen.tla are replayed into TESGroup, and every result is compared with what its
step gives on a fresh analysis that holds nothing but the inputs recorded in the specification's term."""
import json
import os
import random
import tempfile
import warnings
import h5py
import numpy as np
import ljhfab
from vlib import Divergence, expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "one set of pulse and noise records (three pulse heights, drifting baseline), read in segments of 7, 50 or 1000 records",
               "steps that fit or minimise are compared with the same step on a fresh analysis with the same inputs, not with a definition of their own"]
NS, NPRE, N, TB = 48, 12, 240, 1e-5
FIELD = dict(fv="p_filt_value", dc="p_filt_value_dc", phc="p_filt_value_phc", rms="p_pulse_rms")
SUMS = ("pulse_average pulse_rms promptness rise_time postpeak_deriv pretrig_rms pretrig_deriv pretrig_offset peak_index peak_value min_value shift1 timestamp subframecount").split()
SETTINGS = ["peak_samplenumber", "pretrigger_ignore_samples", "cut_pre", "cut_post"]
LINES = [4000., 6000., 8800.]
_files = None


def raw_files():
    """The records, written once per process."""
    global _files
    if _files and os.path.exists(_files[0]):
        return _files
    wd = tempfile.mkdtemp(dir=os.environ.get("TMPDIR") or None)
    g = np.random.default_rng(5)
    t = np.arange(NS) - NPRE
    recs = []
    for i in range(N):
        arr = g.uniform(-.3, .3)
        base = 1000 + 60 * np.sin(i / 17.) + 3 * g.standard_normal() + (25 if i >= 140 else 0)
        tt = t - arr - (i % 5 == 0)
        s = np.where(tt >= 0, (np.exp(-tt / 25.) - np.exp(-tt / 5.)), 0) / .535
        h = [2000, 3000, 4400][i % 3] * (1 + .0004 * g.standard_normal()) * (1 - .00006 * (base - 1000)) * (1 + .001 * arr) * (1 + 2e-5 * i)
        recs.append(np.round(base + h * s + 1.5 * g.standard_normal(NS)).astype(np.uint16))
    kw = dict(nsamp=NS, npre=NPRE, chan=1, timebase=repr(TB), subdiv=64, rows=8, cols=1, row=0, col=0)
    k = 1 + np.arange(N)
    p = ljhfab.write22(wd + "/run_chan1.ljh", recs, 1000 * k, 1_600_000_000_000_000 + 10_000_000 * k + 1000 * k * k, **kw)
    noise = []
    for i in range(60):
        x = np.convolve(g.standard_normal(NS + 3), [1, .7, .4, .2], "valid") * 3
        if i % 9 == 0:
            x[20:] += 60
        noise.append(np.round(1000 + x).astype(np.uint16))
    k = np.arange(60)
    n = ljhfab.write22(wd + "/noise_chan1.ljh", noise, 1000 * k, 1_600_000_000_000_000 + 10_000 * k, **kw)
    _files = p, n, np.array(recs, dtype=float), np.array(noise, dtype=float)
    return _files


def masked(g):
    i = np.arange(N)
    return dict(all=i < 0, most=i % 4 == 1, few=i % 15 != 0, none=i >= 0)[g]


KIND = (np.arange(N) // 2) % 2      # category labels
MASKS = dict(one=np.arange(N) % 3 == 0, two=np.arange(N) % 3 == 1)


def transform(d):
    return d + 1e-5 * d * d


def corr_arrays(pc):
    return [pc.phase_uniformifier_x, pc.phase_uniformifier_y] + [np.array(v) for c in pc.corrections for v in (c._x, c._y)]


class Chan:
    """A channel under analysis, opened in its own directory."""

    def __init__(self, wd, per):
        self.wd, self.per = wd, per
        self.open()
        self.data.register_boolean_cut_fields("told")
        self.data.register_categorical_cut_field("kind", ["x", "y"])
        self.ds.cuts.cut("kind", KIND + 1)

    def open(self):
        p, n, _, _ = raw_files()
        self.data = mass.TESGroup([p], [n], hdf5_filename=self.wd + "/m.hdf5", hdf5_noisefilename=self.wd + "/n.hdf5", noise_is_continuous=self.per == 50)
        self.ds = self.data.channel[1]
        self.ds.pulse_records.set_segment_size(self.per * (16 + 2 * NS))

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if isinstance(f, h5py.File):
                f.close()

    def cut(self, g):
        self.ds.cuts.clear_cut("told")
        self.ds.cuts.cut("told", masked(g))

    # what is stored
    def get(self, slot):
        ds = self.ds
        if slot == "sum":
            return [getattr(ds, "p_" + f)[:] for f in SUMS] + [np.array([getattr(ds, a) for a in SETTINGS if getattr(ds, a) is not None])]
        if slot == "ptm":
            return [ds.p_pretrig_mean[:]]
        if slot == "noise":
            return [ds.noise_autocorr[:], ds.noise_psd[:]]
        if slot == "avg":
            return [ds.average_pulse[:]]
        if slot == "filt":
            return self.filter_parts()
        if slot == "fv":
            return [ds.p_filt_value[:], ds.p_filt_phase[:]]
        if slot == "dc":
            i = ds.drift_correct_info
            return [ds.p_filt_value_dc[:], [str(i.get("type"))], np.array([i[k] for k in ("slope", "median_pretrig_mean") if k in i])]
        if slot == "phc":
            out = [ds.p_filt_value_phc[:], ds.p_filt_phase_corr[:]]
            if hasattr(ds, "phaseCorrector"):
                pc = ds.phaseCorrector
                out += corr_arrays(pc) + [[pc.indicatorName, pc.uncorrectedName]]
            return out
        if slot == "tdc":
            return [ds.p_filt_value_tdc[:]]
        if slot == "en":
            return [ds.p_energy[:]]
        raise KeyError(slot)

    def filter_parts(self):
        ds, f = self.ds, self.ds.filter
        if f is None:
            return [["filters" in ds.hdf5_group]]
        arr = [getattr(f, a) for a in ("values", "dt_values", "const_values", "signal_model", "dt_model")]
        num = [getattr(f, a) for a in ("nominal_peak", "variance", "predicted_v_over_dv", "convolution_lags", "fmax", "f_3db", "cut_pre", "cut_post")]
        return [np.array([]) if a is None else np.asarray(a) for a in arr] + [np.array([-1. if v is None else float(v) for v in num]), [f._filter_type, ds._filter_type, "filters" in ds.hdf5_group]]

    def run(self, s, who=None, peaks=None, **kw):
        """One step; `who` is the channel or the group."""
        ds, op, who = self.ds, s["op"], who or self.ds
        band = dict(fmax=dict(fmax=2e4), f3db=dict(f_3db=1e4)).get(s.get("band"), {})
        cuts = dict(cut_pre=3, cut_post=5) if s.get("cuts") == "cut" else {}
        cat = {"category": {"kind": "x"}} if s.get("cat", "-") != "-" else {}
        if op == "sum":
            kw.update(dict(b=dict(peak_time_microsec=115., pretrigger_ignore_microsec=15.), c=dict(cut_pre=2, cut_post=1)).get(s["v"], {}))
            return who.summarize_data(use_cython=s["how"] == "compiled", **kw)
        if op == "flux":
            return who.correct_flux_jumps(int(s["q"]))
        if op == "noise":
            return who.compute_noise(max_excursion=900 if self.per == 50 and s["m"] == "40" else int(s["m"]), **kw)
        if op == "white":
            return who.assume_white_noise(float(s["m"]), **kw)
        if op == "avg":
            return who.avg_pulses_auto_masks(max_pulses_to_use=int(s["max"]), subtract_mean=s["sub"], **kw)
        if op == "avgm":
            m = MASKS[s["mask"]]
            return who.compute_average_pulse(m if who is ds else [m], subtract_mean=s["sub"], **kw)
        if op == "f5":
            return who.compute_5lag_filter(**band, **cuts, **cat, **kw)
        if op == "fa":
            return who.compute_ats_filter(maximum_n_pulses=int(s["max"]), shift1=s["shift"], optimize_dp_dt=s["opt"], transform=transform if s["tr"] else None, **band, **cuts, **cat, **kw)
        if op == "fd":
            return who.filter_data(transform=transform if s["tr"] else None, use_cython={"-": None, "compiled": True, "python": False}[s["how"]], **kw)
        if op == "dc":
            return who.drift_correct(attr=FIELD[s["attr"]], **cat, **kw)
        if op == "phc":
            v = getattr(ds, FIELD[s["attr"]])[:]
            return who.phase_correct(attr=FIELD[s["attr"]], ph_peaks=[float(np.median(v[i::3])) for i in range(int(s["pk"]))], method2017=s["how"] == "2017", **cat, **kw)
        if op == "tdc":
            a = {"-": {}, "fine": dict(sec_per_degree=600, pulses_per_degree=30), "two": dict(sec_per_degree=600, pulses_per_degree=30, max_degrees=2)}[s["arg"]]
            return who.time_drift_correct(attr=FIELD[s["attr"]], **a, **cat, **kw)
        if op == "cal":
            a = FIELD[s["attr"]]
            return who.calibrate(a, LINES, name_ext=s["name"][len(s["attr"]):], size_related_to_energy_resolution=20, fit_range_ev=300, bin_size_ev=.3,
                                 curvetype={"-": "gain", "log": "loglog"}[s["arg"]], **cat, **kw)
        if op == "conv":
            n = s["name"]
            calname = FIELD[n.rstrip("+")] + n[len(n.rstrip("+")):]
            if calname == FIELD[s["attr"]]:
                return who.convert_to_energy(FIELD[s["attr"]])
            return who.convert_to_energy(FIELD[s["attr"]], calname=calname)
        raise KeyError(op)


class Failed(Exception):
    """A fit did not succeed, on a fresh analysis: nothing can be said."""


class Fresh:
    """Evaluates terms: each step on a fresh analysis holding only its inputs."""

    def __init__(self, wd, per):
        self.wd, self.per, self.memo, self.k = wd, per, {}, 0

    def value(self, term, depth=0):
        key = json.dumps(term)
        if key not in self.memo:
            try:
                self.memo[key] = self.compute(term)
            except (Divergence, Failed) as e:
                self.memo[key] = e
                raise
            self.differs(term)
            self.defined(term, self.memo[key])
        if isinstance(self.memo[key], Exception):
            raise self.memo[key]
        return self.memo[key]

    def fresh(self):
        self.k += 1
        d = f"{self.wd}/f{self.k}"
        os.mkdir(d)
        return Chan(d, self.per)

    # put a stored value into its place
    def put(self, c, slot, term):
        ds = c.ds
        if not term:
            return
        v = self.value(term)
        if slot == "sum":
            for f, a in zip(SUMS, v):
                getattr(ds, "p_" + f)[:] = a
            for a, x in zip(SETTINGS, v[-1]):
                setattr(ds, a, int(x))
            if not (ds.p_pretrig_mean[:] != 0).any():
                ds.p_pretrig_mean[:] = self.value(["P"] + term[1:])[0]
        elif slot == "ptm":
            ds.p_pretrig_mean[:] = v[0]
        elif slot == "noise":
            ds.noise_autocorr[:], ds.noise_psd[:] = v
        elif slot == "avg":
            ds.average_pulse[:] = v[0]
        elif slot == "filt":
            f = v[:5]
            num = [None if x == -1 else x for x in v[5]]
            f = [x if len(x) else None for x in f]
            ds.filter = mass.Filter(f[0], num[0], num[1], num[2], f[1], f[2], f[3], f[4], int(num[3]), num[4], num[5], int(num[6] or 0), int(num[7] or 0), v[6][0])
            ds._filter_type = v[6][1]
        elif slot == "attr":
            if term[0] == "R":
                ds.p_pulse_rms[:] = v[0]
                return "rms"
            name = dict(V="fv", D="dc", C="phc")[term[0]]
            getattr(ds, FIELD[name])[:] = v[0]
            return name
        elif slot == "fv":
            ds.p_filt_value[:], ds.p_filt_phase[:] = v

    def compute(self, t):
        h = t[0]
        if h == "R":
            return [self.value(t[1])[SUMS.index("pulse_rms")]]
        c = self.fresh()
        try:
            return self.step(c, t, h)
        except Divergence:
            raise
        except Exception as e:
            if h in ("FA", "C", "K", "T", "D"):
                raise Failed(f"{h}: {e}")
            raise Divergence(f"step {h} on a fresh analysis", "a result", f"{type(e).__name__}: {e}", sig="fresh step fails")
        finally:
            c.close()

    def step(self, c, t, h):
        if h in ("S", "P"):
            c.run(dict(op="sum", v=t[1], how=t[2]))
            return c.get("sum" if h == "S" else "ptm")
        if h == "J":
            self.put(c, "ptm", t[1])
            c.cut(t[2])
            c.run(dict(op="flux", q=t[3]))
            return c.get("ptm")
        if h in ("N", "W"):
            c.run(dict(op="noise" if h == "N" else "white", m=t[1]))
            return c.get("noise")
        if h == "A":
            self.put(c, "sum", t[1])
            c.cut(t[2])
            c.run(dict(op="avg", max=t[3], sub=t[4]))
            return c.get("avg")
        if h == "M":
            if t[1] != "-":
                self.put(c, "sum", ["S", t[1], "compiled"])
            c.run(dict(op="avgm", mask=t[2], sub=t[3]))
            return c.get("avg")
        if h == "F5":
            if t[5] != "-":
                self.put(c, "sum", ["S", t[5], "compiled"])
            self.put(c, "avg", t[1])
            self.put(c, "noise", t[2])
            c.run(dict(op="f5", band=t[3], cuts=t[4]))
            return c.get("filt")
        if h == "FA":
            self.put(c, "sum", t[1])
            self.put(c, "ptm", t[2])
            self.put(c, "noise", t[3])
            c.cut(t[4])
            c.run(dict(op="fa", cat=t[5], max=t[6], shift=t[7], opt=t[8], tr=t[9], band=t[10], cuts=t[11]))
            return c.get("filt")
        if h == "V":
            self.put(c, "filt", t[1])
            if t[5]:
                self.put(c, "sum", t[5])
            self.put(c, "ptm", t[4])
            c.run(dict(op="fd", how=t[2], tr=t[3]))
            return c.get("fv")
        if h == "D":
            a = self.put(c, "attr", t[1])
            self.put(c, "ptm", t[2])
            c.cut(t[3])
            c.run(dict(op="dc", attr=a, cat=t[4]), **(dict(forceNew=True) if a == "dc" else {}))
            return c.get("dc")
        if h == "C":
            self.put(c, "fv", t[1])
            a = self.put(c, "attr", t[2])
            c.cut(t[3])
            c.run(dict(op="phc", attr=a, cat=t[4], how=t[5], pk=t[7]))
            return c.get("phc")
        if h == "T":
            self.put(c, "sum", ["S", "a", "compiled"])      # the time stamps
            a = self.put(c, "attr", t[1])
            c.cut(t[2])
            _, info = c.run(dict(op="tdc", attr=a, cat=t[3], arg=t[4]))
            x = getattr(c.ds, FIELD[a])[:]
            use = ~masked(t[2]) & ((KIND == 0) | (t[3] == "-"))
            pk = np.median(x[use])
            use &= np.abs(x / pk - 1) < .5
            sec, per, most = {"-": (2000, 2000, 20), "fine": (600, 30, 20), "two": (600, 30, 2)}[t[4]]
            when = c.ds.p_timestamp[:][use]
            expect("degrees of the time drift correction", max(1, min(int(np.ptp(when) / sec), int(use.sum() / per), most)), len(info["coefficients"]), "degrees of drift")
            return c.get("tdc")
        if h == "K":
            a = self.put(c, "attr", t[1])
            c.cut(t[2])
            c.run(dict(op="cal", attr=a, name=a, cat=t[3], arg=t[4]))
            (k, cal), = c.ds.calibration.items()
            expect("name of a calibration", FIELD[a], k, "calibration name")
            self.cals = getattr(self, "cals", {})
            self.cals[json.dumps(t)] = cal.copy()
            return curve(cal)
        if h == "E":
            self.value(t[1])
            a = self.put(c, "attr", t[2])
            c.ds.calibration["any"] = self.cals[json.dumps(t[1])]
            c.ds.convert_to_energy(FIELD[a], "any")
            return c.get("en")
        raise KeyError(h)

    # arguments matter
    SIBLINGS = dict(S=[(1, "a")], N=[(1, "1000")], W=[(1, "1")], A=[(3, "7000"), (4, True), (2, "all")], M=[(2, "one"), (3, True)], F5=[(3, "-"), (4, "-")],
                    FA=[(4, "all"), (5, "-"), (6, "4000"), (7, True), (8, True), (9, False), (10, "-"), (11, "-")], D=[(3, "all"), (4, "-")], C=[(3, "all"), (4, "-"), (5, "2017"), (7, "3")],
                    T=[(3, "-")], K=[(3, "-"), (4, "-")], V=[])

    def differs(self, t):
        for i, alt in self.SIBLINGS.get(t[0], ()):
            if t[0] == "N" and self.per == 50:
                continue
            if t[i] == alt or (t[0] == "FA" and i == 6 and (t[4] != "all" or t[5] != "-")) or (t[0] == "FA" and i == 4 and t[6] == "40") or (t[0] == "A" and i == 3 and t[2] != "all"):
                continue
            try:
                other = self.value(t[:i] + [alt] + t[i + 1:])
                mine = self.memo[json.dumps(t)]
            except Failed:
                continue
            same = all(same_array(a, b) for a, b in zip(mine, other)) if len(mine) == len(other) else False
            if same:
                raise Divergence(f"result of {json.dumps(t)[:200]} with argument {t[i]} instead of {alt}", "another result", "the same result", sig=f"argument {i} of {t[0]} without effect")

    # results that have a definition of their own
    def defined(self, t, v):
        _, _, recs, noise = raw_files()
        h = t[0]
        if h == "W":
            expect_close("white noise autocorrelation", [float(t[1])] + [0] * (NS - 1), v[0], rtol=1e-12, atol=1e-300, sig="white noise")
            expect_close("white noise spectrum", [2 * float(t[1]) * TB] * (NS // 2 + 1), v[1], rtol=1e-12, sig="white noise")
        elif h == "N" and self.per != 50:
            use = np.ptp(noise, axis=1) < int(t[1])
            y = noise[use] - noise[use].mean(axis=1, keepdims=True)
            ac = np.array([(y[:, :NS - k] * y[:, k:]).sum() / (NS - k) for k in range(NS)]) / use.sum()
            expect_close("noise autocorrelation", ac, v[0], rtol=1e-9, atol=1e-9 * ac[0], sig="noise autocorrelation")
        elif h in ("A", "M"):
            ign = {"-": 0, "b": 1}.get(t[1] if h == "M" else t[1][1], 3)
            if h == "M":
                m = MASKS[t[2]]
            else:
                pa = self.value(t[1])[SUMS.index("pulse_average")]
                good = ~masked(t[2])
                m = good & (np.abs(pa / np.median(pa[good]) - 1) < .05)
                m &= np.cumsum(m) <= int(t[3])
            a = recs[m].mean(axis=0)
            if t[-1]:
                a = a - a[:NPRE - ign].mean()
            expect_close("average pulse", a, v[0], rtol=1e-6, atol=2e-4, sig="average pulse")
        elif h == "V":
            f = self.value(t[1])
            y = recs
            if t[3]:
                y = transform(recs - self.value(t[4])[0][:, None].astype(float))
            if t[1][0] == "F5":
                n = NS - 4
                c = np.array([y[:, k:k + n] @ f[0] for k in range(5)])
                # least-squares parabola through five points
                q = np.polyfit(np.arange(-2, 3), c, 2)
                x = -q[1] / (2 * q[0])
                val, ph = q[2] - q[1] ** 2 / (4 * q[0]), x
            else:
                if t[1][7]:
                    sh = self.value(t[5])[SUMS.index("shift1")].astype(bool)
                    y = np.where(sh[:, None], y[:, :-1], y[:, 1:])
                val = y @ f[0]
                ph = y @ f[1] / val
            expect_close("filtered pulse heights", val, v[0], rtol=1e-5, atol=1e-2, sig="filtered value")
            expect_close("filtered arrival times", ph, v[1], rtol=1e-4, atol=1e-4, sig="filtered phase")
        elif h == "D":
            x, p = self.value(t[1])[0].astype(float), self.value(t[2])[0].astype(float)
            good = ~masked(t[3]) & ((KIND == 0) | (t[4] == "-"))
            expect("kind of drift correction", ["ptmean_gain"], v[1], "drift")
            expect_close("reference of the drift correction", np.median(p[good]), v[2][1], rtol=1e-6, sig="drift")
            expect_close("drift-corrected values", x * (1 + (p - v[2][1]) * v[2][0]), v[0], rtol=1e-5, sig="drift")
        elif h == "C":
            expect("names in the phase correction", ["p_filt_phase", FIELD[t[6]]], v[-1], "phase correction names")
            expect("levels of the phase correction", int(t[7]), (len(v) - 5) // 2, "phase correction levels")
        elif h == "E":
            cal = self.cals[json.dumps(t[1])]
            x = self.value(t[2])[0].astype(float)
            e, lo, hi = (cal.ph2energy(x * k) for k in (1, 1 - 3e-7, 1 + 3e-7))      # single precision, and curves may be steep
            bad = ~(np.abs(v[0] - e) <= 1e-5 * np.abs(e) + np.abs(hi - lo)) & np.isfinite(e)
            expect_close("energies", e[bad], v[0][bad], rtol=1e-9, sig="energy")
        elif h in ("F5", "FA"):
            vals, par = v[0], v[5]
            want = dict(fmax=2e4, f3db=1e4)
            expect_close("band limits of the filter", [want["fmax"] if t[-2 if h == "FA" else 3] == "fmax" else -1, want["f3db"] if t[-2 if h == "FA" else 3] == "f3db" else -1], par[4:6], sig="filter settings")
            cp = (3, 5) if t[11 if h == "FA" else 4] == "cut" else (0, 0)
            expect("samples cut from the filter", list(cp), [int(par[6]), int(par[7])], "filter settings")
            expect("weights of the samples cut", True, bool((vals[:cp[0]] == 0).all() and (vals[len(vals) - cp[1]:] == 0).all()), "filter cuts")
            expect_close("response to a constant", 0, vals.sum() / np.abs(vals).max(), atol=1e-6 if t[10 if h == "FA" else 3] == "-" else 1e-3, sig="filter baseline")


def curve(cal):
    ph = np.linspace(800, 5200, 45)
    return [cal.ph2energy(ph), [cal.curvename(), bool(cal.use_approximation if not callable(cal.use_approximation) else cal.use_approximation())] if hasattr(cal, "curvename") and hasattr(cal, "use_approximation") else [""]]


def same_array(a, b):
    if isinstance(a, list):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fi" and b.dtype.kind in "fi":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


EMPTY = {}
FAILS = os.environ.get("G03_FAILS")


def compare(slot, want, got, term):
    for i, (w, g) in enumerate(zip(want, got)):
        if not same_array(w, g):
            raise Divergence(f"{slot}, part {i} of {json.dumps(term)[:300]}", _show(w), _show(g), sig=f"stored {slot}")
    expect(f"parts of {slot}", len(want), len(got), f"stored {slot}")


def _show(x):
    return x if isinstance(x, list) else np.asarray(x).ravel()[:8].tolist()


def replay(trace, wd):
    warnings.simplefilter("ignore")
    rng = random.Random(len(json.dumps(trace)))
    per = trace[0]["per"]
    c = Chan(wd, per)
    if not EMPTY:
        EMPTY.update({s: c.get(s) for s in "sum ptm noise avg filt fv dc phc tdc en".split()})
    fr = Fresh(wd, per)
    try:
        for i, s in enumerate(trace[1:], 1):
            with at_step(i, s["act"]):
                try:
                    one(c, s, rng, fr)
                except Failed as e:
                    FAILS and open(FAILS, "a").write(f"{i} {e}\n")
                    return
    finally:
        c.close()


def one(c, s, rng, fr):
    op, o = s["op"], s["obs"]
    if s["out"] == "do":
        for slot in o:          # a fit that does not succeed on a fresh analysis either
            if slot == "cal":
                for t in o[slot].values() if o[slot] else ():
                    fr.value(t)
            elif slot != "good" and o[slot]:
                fr.value(o[slot])
    if op == "cut":
        c.cut(s["g"])
    elif op == "reopen":
        c.close()
        c.open()
    else:
        kw = {} if op in ("flux", "conv") else dict(forceNew=True) if s["force"] else rng.choice([{}, dict(forceNew=False)])
        who = c.ds if s["out"] == "refuse" or rng.random() < .6 else c.data
        try:
            c.run(s, who, **kw)
            out = "ok"
        except Exception as e:
            out = f"{type(e).__name__}: {e}"
        expect("the step is refused", s["out"] == "refuse", out != "ok", "refusal") if s["out"] == "refuse" else expect("outcome of the step", "ok", out, "step fails")
        expect("channels excluded", {}, dict(c.data.why_chan_bad), "excluded")
    view(c, o, fr)


def view(c, o, fr):
    for slot, t in o.items():
        if slot == "good":
            expect("good pulses", (~masked(t)).tolist(), c.ds.good().tolist(), "cuts")
        elif slot == "cal":
            names = {FIELD[n.rstrip("+")] + n[len(n.rstrip("+")):]: v for n, v in (t or {}).items()}
            expect("calibrations", sorted(names), sorted(c.ds.calibration), "calibrations")
            for n, v in names.items():
                compare("calibration " + n, fr.value(v), curve(c.ds.calibration[n]), v)
        elif not t:
            compare(slot, EMPTY[slot], c.get(slot), "absent")
        else:
            compare(slot, fr.value(t), c.get(slot), t)
    good = ~masked(o["good"])
    for cat, n in (({}, 7), ({"kind": "x"}, 33), ({"kind": "y"}, 1000)):
        want = np.flatnonzero(good & ((KIND == (cat.get("kind") == "y")) | (not cat)))[:n]
        d, which = c.ds.first_n_good_pulses(n, category=cat)
        expect(f"first {n} good pulses", want.tolist(), which.tolist(), "first good pulses")
        expect("records of the first good pulses", True, bool(np.array_equal(d, raw_files()[2][want])), "first good pulses")
    off = c.ds._makeNumpyArray(fields=["p_filt_value", "p_energy", "p_pretrig_mean"]) if o["en"] else None
    if off is not None:
        expect("columns of the off-style array", [c.ds.p_filt_value[:].tolist(), c.ds.p_energy[:].tolist()], [off["p_filt_value"].tolist(), off["p_energy"].tolist()], "off style")


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("PipelineGen", dict(Depth=6 if ctx.quick else 8), invs=["CalmAgrees", "Idempotent", "Repeatable"], props=["SkipLeaves", "Frame", "Computes"], init="InitS", next="NextS", extra="CONSTRAINT Bound", workers=2)
    depth = ctx.n(26, 45)
    traces = ctx.gen("PipelineGen", dict(Depth=depth), num=ctx.n(100, 1500), depth=depth * 4, init="InitG", next="NextG")
    ctx.replay(replay, traces, "history")
    ctx.end_check(h)
    ctx.need_actions("sum", "noise", "white", "avg", "avgm", "f5", "fa", "fd", "dc", "phc", "tdc", "cal", "conv", "cut", "reopen", "flux")
