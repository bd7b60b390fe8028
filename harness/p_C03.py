"""C03: cuts on ranges of pulse quantities.  RangeCuts.tla; histories of RangeCutsGen.tla are replayed into TESGroup."""
import os
import random
import h5py
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "quantities and limits are exact multiples of a binary unit, so that a limit is met or not without rounding",
               "the noise level of automatic cuts is recomputed from the noise records, by the documented formula"]
FIELDS = ["pretrigger_rms", "pretrigger_mean", "pretrigger_mean_departure_from_median", "peak_time_ms", "rise_time_ms", "postpeak_deriv", "pulse_average",
          "min_value", "timestamp_sec", "timestamp_diff_sec", "subframecount_diff_sec", "peak_value", "energy", "told"]
NOTNUM = -7777
NOLIM, PEAK, NPRE, NSAMP = -999, 4, 8, 32
TB = 2.0 ** -10
SUB = TB / 64


def steepest(rec):
    """The steepest rise: the largest slope (5-point fit) reached at two places two samples apart."""
    x = np.asarray(rec, dtype=float)
    t = .2 * x[4:] + .1 * x[3:-1] - .1 * x[1:-3] - .2 * x[:-4]
    return float(np.minimum(t[2:], t[:-2]).max())


class Rig:
    def __init__(self, first, wd, rng):
        self.wd, self.rng = wd, rng
        raw = first["obs"]["raw"]
        self.n = len(raw["energy"])
        subs, usec = 1000 * (1 + np.arange(self.n)), 1_600_000_000_000_000 + 10_000 * np.arange(self.n)
        kw = dict(nsamp=NSAMP, npre=NPRE, timebase="0.0009765625", subdiv=64, rows=8, cols=1, row=0, col=0)
        t = np.arange(NSAMP) - NPRE
        shape = np.where(t >= 0, np.exp(-np.abs(t - (PEAK - 3)) / 5.0), 0)
        self.files, self.noise = [], []
        for c in (1, 3):
            g = np.random.default_rng(c + rng.randrange(1000))
            recs = [np.round(1000 + (500 + 40 * i) * shape).astype(np.uint16) for i in range(self.n)]
            self.files.append(ljhfab.write22(f"{wd}/run_chan{c}.ljh", recs, subs, usec, chan=c, **kw))
            recs = [np.round(1000 + 9 * g.standard_normal(NSAMP)).astype(np.uint16) for _ in range(15 + c)]
            k = np.arange(len(recs))
            self.noise.append(ljhfab.write22(f"{wd}/noise_chan{c}.ljh", recs, 1000 * k, 1_600_000_000_000_000 + 10_000 * k, chan=c, **kw))
            if c == 1:
                self.levels(recs)
        self.open()
        self.data.summarize_data()
        self.data.register_boolean_cut_fields("told")
        self.data.set_chan_bad(3, "stays out")
        self.fill(raw)
        self.other = self.data.channel[3].cuts._mask[:]

    def levels(self, recs):
        """Median and scaled median absolute deviation of the noise records, as documented."""
        rms = [float(np.std(np.asarray(r[:NPRE], float))) for r in recs]
        der = [steepest(r) for r in recs]
        self.lev = {}
        for q, x in (("pretrigger_rms", rms), ("postpeak_deriv", der)):
            m = float(np.median(x))
            self.lev[q] = m, 1.4826 * float(np.median(np.abs(np.array(x) - m)))

    def open(self):
        self.data = mass.TESGroup(self.files, self.noise, hdf5_filename=self.wd + "/m.hdf5", hdf5_noisefilename=self.wd + "/n.hdf5")
        self.ds = self.data.channel[1]

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if isinstance(f, h5py.File):
                f.close()

    def fill(self, raw):
        ch = self.rng.choice
        u = self.u = dict(energy=ch([1, 64., .25]), pretrigger_rms=ch([.25, 1, 2]), postpeak_deriv=ch([.5, 1, 4]), pulse_average=ch([1, 16.5]), peak_value=ch([1, 100]),
                          pretrigger_mean=ch([1, 2, 16]), timestamp_sec=ch([.25, 1, 2]))
        self.base = dict(timestamp_sec=ch([0, 1.6e9]), pretrigger_mean=ch([0, 1000]), energy=ch([0, 0, -32, 6000]))
        u["min_value"] = u[DEP] = u["pretrigger_mean"]
        u["timestamp_diff_sec"] = u["timestamp_sec"]
        u["subframecount_diff_sec"] = SUB
        u["peak_time_ms"] = u["rise_time_ms"] = TB * 1e3
        d = self.ds
        a = {k: np.array([np.nan if x == NOTNUM else x for x in v], dtype=float) for k, v in raw.items()}
        d.p_energy[:] = self.base["energy"] + u["energy"] * a["energy"]
        d.p_pretrig_rms[:] = u["pretrigger_rms"] * a["pretrigger_rms"]
        d.p_pretrig_mean[:] = self.base["pretrigger_mean"] + u["pretrigger_mean"] * a["pretrigger_mean"]
        d.p_min_value[:] = self.base["pretrigger_mean"] + u["pretrigger_mean"] * a["min"]
        d.p_peak_value[:] = u["peak_value"] * a["peak_value"]
        d.p_peak_index[:] = NPRE + np.array(raw["peak_time_ms"])
        d.p_rise_time[:] = TB * a["rise_time_ms"]
        d.p_postpeak_deriv[:] = u["postpeak_deriv"] * a["postpeak_deriv"]
        d.p_pulse_average[:] = u["pulse_average"] * a["pulse_average"]
        d.p_timestamp[:] = self.base["timestamp_sec"] + u["timestamp_sec"] * a["timestamp_sec"]
        d.p_subframecount[:] = np.array(raw["sub"])

    def quantity(self, q):
        d = self.ds
        simple = dict(energy="energy", pretrigger_rms="pretrig_rms", pretrigger_mean="pretrig_mean", postpeak_deriv="postpeak_deriv", pulse_average="pulse_average", peak_value="peak_value",
                      timestamp_sec="timestamp")
        if q in simple:
            x = getattr(d, "p_" + simple[q])
            return x if self.rng.random() < .5 else x[:]
        if q == "min_value":
            return d.p_min_value[:] - d.p_pretrig_mean[:]
        if q == "timestamp_diff_sec":
            return np.hstack((np.inf, np.diff(d.p_timestamp)))
        return dict(peak_time_ms=d.p_peak_time, rise_time_ms=d.p_rise_time)[q][:] * 1e3

    def limits(self, q, al):
        u, b = self.u[q], self.base.get(q, 0)

        def one(k):
            if k == NOLIM:
                return None
            x = b + u * k
            if float(x).is_integer() and self.rng.random() < .6:
                return self.rng.choice([int(x), np.int64(x)])
            return self.rng.choice([float(x), np.float64(x)])

        if al[0] == "none":
            return None
        seq = self.rng.choice([tuple, list])
        if al[0] == "pair":
            return seq([one(al[1]), one(al[2])])
        out = [self.rng.choice([tuple, list])([one(a), one(b)]) for a, b in al[2]]
        if al[1]:
            out.insert(self.rng.randrange(len(out) + 1), "invert")
        return seq(out)

    def step(self, s):
        a, rng = s["act"], self.rng
        who = self.ds if rng.random() < .6 else self.data
        if a == "param":
            f = s["f"] if rng.random() < .7 else FIELDS_BIT(self.data, s["f"])
            self.ds.cuts.cut_parameter(self.quantity(s["q"]), self.limits(s["q"], s["al"]), f)
        elif a == "apply":
            ctl = mass.AnalysisControl(**{f: self.limits(f, al) for f, al in s["ctl"]})
            kw = dict(clear=s["clear"], forceNew=s["force"])
            if s["force"] and rng.random() < .5:
                del kw["forceNew"]
            if not s["clear"] and rng.random() < .5:
                del kw["clear"]
            who.apply_cuts(ctl, **kw)
        elif a == "clear":
            who.clear_cuts()
        elif a == "auto":
            sig = {q: ((2 * s["k"] + 1) / 2 * self.u[q] - m) / d for q, (m, d) in self.lev.items()}
            kw = dict(forceNew=s["force"], clearCuts=s["clear"])
            if s["clear"] and rng.random() < .5:
                del kw["clearCuts"]
            if s["pct"]:
                kw["pretrig_rms_percentile"] = s["pct"]
            who.auto_cuts(nsigma_pt_rms=sig["pretrigger_rms"], nsigma_max_deriv=sig["postpeak_deriv"], **kw)
        elif a == "reopen":
            self.close()
            self.open()
        self.view(s["obs"])

    def view(self, o):
        expect("channels excluded", [3], sorted(int(c) for c in self.data.why_chan_bad), "bad")
        ds = self.ds
        for f, out in o["cut"]:
            expect(f"pulses excluded by {f}", sorted(out), (1 + np.nonzero(ds.cuts.bad(f))[0]).tolist(), "field")
        expect("good pulses", sorted(o["good"]), (1 + np.nonzero(ds.good())[0]).tolist(), "good")
        expect("the other channel is untouched", self.other.tolist(), self.data.channel[3].cuts._mask[:].tolist(), "other")
        sv = ds.saved_auto_cuts
        expect("automatic cuts in force", o["saved"] != [], sv is not None, "saved")
        if sv is not None:
            p, (k, pt) = sv.cuts_prm, o["saved"]
            want = dict(peak_time_ms=(0, 1.25 * PEAK * TB * 1e3), rise_time_ms=(0, 1.1 * PEAK * TB * 1e3), pretrigger_rms=(None, pt / 2 * self.u["pretrigger_rms"]),
                        postpeak_deriv=(None, (2 * k + 1) / 2 * self.u["postpeak_deriv"]))
            for f in FIELDS[:-1]:
                if f not in want:
                    expect(f"no automatic limit on {f}", None, p[f], "saved")
                else:
                    expect(f"lower limit on {f}", want[f][0], p[f][0], "saved")
                    expect_close(f"upper limit on {f}", want[f][1], p[f][1], rtol=1e-5, sig="saved")
            m, d = self.lev["pretrigger_rms"]
            expect_close("median noise", m, sv._pretrig_rms_median, rtol=1e-5, sig="noise")
            expect_close("spread of noise", d, sv._pretrig_rms_sigma, rtol=1e-5, sig="noise")


DEP = "pretrigger_mean_departure_from_median"


def FIELDS_BIT(data, name):
    """The bit of a boolean field."""
    d = data.boolean_cut_desc
    return int(round(np.log2(int(d["mask"][d["name"] == name.encode()][0]))))


def replay(trace, wd):
    r = Rig(trace[0], wd, random.Random(repr(trace[0])))
    try:
        r.view(trace[0]["obs"])
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("RangeCuts", dict(Fields={"energy", "min_value", DEP, "pretrigger_rms"}, MaxV=2, MaxN=2, Peak=1), invs=["Complementary", "OneSided", "Unlimited", "NumbersPass"], props=["Grows"], next="NextSmall", workers=3)
    depth = ctx.n(14, 24)
    traces = ctx.gen("RangeCutsGen", dict(Fields=set(FIELDS), MaxV=8, MaxN=12, Peak=PEAK, Depth=depth), num=ctx.n(300, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["CutsOfPulses"])
    ctx.replay(replay, traces, "history")
    ctx.end_check(h)
    ctx.need_actions("param", "apply", "clear", "auto", "reopen")
