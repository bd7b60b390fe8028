"""T01: delays between pulses and external triggers.  Trig.tla, TrigSweep.tla."""
import os
import random
import h5py
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "times of one channel's pulses and of the triggers are in order (ties allowed)"]
NEVER = np.iinfo(np.int64).max
WORD = {"last": "after_last", "next": "until_next", "near": "from_nearest"}


def delay(x, scale):
    return NEVER if x == -1 else x * scale


# ---- the search itself, every small case -------------------------------------------------------
def replay_lists(case, wd):
    P, T, last, nxt = case
    rng = random.Random(repr(case))
    for scale, off in ((1, 0), (rng.choice([3, 640, 10**6]), rng.choice([0, 5, -17, 2**40, 2**61]))):
        p = np.array([off + scale * x for x in P], dtype=np.int64)
        t = np.array([off + scale * x for x in T], dtype=np.int64)
        keep = p.copy(), t.copy()
        a, b = mass.core.analysis_algorithms.nearest_arrivals(p, t)
        expect("delays after the last", [delay(x, scale) for x in last], [int(x) for x in a], "after_last")
        expect("delays until the next", [delay(x, scale) for x in nxt], [int(x) for x in b], "until_next")
        expect("the caller's arrays stay", True, np.array_equal(keep[0], p) and np.array_equal(keep[1], t), "argument")


# ---- histories of an analysis --------------------------------------------------------------------
class Common:
    chans = (1, 3)

    def write(self, form, times):
        """The log on disk, replaced as a whole."""
        t = np.array([self.off + self.scale * x for x in times], dtype=np.int64)
        junk = np.sort(self.off + self.scale * np.array(self.rng.sample(range(60), 4), dtype=np.int64))
        h, b = f"{self.wd}/run_external_trig.hdf5", f"{self.wd}/run_external_trigger.bin"
        for f in (h, b):
            if os.path.exists(f):
                os.unlink(f)
        if form in ("hdf5", "offsets", "both"):
            with h5py.File(self.wd + "/tmp.hdf5", "w") as f:
                f["trig_times"] = junk if form == "offsets" else t
                if form == "offsets":
                    f["trig_times_w_offsets"] = t
            os.rename(self.wd + "/tmp.hdf5", h)
        if form in ("binary", "both"):
            with open(b, "wb") as f:
                f.write(f"# external trigger subframe counts as int64 values (nrow={self.div})\n".encode() if self.header else b"# external triggers\n")
                f.write((t if form == "binary" else junk).astype("<i8").tobytes())

    def view(self, s):
        for c, d in s["obs"]["delays"]:
            for w, val in d.items():
                got = self.stored(c, w)
                expect(f"channel {c}: delays {WORD[w]} are there", val != [-1], got is not None, "there")
                if got is not None:
                    expect(f"channel {c}: delays {WORD[w]}", [delay(x, self.scale) for x in val[1]], [int(x) for x in got], WORD[w])

    def step(self, s):
        a = s["act"]
        if a == "write":
            self.write(s["form"], s["times"])
        elif a == "calc":
            try:
                self.calc(s)
                out = "ok"
            except OSError:
                out = "refused"
            expect("calculation of the delays", s["out"], out, "calc")
        elif a == "reopen":
            self.close()
            self.open()
        elif a == "mark":
            self.mark(s["c"])
        elif a == "unmark":
            self.unmark(s["c"])
        self.bad = self.bad | {s["c"]} if a == "mark" else self.bad - {s["c"]} if a == "unmark" else self.bad
        self.view(s)


class Tes(Common):
    def __init__(self, first, wd):
        self.wd, self.rng, self.bad = wd, random.Random(repr(first)), set()
        rng = self.rng
        self.scale, self.off = rng.choice([1, 7, 1000]), rng.choice([0, 0, 12345, 2**40])
        self.div, self.header = rng.choice([1, 8, 64]), True
        files = {}
        for c, p in first["pulses"]:
            files[c] = ljhfab.write22(f"{wd}/run_chan{c}.ljh", ljhfab.simple_pulses(len(p), seed=c), [self.off + self.scale * x for x in p],
                                      1_600_000_000_000_000 + 100 * np.arange(len(p)), chan=c, subdiv=self.div, suboff=rng.randrange(self.div), rows=1)
        self.files = [files[c] for c in self.chans]
        self.kw = dict(hdf5_filename=wd + "/m.hdf5", hdf5_noisefilename=wd + "/n.hdf5")
        self.open()
        self.data.summarize_data()

    def open(self):
        self.data = mass.TESGroup(self.files, **self.kw)

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if isinstance(f, h5py.File):
                f.close()

    def stored(self, c, w):
        try:
            return getattr(self.data.channel[c], f"subframes_{WORD[w]}_external_trigger" if w != "near" else "subframes_from_nearest_external_trigger")[:]
        except ValueError:
            return None

    def calc(self, s):
        self.data.calc_external_trigger_timing(**({"forceNew": s["force"]} if s["force"] or self.rng.random() < .5 else {}))
        T = s["obs"]["read"][1]
        expect_close("the trigger times in seconds", [(self.off + self.scale * x) * 1e-5 / self.div for x in T],
                     self.data.external_trigger_subframe_as_seconds, rtol=1e-9, atol=1e-12, sig="seconds")
        expect("the trigger times", [self.off + self.scale * x for x in T], [int(x) for x in self.data.external_trigger_subframe_count[:]], "times")
        for c in self.chans:
            expect_close("subframe time", 1e-5 / self.div, self.data.channel[c].subframe_timebase, rtol=1e-9, sig="timebase")

    def mark(self, c):
        self.data.set_chan_bad(c, "as told")

    def unmark(self, c):
        self.data.set_chan_good(c)

    def view(self, s):
        super().view(s)
        expect("channels excluded", sorted(self.bad), sorted(int(c) for c in self.data.why_chan_bad), "bad")


class Off(Common):
    step4 = 4

    def __init__(self, first, wd):
        self.wd, self.rng, self.bad = wd, random.Random(repr(first)), set()
        rng = self.rng
        self.div = rng.choice([4, 8, 64])
        self.scale, base = self.div // 4 * rng.choice([1, 5]), rng.choice([0, 0, 777, 2**33])
        self.off, self.header = base * self.div, rng.random() < .7
        self.frame = rng.choice([1e-5, 6.4e-6])
        form = rng.randrange(5)
        ro = dict(ColumnNum=0, RowNum=2, NumberOfColumns=1, NumberOfRows=self.div)
        if form == 1:
            ro.update(NumberOfRows=self.div + 3, SubframeDivisions=self.div, SubframeOffset=1)
        elif form == 2:
            ro.update(NumberOfRows=1, SubframeDivisions=str(self.div))
        elif form == 3:
            ro.update(NumberOfRows=str(self.div))
        P, B = ljhfab.off_model(3, 6)
        v = rng.choice(["0.1.0", "0.2.0", "0.3.0"])
        for c, p in first["pulses"]:
            rows = [dict(recordSamples=6, recordPreSamples=2, framecount=base + x * self.scale // self.div, unixnano=1_600_000_000_000_000_000 + i, coefs=[1, 2, i])
                    for i, x in enumerate(p)]
            for x in p:
                assert x * self.scale % self.div == 0
            with open(f"{wd}/run_chan{c}.off", "wb") as f:
                f.write(ljhfab.off_header(v, 3, P, B, frame=self.frame, readout=ro) + ljhfab.off_records(v, 3, rows))
        ljhfab.state_file(f"{wd}/run_experiment_state.txt", [(0, "A")])
        self.open()

    def open(self):
        self.data = mass.off.ChannelGroup([f"{self.wd}/run_chan{c}.off" for c in self.chans], verbose=False)
        for c in self.bad:
            self.data[c].markBad("as told")

    def close(self):
        self.data = None

    def chan(self, c):
        return dict.__getitem__(self.data, c)

    def stored(self, c, w):
        x = getattr(self.chan(c), f"subframes_{self.name(w)}_external_trigger", None)
        y = getattr(self.chan(c), f"seconds_{self.name(w)}_external_trigger", None)
        expect("delays in seconds are there when those in subframes are", x is None, y is None, "seconds")
        if x is not None:
            expect_close("delays in seconds", np.asarray(x, dtype=float) * (self.frame / self.div), y, rtol=1e-9, sig="seconds")
        return x

    @staticmethod
    def name(w):
        return {"last": "after_last", "next": "until_next", "near": "from_nearest"}[w]

    def calc(self, s):
        F = s["F"]
        kw = dict(after_last="last" in F, until_next="next" in F, from_nearest="near" in F)
        for k, default in (("after_last", True), ("until_next", False), ("from_nearest", False)):
            if kw[k] == default and self.rng.random() < .3:
                del kw[k]
        self.data.calcExternalTriggerTiming(**kw)

    def mark(self, c):
        if c not in self.bad:
            self.chan(c).markBad("as told")

    def unmark(self, c):
        self.chan(c).markGood()


def replay(trace, wd):
    h = (Tes if trace[0]["kind"] == "tes" else Off)(trace[0], wd)
    try:
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                h.step(s)
    finally:
        h.close()


REPLAY = {"lists": replay_lists, "tes": replay, "off": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    hs = [ctx.start_check("Trig", dict(Chans={1}, Kind=k), next="NextSmall", invs=["Inv"], props=["Frame"]) for k in ("tes", "off")]
    cases = ctx.enum("TrigSweepGen", dict(MaxP=3, MaxT=ctx.n(4, 5), MaxTime=ctx.n(4, 5)), invs=["Right", "Done"])
    ctx.replay(replay_lists, cases, "lists")
    depth = ctx.n(16, 24)
    for kind, step, label in (("tes", 1, "tes"), ("off", 4, "off")):
        traces = ctx.gen("TrigGen", dict(Chans={1, 3}, Kind=kind, Depth=depth, PStep=step, MaxTime=24, MaxLog=9), num=ctx.n(300, 4000), depth=depth + 1,
                         init="InitG", next="NextG", invs=["Inv"])
        for t in traces:
            t[0]["kind"] = kind
        ctx.replay(replay, traces, label)
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("write", "calc", "reopen", "mark", "unmark")
