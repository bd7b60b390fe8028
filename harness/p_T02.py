"""T02: flux jumps.  FluxJump.tla; recorded corrections are checked by FluxTrace.tla, histories of FluxGen.tla are replayed."""
import itertools
import os
import random
import h5py
import numpy as np
import ljhfab
from vlib import expect, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "at least one pulse is good", "good pulses' baselines lie within less than a quarter of a quantum"]
Q = 16


def record(v, g, rng, q):
    """One correction, in units of the specification."""
    sc, off = rng.choice([1, 1, 256, .5, 100.25, .1]), rng.choice([0, 0, 3, 1000.5])
    dt = rng.choice([np.float64, np.float64, np.float32, np.int64])
    x = off + sc * np.array(v, dtype=float)
    if dt is np.int64 and (sc != int(sc) or off != int(off)):
        dt = np.float64
    x = x.astype(dt)
    mask = np.isin(np.arange(1, len(v) + 1), g)
    keep, kmask = x.copy(), mask.copy()
    quant = q * sc
    if float(quant).is_integer() and rng.random() < .5:
        quant = int(quant)
    try:
        r = np.asarray(mass.core.analysis_algorithms.correct_flux_jumps(x, mask, quant), dtype=float)
    except Exception as e:
        raise Divergence("correct_flux_jumps failed", "a correction", f"{type(e).__name__}: {e}", "raise") from e
    expect("the caller's data stay", True, np.array_equal(keep, x) and np.array_equal(mask, kmask), "argument")
    # a wrong length, or a shift that is not whole, is shown to the specification as such
    u = (r - off) / sc
    k = np.round(u)
    if len(k) != len(v) or not np.all(np.isfinite(u)):
        return dict(act="call", v=list(v), g=list(g), res=[])
    res = [int(a) if abs(a - b) < (2e-3 if dt is np.float32 else 1e-6) else v[i] + 1 for i, (a, b) in enumerate(zip(k, u))]
    return dict(act="call", v=[int(a) for a in v], g=list(g), res=res)


def recordings(ctx):
    rng = random.Random(ctx.seed)
    small = []
    q = 8
    for n in (1, 2, 3):
        top = q * (2 if n == 3 and ctx.quick else 3)
        for v in itertools.product(range(top), repeat=n):
            gs = [g for k in range(1, n + 1) for g in itertools.combinations(range(1, n + 1), k)]
            for g in (gs if n < 3 or not ctx.quick else [gs[rng.randrange(len(gs))], gs[-1]]):
                small.append((v, g))
    big = []
    for _ in range(ctx.n(3000, 40000)):
        n = rng.choice([2, 3, 5, 10, 40])
        b, width = rng.randrange(3 * Q), rng.choice([1, 2, Q // 4, Q // 4, Q])
        v = [b + rng.randrange(width) + Q * rng.choice([0, 0, 0, 1, 1, 2, 5, -2]) + 2 * Q for _ in range(n)]
        g = [i for i in range(1, n + 1) if rng.random() < .8] or [1]
        for i in range(1, n + 1):
            if i not in g:
                v[i - 1] += rng.randrange(3 * Q)
        big.append((v, g))
    return small, big


class Rig:
    chans = (1, 3)

    def __init__(self, first, wd):
        self.wd, self.rng = wd, random.Random(repr(first))
        self.sc, self.off = self.rng.choice([1, 256, 2.5]), self.rng.choice([0, 128])
        n = len(first["obs"]["v"][0][1])
        self.files = ljhfab.make_group_files(wd, list(self.chans), n)[0]
        self.kw = dict(hdf5_filename=wd + "/m.hdf5", hdf5_noisefilename=wd + "/n.hdf5")
        self.open()
        self.data.summarize_data()
        self.data.register_boolean_cut_fields("told")
        self.vals, self.orig = {}, {}
        for (c, v), (_, g) in zip(first["obs"]["v"], first["obs"]["g"]):
            self.vals[c] = self.off + self.sc * np.array(v, dtype=np.float32)
            self.data.channel[c].p_pretrig_mean[:] = self.vals[c]
            self.cut(c, g)

    def open(self):
        self.data = mass.TESGroup(self.files, **self.kw)

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if isinstance(f, h5py.File):
                f.close()

    def cut(self, c, g):
        self.data.channel[c].cuts.cut("told", ~np.isin(np.arange(1, len(self.vals[c]) + 1), g))

    def step(self, s):
        a = s["act"]
        if a == "slip":
            self.vals[s["c"]][s["k"] - 1:] += s["d"] * Q * self.sc
            self.data.channel[s["c"]].p_pretrig_mean[:] = self.vals[s["c"]]
        elif a == "cut":
            self.cut(s["c"], dict(s["obs"]["g"])[s["c"]])
        elif a == "correct":
            off = set(s["obs"]["off"])
            before = {c: self.data.channel[c].p_pretrig_mean[:] for c in self.chans}
            one = self.rng.random() < .3
            if one:
                for c in self.chans:
                    if c not in off:
                        self.data.channel[c].correct_flux_jumps(Q * self.sc)
            else:
                self.data.correct_flux_jumps(Q * self.sc)
            for c in self.chans:
                if c not in off:
                    expect("the values before the correction are kept", before[c].tolist(), np.asarray(self.data.channel[c].p_pretrig_mean_orig).tolist(), "orig")
        elif a == "reopen":
            self.close()
            self.open()
        elif a == "mark":
            self.data.set_chan_bad(s["c"], "as told")
        elif a == "unmark":
            self.data.set_chan_good(s["c"])
        self.view(s)

    def view(self, s):
        o = s["obs"]
        expect("channels excluded", sorted(o["off"]), sorted(int(c) for c in self.data.why_chan_bad), "bad")
        g = dict(o["g"])
        for c, v in o["v"]:
            ds = self.data.channel[c]
            expect("good pulses", g[c], [int(i) + 1 for i in np.nonzero(ds.good())[0]], "good")
            x = ds.p_pretrig_mean[:]
            u = (x.astype(float) - self.off) / self.sc
            good = np.array(g[c]) - 1
            expect(f"channel {c}: values of good pulses", [v[i] for i in good], np.round(u[good], 3).tolist(), "values")
            d = (u - np.array(v)) / Q
            expect(f"channel {c}: other values, up to whole quanta", True, bool(np.all(np.abs(d - np.round(d)) < 1e-3)), "whole")
            self.vals[c] = x
            if s["act"] not in ("correct", "slip"):
                expect(f"channel {c}: nothing moved", self.last[c].tolist(), x.tolist(), "moved")
        self.last = {c: self.vals[c].copy() for c, _ in o["v"]}


def replay(trace, wd):
    r = Rig(trace[0], wd)
    try:
        r.last = {c: x.copy() for c, x in r.vals.items()}
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


def replay_calls(trace, wd):
    """A recorded trace again (for `main.py replay`): the calls are repeated and shown."""
    for i, e in enumerate(trace):
        with at_step(i, "call"):
            again = record(e["v"], e["g"], random.Random(0), Q)
            expect("recorded result", e["res"], again["res"])


REPLAY = {"history": replay, "": replay_calls}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("FluxJump", dict(Q=8, MaxN=3, MaxJump=ctx.n(2, 3)), invs=["FoldLegal", "FoldSettles", "Idempotent"])
    small, big = recordings(ctx)
    rng = random.Random(ctx.seed + 1)
    for q, cases, name in ((8, small, "small"), (Q, big, "big")):
        evs = []
        for v, g in cases:
            try:
                evs.append(record(v, g, rng, q))
            except Divergence as e:
                ctx.violations.append(dict(kind="call", what=e.what, expected=e.expected, observed=e.observed, sig=e.sig, trace=[dict(act="call", v=list(v), g=list(g), res=[])], step=0))
                break
        else:
            ctx.validate("FluxTrace", [evs[i:i + 250] for i in range(0, len(evs), 250)], dict(Q=q, MaxN=1, MaxJump=1), init="InitT", next="NextT", name=name)
    depth = ctx.n(18, 30)
    traces = ctx.gen("FluxGen", dict(Q=Q, MaxN=1, MaxJump=1, Chans={1, 3}, Depth=depth), num=ctx.n(300, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["StillOne"])
    ctx.replay(replay, traces, "history")
    ctx.end_check(h)
    ctx.need_actions("call", "slip", "cut", "correct", "reopen", "mark", "unmark")
