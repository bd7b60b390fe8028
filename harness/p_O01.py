"""O01: OFF files are read exactly, also while they grow.  OffFile.tla."""
import os
import random
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "the writer appends; records already complete are not rewritten", "at least three bases, as the format's named coefficients need"]
T0 = 1_600_000_000_123_456_789
BASE = ["recordSamples", "recordPreSamples", "framecount", "unixnano", "pretriggerMean", "residualStdDev"]
TEXT = ["plain", "d\u00e9j\u00e0 vu \u2265 3\u03c3", "\u6e2c\u5b9a } {", "}\n{", "\U0001f52c tab\there"]


class Rig:
    def __init__(self, s, wd):
        self.rng = rng = random.Random(repr(s))
        self.s, self.wd = s, wd
        self.ver, self.nb, self.ns = s["ver"], s["nb"], s["ns"]
        self.basis, self.proj = np.array(s["basis"], dtype=float), np.array(s["proj"], dtype=float)
        self.frame = rng.choice([1e-5, 9.6e-6, 0.00128])
        self.info = dict(ColumnNum=rng.randrange(9), RowNum=2, NumberOfColumns=1, NumberOfRows=rng.choice([8, 30]))
        self.extra = {"Remark": rng.choice(TEXT), "CreationInfo": {"SourceName": rng.choice(TEXT)}}
        b64 = rng.choice([True, False]) if self.ver == "0.2.0" and rng.random() < .2 else None
        self.head = ljhfab.off_header(self.ver, self.nb, self.proj, self.basis, frame=self.frame, readout=self.info, extra=self.extra, base64=b64)
        self.path = os.path.join(wd, "run_chan7.off")
        ljhfab.state_file(os.path.join(wd, "run_experiment_state.txt"), [(0, "A"), (T0 + 60, "B")])
        self.off = self.group = None
        self.held = []

    def open(self, k, n):
        if self.s["ver"] and k and n > 0:
            self.group = mass.off.ChannelGroup([self.path], verbose=False)
            self.off = self.group[7].offFile
        else:
            off = mass.off.OffFile(self.path)
            self.group, self.off = None, off
        self.held = []

    def one(self, rec, want):
        for f in BASE + (["pretriggerDelta"] if self.ver == "0.3.0" else []):
            expect(f, T0 + want[f] if f == "unixnano" else want[f], int(rec[f]), "field")
        co = want["coefs"]
        expect("pulseMean, derivativeLike, filtValue", co[:3], [float(rec[f]) for f in ("pulseMean", "derivativeLike", "filtValue")], "coefs")
        if self.nb > 3:
            expect("extraCoefs", co[3:], [float(v) for v in rec["extraCoefs"]], "coefs")
        expect("there is no pretriggerDelta before 0.3.0", self.ver == "0.3.0", "pretriggerDelta" in rec.dtype.names, "field")

    def many(self, recs, want):
        expect("number of records", len(want), len(recs), "count")
        for r, w in zip(recs, want):
            self.one(r, w)


def replay(trace, wd):
    rig = Rig(trace[0], wd)
    for k, s in enumerate(trace):
        with at_step(k, s["act"]):
            step(rig, s)


def step(rig, s):
    a, rng, off = s["act"], rig.rng, rig.off
    if a == "start":
        return
    if a == "header":
        with open(rig.path, "wb") as f:
            f.write(rig.head)
    elif a == "append":
        rows = [dict(r, unixnano=T0 + r["unixnano"]) for r in s["rows"]]
        data = ljhfab.off_records(rig.ver, rig.nb, rows)
        expect("record size (harness)", s["R"] * len(rows), len(data))
        with open(rig.path, "ab") as f:
            f.write(data[s["size"] - s["k"]:s["size"]])
    elif a == "open":
        if s["out"] == "refused":
            with open(rig.path, "wb") as f:
                f.write(rig.head[:rng.choice([rng.randrange(len(rig.head)), len(rig.head) - 1, len(rig.head) - rng.randrange(1, 8 * rig.nb * rig.ns + 3)])])
            try:
                mass.off.OffFile(rig.path)
            except Exception:
                return
            raise Divergence("a file whose header is incomplete was opened", "refused", "opened", "open")
        rig.open(s["k"], s["n"])
        off = rig.off
        expect("projectors", rig.s["proj"], np.array(off.projectors).tolist(), "projectors")
        expect("basis", rig.s["basis"], np.array(off.basis).tolist(), "basis")
        expect("frame period", rig.frame, off.framePeriodSeconds, "header")
        expect("header", [rig.ver, rig.nb, rig.info, rig.extra["Remark"], rig.extra["CreationInfo"]],
               [off.header[k] for k in ("FileFormatVersion", "NumberOfBases", "ReadoutInfo", "Remark", "CreationInfo")], "header")
    elif a == "refresh":
        if rig.group is not None:
            rig.group.refreshFromFiles()
        else:
            off._updateMmap()
    elif a == "hold":
        rig.held.append(off[s["lo"] - 1:s["hi"]])
    elif a == "rec":
        try:
            r = off[s["i"]]
        except IndexError:
            r = None
        expect(f"record {s['i']} exists", s["ok"], r is not None, "index")
        if s["ok"]:
            rig.one(r, s["rec"])
            t, y = off.recordXY(s["i"])
            expect("modeled pulse", s["model"], [float(v) for v in y], "modeled")
            expect("modeled pulse", s["model"], [float(v) for v in off.modeledPulse(s["i"])], "modeled")
            expect_close("sample times", (np.arange(rig.ns) - s["pre"]) * rig.frame, t, rtol=1e-12, atol=0)
    elif a == "slice":
        rig.many(off[s["a"]:s["b"]:s["st"]], s["recs"])
    elif a == "all":
        w = s["recs"]
        rig.many(off[:], w)
        expect("one column", [T0 + r["unixnano"] for r in w], [int(v) for v in off["unixnano"]], "column")
        if rig.group is not None and w:
            ds = rig.group[7]
            expect("records of the channel", len(w), len(ds), "channel")
            expect("one column", [r["framecount"] for r in w], [int(v) for v in ds.getAttr("framecount", slice(None), "cutNone")], "column")
            expect("coefs", [r["coefs"] for r in w], [[float(x) for x in v] for v in ds.getAttr("coefs", slice(None), "cutNone")], "coefs")
            expect("filtValue", [r["coefs"][2] for r in w], [float(v) for v in ds.filtValue], "column")
    if s["n"] >= 0:
        expect("number of records", s["n"], len(rig.off), "count")
        expect("nRecords", s["n"], int(rig.off.nRecords), "count")
        expect("shape", (s["n"],), tuple(rig.off.shape), "count")
    for h, w in zip(rig.held, s["held"]):
        rig.many(h, w)


REPLAY = {"off": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("OffFile", dict(MaxRec=ctx.n(2, 3)), invs=["ViewOK"], props=["Exact", "Monotone"], workers=2)
    depth = ctx.n(30, 60)
    traces = ctx.gen("OffFileGen", dict(MaxRec=0, Depth=depth, NBs={3, 4, 6}, NSs={1, 4, 9}), num=ctx.n(240, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["ViewOK"])
    ctx.replay(replay, traces, "off")
    ctx.end_check(h)
    ctx.need_actions("header", "append", "open", "refresh", "hold", "rec", "slice", "all")
