"""Binding of RawFile.tla: real LJH files, their readers, the tools that copy them, and ljh2off."""
import contextlib
import io
import os
import random
import runpy
import numpy as np
import ljhfab
from vlib import expect, expect_close, at_step, Divergence

mass = None
SUB0 = 960 * 10**9
USEC0 = 1_600_000_000_000_000


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Rig:
    def __init__(self, s, wd):
        self.rng = random.Random(repr(s)[-3000:])
        self.wd, self.data = wd, [[np.array(x, dtype=np.int64) for x in d] for d in s["data"]]
        self.chans = s["chans"]
        base = self.rng.choice(["run{}", "a.b{}", "x_chan2_{}"])
        self.paths = [os.path.join(wd, f"{base.format(i)}_chan{c}.ljh") for i, c in enumerate(self.chans)]
        self.recsize, self.nS, self.ver = {}, {}, {}

    def path(self, p):
        return self.paths[p - 1]

    def samples(self, r, nS):
        return self.data[r["d"] - 1][r["xf"]][:nS]

    def sub(self, r):
        return r["a"] + SUB0 * r["big"]

    def usec(self, r):
        return r["b"] + USEC0 * r["big"]

    def snapshot(self, skip=0):
        out = {}
        for i, p in enumerate(self.paths):
            if i + 1 != skip and os.path.exists(p):
                with open(p, "rb") as f:
                    out[i + 1] = f.read()
        return out

    # ---- writing, independent of mass ----
    def create(self, p, h):
        rng = self.rng
        kw = dict(nsamp=h["nS"], npre=h["npre"], client=h["client"], timebase=rng.choice(["{:.9e}", "{:.4e}", "{!r}"]).format(h["tb"] * 1e-9), tsoff=None if h["ts"] == -1 and rng.random() < .5 else h["ts"],
                  version=rng.choice(["2.2.0", "2.2.1", "2.3.0"]) if h["ver"] == 22 else rng.choice(["2.1.0", "2.1.1", "2.0.0"]), chan=self.chans[p - 1])
        extra = []
        n, nc = max(h["rows"], 1), max(h["cols"], 1)
        for key, lab in (("rows", "Number of rows"), ("cols", "Number of columns")):
            if h[key] != -1:
                extra.append(f"{lab}: {h[key]}")
        for key, lab, m in (("row", "Row number", n), ("col", "Column number", nc)):
            if h[key] != -1:
                extra.append(rng.choice([f"{lab} (from 0-{m - 1} inclusive): {h[key]}", f"{lab}: {h[key]}"]))
        for key, lab in (("subdiv", "Subframe divisions"), ("suboff", "Subframe offset")):
            if h[key] != -1:
                extra.append(f"{lab}: {h[key]}")
        if h["source"]:
            extra.append(f"Data source: {h['source']}")
        if rng.random() < .3:
            extra.append("User text: Presamples: 3, Timebase: 7 {}")
        head = ljhfab.header(extra=extra, **kw)
        if rng.random() < .3:
            head = head.replace(b"\r\n", b"\n")
        with open(self.path(p), "wb") as f:
            f.write(head)
        self.nS[p], self.ver[p] = h["nS"], h["ver"]

    def record(self, p, d, t):
        y = self.data[d - 1][0][:self.nS[p]]
        return ljhfab.rec22(y, SUB0 + t[0], USEC0 + t[1]) if self.ver[p] == 22 else ljhfab.rec21(y, t[0], t[1])

    # ---- reading ----
    def metadata(self, f, m):
        expect("record geometry", [m["nS"], m["nPre"]], [int(f.nSamples), int(f.nPresamples)], "geometry")
        expect_close("timebase", m["tb"] * 1e-9, f.timebase, rtol=1e-12, atol=0, sig="timebase")
        expect("rows and columns", [m["rows"], m["cols"], m["row"], m["col"]],
               [int(x) for x in (f.number_of_rows, f.number_of_columns, f.row_number, f.column_number)], "rows")
        expect("sub-frame divisions and offset", [m["div"], m["off"]], [int(f.subframe_divisions), int(f.subframe_offset)], "subframe")
        expect_close("timestamp offset", m["ts"], f.timestamp_offset, sig="tsoff")
        expect("data source", m["source"], f.source, "source")
        expect_close("sample times (us)", (np.arange(m["nS"]) - m["nPre"]) * m["tb"] * 1e-3, f.sample_usec, sig="sample_usec")

    def block(self, recs, nS, inv=False):
        a = np.array([self.samples(r, nS) for r in recs], dtype=np.int64).reshape(len(recs), nS)
        return 65535 - a if inv else a

    def times(self, f, v):
        recs = v["recs"]
        expect("sub-frame counts", [self.sub(r) for r in recs], [int(x) for x in f.subframecount], "subframecount")
        expect("times (us)", [self.usec(r) for r in recs], [int(x) for x in f.datatimes_raw], "usec")
        tol = 1e-6 if v["ver"] == 22 else .51
        got = np.asarray(f.datatimes_float) * 1e6
        want = np.array([self.usec(r) for r in recs], dtype=float)
        expect_close("times (s)", want, got, rtol=0, atol=max(tol, 1.0 if want.size and want[0] > 1e12 else tol), sig="times")
        if v["ver"] == 22:
            expect("times (s), to the us", [self.usec(r) for r in recs], [int(x) for x in np.rint(got)], "times")
        else:   # the exact value: the sub-frame count times the sub-frame period
            m = v["meta"]
            expect_close("times (s)", [self.sub(r) * m["tb"] * 1e-9 / m["div"] for r in recs], f.datatimes_float, rtol=1e-12, atol=0, sig="times")

    def check(self, p, v, what=""):
        """The whole of a file as the specification has it."""
        f = mass.LJHFile.open(self.path(p))
        expect(f"{what}number of records", len(v["recs"]), int(f.nPulses), "count")
        self.metadata(f, v["meta"])
        expect("format version", v["ver"] == 22, f.version_str >= b"2.2", "version")
        expect("channel number", self.chans[p - 1], f.channum, "channum")
        if v["recs"]:
            expect(f"{what}samples", self.block(v["recs"], v["meta"]["nS"]).tolist(), np.asarray(f.alldata).astype(int).tolist(), "samples")
            self.times(f, v)
        return f

    def size(self, p, v):
        """Nothing but the header and the records is there (and the torn record, if any)."""
        with open(self.path(p), "rb") as f:
            raw = f.read()
        head = raw.index(b"#End of Header") + len(b"#End of Header")
        head += 2 if raw[head:head + 2] == b"\r\n" else 1
        expect("bytes after the header", len(v["recs"]) * ((6 if v["ver"] == 21 else 16) + 2 * v["meta"]["nS"]) + v["tail"], len(raw) - head, "size")


def refused(what, fn):
    try:
        with quiet():
            fn()
    except Exception:
        return
    raise Divergence(f"{what} was not refused", "refused", "done", "refused")


def replay(trace, wd):
    rig = Rig(trace[0], wd)
    for k, s in enumerate(trace):
        with at_step(k, s["act"]):
            step(rig, s)


def step(rig, s):
    a, rng, lm = s["act"], rig.rng, mass.core.ljh_modify
    if a == "start":
        return
    if a in ("create", "write", "tear", "erase"):
        p = s["p"]
        if a == "create":
            rig.create(p, s["h"])
        elif a == "erase":
            os.remove(rig.path(p))
        else:
            rig.nS[p], rig.ver[p] = s["f"]["meta"]["nS"], s["f"]["ver"]
            if a == "write":
                new = b"".join(rig.record(p, s["first"] + i, t) for i, t in enumerate(s["ts"]))
            else:
                full = rig.record(p, 1, [7, 7])
                t = s["f"]["tail"]
                new = full[t - s["k"]:t]
            with open(rig.path(p), "ab") as f:
                f.write(new)
            if rng.random() < .2:
                rig.check(p, s["f"])
        return
    if a == "read":
        return read(rig, s)
    if a == "convert":
        return convert(rig, s)
    # ---- tools ----
    d = s["d"]
    before = rig.snapshot(skip=0 if s["out"] == "refused" else d)
    P = rig.path
    arg = (lambda p: p) if rng.random() < .8 else (lambda p: os.path.relpath(p))
    if a == "copy":
        call = lambda: lm.ljh_copy_traces(arg(P(s["s"])), arg(P(d)), pulses(rng, s["sel"]), **({"overwrite": s["ow"]} if s["ow"] or rng.random() < .5 else {}))
    elif a == "append":
        call = lambda: lm.ljh_append_traces(arg(P(s["s"])), arg(P(d)), *([] if s["all"] and rng.random() < .7 else [pulses(rng, s["sel"])]))
    elif a == "trunc":
        call = lambda: lm.ljh_truncate(arg(P(s["s"])), arg(P(d)), n_pulses=s["n"], **({} if s["seg"] == 0 else {"segmentsize": 100 * s["seg"]}))
    elif a == "trunctime":
        call = lambda: lm.ljh_truncate(arg(P(s["s"])), arg(P(d)), timestamp=rig.usec(s["t"]) / 1e6)
    elif a == "modify":
        cb = [lm.dummy_callback, lm.callback_invert, lm.callback_shift(7)][s["x"]]
        call = lambda: lm.LJHModify(P(s["s"]), P(d), cb, **({"overwrite": s["ow"]} if s["ow"] or rng.random() < .5 else {}))
    elif a == "merge":
        tool = runpy.run_path(os.path.join(mass_root(), "bin", "ljh_merge"), run_name="ljh_merge")
        call = lambda: tool["merge"](P(d), [P(p) for p in s["l"]], s["force"])
    if s["out"] == "ok":
        with quiet():
            call()
        if s["f"]["ex"]:
            rig.check(d, s["f"], "output: ")
            rig.size(d, s["f"])
    elif s["out"] == "refused":
        refused(a, call)
    else:
        refused(a, call)
        if os.path.exists(P(d)):
            os.remove(P(d))
    after = rig.snapshot(skip=0 if s["out"] == "refused" else d)
    expect("files other than the output", sorted(before), sorted(after), "others")
    for p in before:
        if before[p] != after[p]:
            raise Divergence(f"file {p} was changed", len(before[p]), len(after[p]), "others")


def mass_root():
    return os.path.dirname(os.path.dirname(os.path.abspath(mass.__file__)))


def pulses(rng, sel):
    z = [i - 1 for i in sel]
    return rng.choice([z, tuple(z), np.array(z, dtype=int), iter(z)])


def read(rig, s):
    p, v, inv, rng = s["p"], s["cur"], s["inv"], rig.rng
    f = rig.check(p, v)
    recs, nS = v["recs"], v["meta"]["nS"]
    want = rig.block(recs, nS, inv)
    f.set_segment_size(s["seg"])
    expect("segments", [s["nseg"], s["persec"]], [int(f.n_segments), int(f.pulses_per_seg)], "segments")
    expect("bytes per segment", s["persec"] * f.pulse_size_bytes, f.segmentsize, "segments")
    if s["seg"] < 10**6:
        refused("a segment smaller than a record", lambda: f.set_segment_size(f.pulse_size_bytes - 1))
    f.invert_data = inv
    if rng.random() < .3:
        f = f.copy()
        expect("polarity of a copy", inv, f.invert_data, "invert")
    if not recs:
        return
    expect("all samples", want.tolist(), np.asarray(f.alldata).astype(int).tolist(), "samples")
    covered = []
    for k in range(f.n_segments):
        covered += np.asarray(f[k * f.pulses_per_seg:(k + 1) * f.pulses_per_seg]).astype(int).tolist()
    expect("samples by segment", want.tolist(), covered, "samples")
    for i, r in enumerate(recs):
        expect(f"trace {i}", want[i].tolist(), np.asarray(f.read_trace(i)).astype(int).tolist(), "trace")
        sub, us, y = f.read_trace_with_timing(i)
        expect(f"trace {i} with timing", [rig.sub(r), rig.usec(r), want[i].tolist()], [int(sub), int(us), np.asarray(y).astype(int).tolist()], "timing")
    lo, hi, st = rng.randrange(-2, len(recs) + 1), rng.randrange(len(recs) + 3), rng.randrange(1, 4)
    expect("a slice", want[lo:hi:st].tolist(), np.asarray(f[lo:hi:st]).astype(int).tolist(), "slice")
    z = rng.randrange(nS)
    expect("a column", want[:, z].tolist(), np.asarray(f[:, z]).astype(int).tolist(), "slice")
    if s["way"] in (0, 1):
        pr = mass.core.channel.PulseRecords(rig.path(p))
        expect("as pulse records", [len(recs), nS, v["meta"]["nPre"], v["meta"]["div"], v["meta"]["off"]], [int(x) for x in (pr.nPulses, pr.nSamples, pr.nPresamples, pr.subframe_divisions, pr.subframe_offset)], "records")
        pr.set_segment_size(s["seg"])
        expect("segments of the records", [s["nseg"], s["persec"]], [int(pr.n_segments), int(pr.pulses_per_seg)], "segments")
    elif s["way"] in (2, 3) and v["meta"]["nPre"] <= nS:
        h5 = os.path.join(rig.wd, "g.hdf5")
        if os.path.exists(h5):
            os.remove(h5)
        data = mass.TESGroup([rig.path(p)], hdf5_filename=h5, invert_data=inv)
        ds = data.channel[rig.chans[p - 1]]
        expect("as a channel", [len(recs), nS, v["meta"]["nPre"]], [int(ds.nPulses), int(ds.nSamples), int(ds.nPresamples)], "channel")
        expect("as a group", [len(recs), nS, v["meta"]["nPre"]], [int(data.nPulses), int(data.nSamples), int(data.nPresamples)], "channel")
        expect("samples of the channel", want.tolist(), np.asarray(rng.choice([lambda: ds.data[:], lambda: ds.alldata])()).astype(int).tolist(), "channel")
        rig.times(type("T", (), dict(subframecount=ds.subframecount, datatimes_raw=f.datatimes_raw, datatimes_float=ds.times)), v)
        i = rng.randrange(len(recs))
        expect("a trace of the channel", want[i].tolist(), np.asarray(ds.read_trace(i)).astype(int).tolist(), "channel")
        expect("a trace of the group", want[i].tolist(), np.asarray(data.read_trace(i, channum=rig.chans[p - 1])).astype(int).tolist(), "channel")
        data.set_segment_size(s["seg"])
        expect("segments of the group", [s["nseg"], s["persec"]], [int(data.n_segments), int(data.pulses_per_seg)], "segments")
        expect("segment of a sample", [i // s["persec"] for i in range(len(recs))], [int(data.sample2segnum(i)) for i in range(len(recs))], "segments")
        inv2 = not inv
        ds.invert_data = inv2
        expect("samples, polarity switched", rig.block(recs, nS, inv2).tolist(), np.asarray(rng.choice([lambda: ds.data[:], lambda: ds.alldata])()).astype(int).tolist(), "channel")
        for h in (data.hdf5_file, data.hdf5_noisefile):
            if h is not None:
                h.close()
    elif s["way"] == 4:
        nr = mass.core.channel.NoiseRecords(rig.path(p))
        expect("as noise records", rig.block(recs, nS).tolist(), np.asarray(nr.data).astype(int).tolist(), "noise")
        expect("as noise records", [len(recs), nS], [int(nr.datafile.nPulses), int(nr.datafile.nSamples)], "noise")


def convert(rig, s):
    rng, meta, w = rig.rng, s["meta"], s["recs"]
    rep = 1
    paths = [rig.path(p) for p in s["l"]]
    P, B = np.array(s["proj"]), np.array(s["basis"])
    nS, npre, ign = meta["nS"], meta["nPre"], s["ign"]
    # the same records, each sample repeated: large records are converted in several portions
    if s["rep"] == 0 and 5 < len(w) < 16:
        rep = 200000 // nS
        big = []
        for k, (p, m) in enumerate(zip(s["l"], s["metas"])):
            q = os.path.join(rig.wd, f"big{k}_chan{rig.chans[p - 1]}.ljh")
            recs = s["files"][k]["recs"]
            ljhfab.write22(q, [np.repeat(rig.samples(r, nS), rep) for r in recs], [rig.sub(r) for r in recs], [rig.usec(r) for r in recs],
                           nsamp=nS * rep, npre=m["nPre"] * rep, timebase=repr(m["tb"] * 1e-9), subdiv=m["div"], suboff=m["off"], rows=m["rows"], cols=m["cols"], row=m["row"], col=m["col"])
            big.append(q)
        paths = big
        Pr = np.zeros((len(P), nS * rep))
        Pr[:, ::rep] = P
        P, B = Pr, np.repeat(B, rep, axis=0)
    kind = rng.choice([np.float64, np.float64, np.float64, np.float32, np.int64])
    P, B = P.astype(kind), B.astype(kind)
    if rng.random() < .3:
        P, B = np.asfortranarray(P), np.asfortranarray(B)
    out = os.path.join(rig.wd, f"out_chan{rng.randrange(9)}.off")
    if os.path.exists(out):
        os.remove(out)
    before = rig.snapshot()
    ver = s["ver"]
    args = [] if ver == "0.3.0" and rng.random() < .5 else [ver]
    with quiet():
        if len(paths) == 1 and rng.random() < .7:
            mass.ljh2off.ljh2off(paths[0], out, P, B, ign * rep, "model.hdf5", *args)
        else:
            mass.ljh2off.multi_ljh2off(paths, out, P, B, ign * rep, "model.hdf5", *args)
    if before != rig.snapshot():
        raise Divergence("a source file was changed by the conversion", sig="source")
    verify_off(out, s, rig, rep, P, B, ver)
    os.remove(out)
    if rep > 1:
        for q in paths:
            os.remove(q)


def verify_off(path, s, rig, rep, P, B, ver, dt=None):
    meta, w = s["meta"], s["recs"]
    nS, nb = meta["nS"] * rep, s["nb"]
    off = mass.off.OffFile(path)
    expect("number of records", len(w), int(off.nRecords), "count")
    expect("version", ver, off.header["FileFormatVersion"], "header")
    expect_close("frame period", meta["tb"] * 1e-9, off.framePeriodSeconds, rtol=1e-12, atol=0, sig="header")
    ri = off.header["ReadoutInfo"]
    expect("rows and columns", [meta["rows"], meta["cols"], meta["row"]], [ri["NumberOfRows"], ri["NumberOfColumns"], ri["RowNum"]], "header")
    expect("column", meta["col"], ri.get("ColumnsNum", ri.get("ColumnNum")), "header")
    expect("subframes per frame", meta["div"], int(ri.get("SubframeDivisions", ri["NumberOfRows"])), "header")
    expect("projectors", np.asarray(P, dtype=float).tolist(), np.array(off.projectors).tolist(), "projectors")
    expect("basis", np.asarray(B, dtype=float).tolist(), np.array(off.basis).tolist(), "basis")
    if not w:
        return
    npre = [m["nPre"] * rep for m, n in zip(s["metas"], s["lens"]) for _ in range(n)]
    expect("record lengths", [nS] * len(w), [int(x) for x in off["recordSamples"]], "geometry")
    expect("presamples", npre, [int(x) for x in off["recordPreSamples"]], "geometry")
    expect("frame counts", [r["frame"] + SUB0 * r["big"] // m["div"] for r, m in zip(w, (m for m, n in zip(s["metas"], s["lens"]) for _ in range(n)))], [int(x) for x in off["framecount"]], "framecount")
    expect("times (ns)", [1000 * (r["us"] + USEC0 * r["big"]) for r in w], [int(x) for x in off["unixnano"]], "unixnano")
    co = off._mmap_with_coefs["coefs"] if hasattr(off, "_mmap_with_coefs") else None
    first = np.array([off["pulseMean"], off["derivativeLike"], off["filtValue"]]).T
    expect_close("coefficients", [r["coefs"][:3] for r in w], first, rtol=1e-6, atol=1e-4, sig="coefs")
    if nb > 3:
        expect_close("other coefficients", [r["coefs"][3:] for r in w], off["extraCoefs"], rtol=1e-6, atol=1e-4, sig="coefs")
    expect_close("residual spread", [r["var"] ** .5 / meta["nS"] for r in w], off["residualStdDev"], rtol=1e-5, atol=1e-5, sig="residual")
    expect_close("pretrigger mean", [r["mean"] / r["np"] for r in w], off["pretriggerMean"], rtol=1e-6, atol=1e-5, sig="mean")
    if ver == "0.3.0":
        if rep == 1:
            expect_close("pretrigger change", [r["delta"] / (r["np"] * (r["np"] + 1)) for r in w], off["pretriggerDelta"], rtol=1e-5, atol=1e-4, sig="delta")
    else:
        expect("no pretrigger change before 0.3.0", False, "pretriggerDelta" in off.dtype.names, "delta")
