"""O03: experiment states.  ExpStates.tla."""
import os
import random
import numpy as np
import h5py
import ljhfab
from vlib import expect, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "state marks and record times are logged in non-decreasing order", "log lines are written whole"]
T0 = 1_600_000_000_123_456_789


class Rig:
    def __init__(self, trace, wd):
        self.rng = random.Random(repr(trace[0]) + str(len(trace)))
        self.wd = wd
        self.scale = self.rng.choice([1, 1, 7, 1000, 1_000_000, 999_999_937])
        self.version = self.rng.choice(["0.1.0", "0.2.0", "0.3.0"])
        self.nb = 3
        self.data = None
        self.times = {}
        self.inc = {}
        self.sent = 0

    def ns(self, t):
        return T0 + t * self.scale

    def path(self, c):
        return os.path.join(self.wd, f"run_chan{c}.off")

    @property
    def logname(self):
        return os.path.join(self.wd, "run_experiment_state.txt")

    def excl(self, e):
        return "auto" if e == ["auto"] else list(e)

    def write(self, s):
        self.excludes = self.excl(s["excl"])
        ljhfab.state_file(self.logname, [(self.ns(m["t"]), m["l"]) for m in s["log"]])
        P, B = ljhfab.off_model(self.nb, 6)
        for c, ts in s["recs"]:
            with open(self.path(c), "wb") as f:
                f.write(ljhfab.off_header(self.version, self.nb, P, B))
            self.times[c] = []
            self.add(c, ts)
        files = [self.path(c) for c in sorted(self.times)]
        if self.rng.random() < .5:
            self.data = mass.off.ChannelGroup(files, verbose=False, excludeStates=self.excludes)
        else:
            esf = mass.off.ExperimentStateFile(self.logname, excludeStates=self.excludes)
            self.data = mass.off.ChannelGroup(files, verbose=False, experimentStateFile=esf)
        self.other = {c: mass.off.ExperimentStateFile(datasetFilename=self.path(c), excludeStates=self.excludes) for c in self.times}

    def add(self, c, ts):
        rows = [dict(recordSamples=6, recordPreSamples=2, framecount=i, unixnano=self.ns(t), coefs=[1, 2, 3], pretriggerMean=i)
                for i, t in enumerate(ts, len(self.times[c]))]
        with open(self.path(c), "ab") as f:
            f.write(ljhfab.off_records(self.version, self.nb, rows))
        self.times[c] += ts


def indices(slices):
    return [i for s in (slices if isinstance(slices, list) else [slices]) for i in range(s.start, s.stop)]


def rename(x, table):
    """The same behaviour with other label texts."""
    if isinstance(x, str):
        return table.get(x, x)
    if isinstance(x, list):
        return [rename(y, table) for y in x]
    if isinstance(x, dict):
        return {k: v if k == "act" else rename(v, table) for k, v in x.items()}
    return x


def replay(trace, wd):
    r = Rig(trace, wd)
    if r.rng.random() < .5:     # labels are any text
        trace = rename(trace, {"B": r.rng.choice(["Fe K\u03b1", "\u00e9\u00e9tat 2", "B" * 60, "b#1"])})
    for i, s in enumerate(trace):
        with at_step(i, s["act"]):
            step(r, s)
    if r.rng.random() < .25 and trace[-1]["obs"]["labels"]:
        with at_step(len(trace) - 1, "ljh"):
            tesgroup(r, trace)


def step(r, s):
    a = s["act"]
    if a == "write":
        r.write(s)
        return
    if a == "alias":
        arg = s["S"] if s["k"] == 0 or len(s["S"]) > 1 else s["S"][0]
        for esf in [r.data.experimentStateFile] + list(r.other.values()):
            esf.aliasState(arg, s["a"])
        return
    if a == "mark":
        with open(r.logname, "a", encoding="utf-8") as f:
            f.write(f"{r.ns(s['t'])}, {s['l']}\n")
        return    # nothing is seen before the next refresh
    if a == "records":
        r.add(s["c"], s["ts"])
        return
    o = s["obs"]
    old = {c: len(r.data[c]) for c in r.times}
    if a == "refresh":
        _, counts = r.data.refreshFromFiles()
        expect("new records reported", {c: n - old[c] for c, n in o["nrec"] if c not in o["bad"]}, {int(c): int(n) for c, n in counts.items()}, "refresh")
    elif a == "markbad":
        r.data[s["c"]].markBad("x")
    elif a == "markgood":
        r.data[s["c"]].markGood()
    observe(r, s, o, first=a == "open")


def observe(r, s, o, first):
    data = r.data
    expect("labels", o["labels"], list(data.stateLabels), "labels")
    nrec = dict(map(tuple, o["nrec"]))
    view = {c: dict((L, ix) for L, ix in v) for c, v in o["view"]}
    for c in o["fresh"]:
        ds = data[c]
        expect(f"channel {c}: number of records", nrec[c], len(ds), "count")
        expect(f"channel {c}: states present", sorted(o["labels"]), sorted(ds.statesDict.keys()), "states")
        for L in o["labels"]:
            want = [i - 1 for i in view[c][L]]
            expect(f"channel {c}: records in state {L}", want, indices(ds.getStatesIndicies(L)), "records")
            got = ds.getAttr("unixnano", L)
            expect(f"channel {c}: times in state {L}", [r.ns(r.times[c][i]) for i in want], [int(x) for x in got], "times")
        if o["labels"]:
            two = [r.rng.choice(o["labels"]) for _ in range(2)]
            expect(f"channel {c}: records in states {two}", [float(i - 1) for L in two for i in view[c][L]],
                   [float(x) for x in ds.getAttr("pretriggerMean", two)], "two")
    # the same computed from what is new only, by another reader of the log
    if s["act"] not in ("open", "refresh"):
        return
    for c in nrec:
        if c in o["bad"]:
            continue
        esf = r.other[c]
        d, k0, n0 = r.inc.get(c, (None, 0, 0))
        if not first:
            esf.parse()
        new = np.array([r.ns(t) for t in r.times[c][n0:nrec[c]]], dtype=np.int64)
        d = esf.calcStatesDict(new, d, k0, n0) if not first else esf.calcStatesDict(new)
        r.inc[c] = (d, len(esf.allLabels), nrec[c])
        if c in o["late"] or r.excludes == "auto" and not first:
            continue
        expect(f"channel {c}: labels read", o["labels"], list(esf.labels), "inc labels")
        for L in o["labels"]:
            expect(f"channel {c}: records in state {L}, updated incrementally", [i - 1 for i in view[c][L]], indices(d[L]), "incremental")


def tesgroup(r, trace):
    """The same log and records as raw pulse files: the state of every pulse is its category in the field 'state'."""
    o = trace[-1]["obs"]
    os.makedirs(r.wd + "/ljh")
    base = 1_600_000_000_123_456
    log = [m for s in trace if s["act"] == "write" for m in s["log"]] + [s for s in trace if s["act"] == "mark"]
    recs = {c: list(ts) for c, ts in trace[0]["recs"]}
    for s in trace:
        if s["act"] == "records":
            recs[s["c"]] += s["ts"]
    # replay ends with an unread tail; judge the last refresh
    nlog_view = {c: dict((l, ix) for l, ix in v) for c, v in o["rawview"]}
    k = 0
    nl = len(trace[0]["log"])
    seen = nl
    for s in trace[1:]:
        if s["act"] == "mark":
            nl += 1
        elif s["act"] in ("refresh", "open"):
            seen = nl
    log = log[:seen]
    ljhfab.state_file(r.wd + "/ljh/run_experiment_state.txt", [((base + m["t"]) * 1000, m["l"]) for m in log])
    nrec = dict(map(tuple, o["nrec"]))
    files = []
    for c in sorted(recs):
        n = nrec[c]
        d = ljhfab.simple_pulses(n, 20, 8, seed=c)
        files.append(ljhfab.write22(f"{r.wd}/ljh/run_chan{c}.ljh", d, [100 * (i + 1) for i in range(n)], [base + t for t in recs[c][:n]], npre=8, chan=c))
    data = mass.TESGroup(files, excludeStates=r.excludes)
    try:
        data.summarize_data()
        for c in sorted(recs):
            ds = data.channel[c]
            assert not data._bad_channums, data._bad_channums
            for l in o["raw"]:
                want = [i - 1 for i in nlog_view[c][l]]
                expect(f"pulses of channel {c} in state {l}", want, np.nonzero(ds.good(state=l))[0].tolist(), "ljh states")
            none = sorted(set(range(nrec[c])) - {i - 1 for l in o["raw"] for i in nlog_view[c][l]})
            expect(f"pulses of channel {c} in no state", none, np.nonzero(ds.good(state="uncategorized"))[0].tolist(), "ljh states")
    finally:
        data.hdf5_file.close()


REPLAY = {"states": replay}
LABELS = {"A", "B", "C 1", "IGNORE", "START", "END"}


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(Chans={1}, Labels={"A", "START", "IGNORE"}, MaxT=2, MaxLog=ctx.n(2, 3), MaxRec=ctx.n(2, 3))
    hs = [ctx.start_check("ExpStates", dict(small, Excl=e), invs=["Inv"], next="NextSmall", workers=2) for e in ({"auto"}, {"START"})]
    traces = []
    depth = ctx.n(22, 40)
    for e, w in (({"auto"}, 1), ({"START", "END"}, 1), (set(), 1)):
        traces += ctx.gen("ExpStatesGen", dict(Chans={1, 4}, Labels=LABELS, MaxT=0, MaxLog=0, MaxRec=0, Excl=e, Depth=depth),
                          num=ctx.n(60, 1500), depth=depth + 1, init="InitG", next="NextG", procs=2)
    ctx.replay(replay, traces, "states")
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("open", "alias", "mark", "records", "refresh", "markbad", "markgood")
