"""K01: crosstalk flags and nearest neighbours.  Crosstalk.tla; histories of CrosstalkGen.tla are replayed into TESGroup."""
import random
import h5py
import numpy as np
import ljhfab
from vlib import Raw, expect, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "windows end halfway between two possible arrival times, so that no arrival is at the very edge"]
CHANS, ELSEWHERE, CATS, KEYS = (1, 3, 5, 7), (9, 12), ("physical", "frequency", "line"), ("is_crosstalking", "fast")


class Rig:
    def __init__(self, first, wd, rng):
        self.wd, self.rng, self.maps = wd, rng, 0
        arr = {c: list(v) for c, v in first["arr"]}
        self.u = rng.choice([1, 3, 64, 1000, 70001])                    # subframe counts of one unit of time
        self.base = rng.choice([0, 1000, 2 ** 33])
        kw = dict(nsamp=16, npre=4, timebase="0.0009765625", subdiv=64, rows=8, cols=1, row=0, col=0)
        self.order = rng.choice([CHANS, CHANS[::-1]])
        self.files = []
        for c in self.order:
            n = len(arr[c])
            recs = [np.full(16, 1000 + i, dtype=np.uint16) for i in range(n)]
            subs = self.base + self.u * np.array(arr[c])
            self.files.append(ljhfab.write22(f"{wd}/run_chan{c}.ljh", recs, subs, 1_600_000_000_000_000 + 10_000 * np.arange(n), chan=c, **kw))
        self.open()
        self.data.summarize_data()

    def open(self):
        self.data = mass.TESGroup(self.files, hdf5_filename=self.wd + "/m.hdf5")

    def close(self):
        f = self.data.hdf5_file
        if isinstance(f, h5py.File):
            f.close()

    def who(self, scope):
        return self.data if scope == 0 else self.data.channel[scope]

    def mapfile(self, m):
        self.maps += 1
        name = f"{self.wd}/map{self.maps}.txt"
        rows = [[c] + [int(x) for x in p] for c, p in m]
        self.rng.shuffle(rows)
        shift = [self.rng.choice([0, 0, 5, -3]) for _ in rows[0][1:]]
        with open(name, "w") as f:
            if self.rng.random() < .5:
                f.write("# channel and place\n")
            for r in rows:
                f.write(" ".join(str(x) for x in [r[0]] + [a + b for a, b in zip(r[1:], shift)]) + "\n")
        return name

    def step(self, s):
        a, rng = s["act"], self.rng
        if a == "set":
            kw = dict(forceNew=s["force"]) if s["force"] or rng.random() < .5 else {}
            if s["cat"] != "physical" or rng.random() < .5:
                kw["nearestNeighborCategory"] = s["cat"]
            self.who(s["scope"]).set_nearest_neighbors_list(self.mapfile(s["map"]), **kw)
        elif a == "flag":
            sub = self.data.channel[CHANS[0]].subframe_timebase
            prior, post = ((s[k] + .5) * self.u * sub * 1e3 for k in ("prior", "post"))
            d = sorted(s["dists"])
            d = d[0] if len(d) == 1 and rng.random() < .7 else rng.choice([list, tuple, np.array])(d)
            kw = dict(forceNew=s["force"]) if s["force"] or rng.random() < .5 else {}
            if not s["comb"] or rng.random() < .5:
                kw["combineCategories"] = s["comb"]
            if s["key"] != KEYS[0] or rng.random() < .5:
                kw["crosstalk_key"] = s["key"]
            if s["dists"] != [1] or rng.random() < .5:
                kw["nearestNeighborsDistances"] = d
            self.who(s["scope"]).flag_crosstalking_pulses(prior, post, **kw)
        elif a == "bad":
            self.data.set_chan_bad(s["c"], "tested")
        elif a == "good":
            self.data.set_chan_good(s["c"])
        elif a == "reopen":
            self.close()
            self.open()
            for c in self.bad:                                             # (remembered in files only for good)
                if c not in self.data.why_chan_bad:
                    self.data.set_chan_bad(c, "was bad")
        self.view(s["obs"])

    def view(self, o):
        self.bad = o["bad"]
        expect("channels excluded", sorted(o["bad"]), sorted(int(c) for c in self.data.why_chan_bad), "bad")
        for c, fields in o["flags"]:
            ds = self.data.channel[c]
            g = ds.hdf5_group
            have = sorted(g["crosstalk_flags"]) if "crosstalk_flags" in g else []
            expect(f"flags of channel {c}", sorted(f for f, _ in fields), have, "fields")
            for f, hit in fields:
                x = g["crosstalk_flags"][f]
                expect(f"type of the flags {f} of channel {c}", "bool", str(x.dtype), "dtype")
                expect(f"pulses of channel {c} flagged by {f}", sorted(hit), (1 + np.nonzero(x[:])[0]).tolist(), "flags")
        for c, cats in o["nn"]:
            g = self.data.channel[c].hdf5_group
            have = sorted(g["nearest_neighbors"]) if "nearest_neighbors" in g else []
            expect(f"categories of neighbours of channel {c}", sorted(k for k, _ in cats), have, "categories")
            for k, nb in cats:
                x = g["nearest_neighbors"][k]["neighbors_list"][:]
                want = sorted([n["ch"], n["sq"], n["rank"]] for n in nb)
                if want:
                    expect(f"neighbours of channel {c} ({k})", want, sorted(x.tolist()), "neighbours")
                else:
                    expect(f"neighbours of channel {c}, not on the map ({k})", False, bool(np.any(x)), "neighbours")


def replay(trace, wd):
    r = Rig(trace[0], wd, random.Random(repr(trace[0])))
    try:
        r.view(trace[0]["obs"])
        for i, s in enumerate(trace[1:]):
            with at_step(i + 1, s["act"]):
                r.step(s)
    finally:
        r.close()


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    small = Raw("{(1 :> <<0>> @@ 2 :> <<1>>), (1 :> <<0, 0>> @@ 2 :> <<1, 1>> @@ 9 :> <<0, 1>>)}")
    h = ctx.start_check("Crosstalk", dict(Chans={1, 2}, Cats={"a", "b"}, Keys={"x"}, MaxT=1, MaxN=1, SmallMaps=small), invs=["Unions", "Wider", "Itself"], props=["OnlyOnRequest"], next="NextSmall", workers=3)
    depth = ctx.n(12, 24)
    traces = ctx.gen("CrosstalkGen", dict(Chans=set(CHANS), Cats=set(CATS), Keys=set(KEYS), Elsewhere=set(ELSEWHERE), MaxT=0, MaxN=0, SmallMaps=set(), Depth=depth),
                     num=ctx.n(300, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["Real"])
    ctx.replay(replay, traces, "history")
    ctx.end_check(h)
    ctx.need_actions("set", "flag", "bad", "good", "reopen")
