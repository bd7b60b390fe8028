"""Binding of spec/Group.tla to mass.core.channel_group (G01, G02)."""
import random
import zlib
import h5py
import numpy as np
import ljhfab
from vlib import Divergence, at_step, expect

CHANS = [1, 3, 5, 12]


def words(x):
    """TLA+ strings are ASCII: the specification writes DEJAVU for a reason with other letters."""
    if isinstance(x, str):
        return x.replace("DEJAVU", "d\u00e9j\u00e0 vu \u2265 3\u03c3")
    if isinstance(x, list):
        return [words(y) for y in x]
    if isinstance(x, dict):
        return {k: words(v) for k, v in x.items()}
    return x


NP = 6


def _boom(self, *a, **k):
    raise object.__getattribute__(self, "_exc")


class Boom:
    """Stands in for a part of a channel: any use of it fails as planned."""

    def __init__(self, exc):
        object.__setattr__(self, "_exc", exc)

    __getattribute__ = __setattr__ = __getitem__ = __setitem__ = __call__ = __len__ = __iter__ = __array__ = _boom
    __add__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = _boom


def _raise(e):
    raise e


class Odd(Exception):
    pass


EXCS = [ValueError, RuntimeError, OSError, Odd, ArithmeticError, IndexError, AttributeError]


def make_exc(text, kind, rng):
    if kind == "stop":
        return KeyboardInterrupt(text)
    return rng.choice(EXCS)(text)


class Rig:
    def __init__(self, mass, wd, noise=False, noise_only=False, zero=False, shuffle=False, rng=None):
        self.mass, self.wd, self.rng = mass, wd, rng or random.Random(0)
        chans = list(CHANS)
        counts = {c: NP for c in chans}
        if zero:
            chans.append(7)
            counts[7] = 0
        self.files, self.nfiles = ljhfab.make_group_files(wd, sorted(chans), NP, noise=noise or noise_only, counts=counts)
        if shuffle:
            self.rng.shuffle(self.files)
        self.noise, self.noise_only = noise, noise_only
        self.h5 = wd + "/run_mass.hdf5"
        self.h5n = wd + "/runnoise_mass.hdf5"
        self.data = None
        self.open()

    def open(self):
        if self.noise_only:
            self.data = self.mass.TESGroup(list(self.nfiles), noise_only=True, hdf5_noisefilename=self.h5n)
        else:
            self.data = self.mass.TESGroup(list(self.files), list(self.nfiles) if self.noise else None,
                                           hdf5_filename=self.h5, hdf5_noisefilename=self.h5n if self.noise else None)

    def close(self):
        if self.data.hdf5_file:
            self.data.hdf5_file.close()
        if self.data.hdf5_noisefile:
            self.data.hdf5_noisefile.close()
        self.data = None

    def reopen(self, k):
        self.close()
        if k and not self.noise_only:
            self.data = self.mass.core.channel_group.RestoreTESGroup(self.h5, self.h5n if self.noise else None)
        else:
            self.open()

    def args(self, S, k):
        """The same set of channels, said in several ways."""
        S = list(S)
        self.rng.shuffle(S)
        if k == 0:
            return [np.int64(c) if self.rng.random() < .3 else c for c in S]
        if k == 1:
            return [S]
        if k == 2:
            return [S[0], set(S)]
        return [tuple(S[:1]), np.array(S), S[-1]]

    def views(self, obs):
        d = self.data
        expect("bad channels and reasons", {int(c): r for c, r in obs["bad"]}, {int(c): list(r) for c, r in d.why_chan_bad.items()}, "why_bad")
        good = obs["good"]
        expect("iteration", good, [ds.channum for ds in d], "iter")
        expect("good_channels", good, list(d.good_channels), "good_channels")
        expect("num_good_channels", len(good), d.num_good_channels, "num_good")
        expect("n_good_channels()", len(good), d.n_good_channels(), "n_good")
        expect("iter_channels()", good, [ds.channum for ds in d.iter_channels()], "iter")
        expect("iter_channel_numbers()", good, list(d.iter_channel_numbers()), "iter")
        expect("iter_channels(include_badchan)", obs["order"], [ds.channum for ds in d.iter_channels(include_badchan=True)], "iter_all")
        expect("iter_channel_numbers(include_badchan)", obs["order"], list(d.iter_channel_numbers(include_badchan=True)), "iter_all")
        expect("data.channel", obs["order"], list(d.channel), "channel")
        for c in obs["order"]:
            expect("data.channel[c].channum", c, d.channel[c].channum, "channel")
        if good:
            expect("first good data set", good[0], d.first_good_dataset.channum, "first")
            if f", {len(good)} chans" not in d.shortname:
                raise Divergence("shortname does not count the good channels", len(good), d.shortname, "shortname")
        else:
            try:
                ds = d.first_good_dataset
            except Exception:
                return
            raise Divergence("a first good data set where none is good", None, ds.channum, "first")


def replay_marks(mass, trace, wd):
    rng = random.Random(zlib.crc32(repr(trace).encode()))
    mode = rng.randrange(4)
    rig = Rig(mass, wd, noise=mode == 1, noise_only=mode == 2, zero=mode == 3, shuffle=rng.random() < .5, rng=rng)
    for k, s in enumerate(words(trace)):
        with at_step(k, s["act"]):
            d, a = rig.data, s["act"]
            if a == "bad":
                args = rig.args(s["S"], s["k"])
                args.insert(rng.randrange(len(args) + 1), s["reason"])
                d.set_chan_bad(*args)
            elif a == "unknown":
                try:
                    d.set_chan_bad(99, "no such channel")
                except Exception:
                    pass
            elif a == "good":
                d.set_chan_good(*rig.args(s["S"], s["k"]))
            elif a == "allgood":
                d.set_all_chan_good()
            elif a == "reopen":
                rig.reopen(s["k"])
            rig.views(s["obs"])
    rig.close()


# ---- operations over the group (G02) ------------------------------------------------------------
def custom_op(self, verif_plan, verif_log):
    verif_plan(self.channum)
    verif_log.append(self.channum)


OPS = ["custom", "summarize", "noise", "flux", "cuts", "exttrig"]
PART = dict(summarize="pulse_records", noise="noise_records", flux="p_pretrig_mean", cuts="cuts", exttrig="p_subframecount")
# operations whose own loop records a fixed reason, without the error's text
FIXED_REASON = {"flux": "flux jumps", "exttrig": "calc_external_trigger_timing"}


class OpRig(Rig):
    def __init__(self, mass, wd, rng):
        super().__init__(mass, wd, noise=True, rng=rng)
        with h5py.File(wd + "/run_external_trig.hdf5", "w") as f:
            f["trig_times"] = np.array([500, 1500, 2222, 9000], dtype=np.int64)
        d = self.data
        d.summarize_data(peak_time_microsec=30.0)
        for ds in d:
            ds.subframe_divisions = 1
        for ds in d:
            ds.p_pretrig_mean[:] = 1000 + 400 * (np.arange(NP) % 2)

    def outputs(self, ds, op):
        """The stored results of an operation on one channel, as names -> setter/getter."""
        g = ds.hdf5_group
        return dict(summarize=["pulse_rms", "pulse_average", "pretrig_rms", "peak_value"], noise=["noise_psd", "noise_autocorr"],
                    flux=["pretrig_mean"], cuts=["cuts/mask"],
                    exttrig=["subframes_after_last_external_trigger", "subframes_until_next_external_trigger",
                             "subframes_from_nearest_external_trigger"])[op], g

    def blank(self, op):
        for ds in self.data.datasets:
            ds.hdf5_group["cuts/mask"][...] = 0
            names, g = self.outputs(ds, op)
            for n in names:
                if op == "flux":
                    g[n][:] = 1000 + 400 * (np.arange(NP) % 2)
                elif n in g:
                    g[n][...] = 0

    def read(self, ds, op):
        names, g = self.outputs(ds, op)
        return [g[n][...].tolist() if n in g else None for n in names]

    def call(self, op, incl, plan=None, log=None, re=False):
        d = self.data
        if op == "custom":
            d.custom_op(plan, log, **({"_rethrow": True} if re else {}))
        elif op == "summarize":
            d.summarize_data(peak_time_microsec=30.0, forceNew=True, include_badchan=incl)
        elif op == "noise":
            d.compute_noise(forceNew=True)
        elif op == "flux":
            d.correct_flux_jumps(400.0)
        elif op == "cuts":
            c = self.mass.core.controller.AnalysisControl()
            c.cuts_prm.update(peak_value=(500., 550.))
            d.apply_cuts(c, clear=True)
        elif op == "exttrig":
            d.calc_external_trigger_timing(forceNew=True)

    def prepare_reference(self):
        """What each operation leaves in each channel when nothing fails."""
        self.ref = {}
        for op in OPS[1:]:
            self.blank(op)
            before = {ds.channum: self.read(ds, op) for ds in self.data.datasets}
            self.call(op, False)
            assert not self.data.why_chan_bad, self.data.why_chan_bad
            self.ref[op] = {ds.channum: self.read(ds, op) for ds in self.data.datasets}
            for c in before:
                if before[c] == self.ref[op][c]:
                    raise Divergence(f"operation {op} left no result in channel {c}", None, before[c], f"{op}:noresult")


def replay_ops(mass, trace, wd):
    rng = random.Random(zlib.crc32(repr(trace).encode()))
    if not hasattr(mass.core.channel.GroupLooper, "custom_op"):
        mass.core.channel._add_group_loop()(custom_op)
    rig = OpRig(mass, wd, rng)
    rig.prepare_reference()
    d = rig.data
    prev = {c: {o: 0 for o in OPS} for c in CHANS}
    for k, s in enumerate(words(trace)):
        with at_step(k, s["act"] + ":" + s.get("op", "")):
            a = s["act"]
            if a == "bad":
                d.set_chan_bad(*rig.args(s["S"], 1), s["reason"])
            elif a == "good":
                d.set_chan_good(*rig.args(s["S"], 1))
            elif a == "op":
                run_op(rig, s)
                done = [c for i, c in enumerate(CHANS) if s["obs"]["did"][i][s["op"]] > prev[c][s["op"]]]
                check_done(rig, s, done)
            check_reasons(rig, s)
            good = s["obs"]["good"]
            expect("good channels", good, list(d.good_channels), "good_channels")
            for i, c in enumerate(CHANS):
                prev[c] = s["obs"]["did"][i]
    rig.close()


def run_op(rig, s):
    d, op = rig.data, s["op"]
    plan = dict(zip(CHANS, s["plan"]))
    excs = {c: make_exc(s["text"][1:], p, rig.rng) for c, p in plan.items() if p != "ok"}
    rig.saved = []
    rig.log = []
    if op != "custom":
        rig.blank(op)
        for ds in d.datasets:
            if ds.channum in excs:
                rig.saved.append((ds, ds.__dict__[PART[op]]))
                ds.__dict__[PART[op]] = Boom(excs[ds.channum])
    # this operation insists on one good channel, to find the trigger file
    if op == "exttrig":
        d._external_trigger_subframe_count = np.array([500, 1500, 2222, 9000], dtype=np.int64)
    try:
        try:
            rig.call(op, s["incl"] and op == "summarize", lambda c: _raise(excs[c]) if c in excs else None, rig.log, s["re"])
            got = "ok"
        except KeyboardInterrupt:
            got = "interrupt"
        except Exception as e:
            if op == "exttrig" and not s["shown"] and isinstance(e, IndexError):
                got = "ok"
            elif s["re"] and e in excs.values():
                got = "error"
            else:
                raise
    finally:
        for ds, part in rig.saved:
            ds.__dict__[PART[op]] = part
    expect(f"outcome of {op}", s["out"], got, f"{op}:outcome")


def check_done(rig, s, done):
    op = s["op"]
    if op == "custom":
        expect("channels processed, in order", done, rig.log, "custom:done")
        return
    failed = {c for c, p in zip(CHANS, s["plan"]) if p != "ok"}
    for ds in rig.data.datasets:
        c = ds.channum
        got = rig.read(ds, op)
        if c in done:
            expect(f"result of {op} in channel {c}", rig.ref[op][c], got, f"{op}:result")
        elif c not in failed and got == rig.ref[op][c]:
            raise Divergence(f"{op} processed channel {c}, which it should not have reached", "untouched", "processed", f"{op}:touched")


def check_reasons(rig, s):
    got = rig.data.why_chan_bad
    want = {int(c): r for c, r in s["obs"]["bad"]}
    expect("bad channels", sorted(want), sorted(int(c) for c in got), "badset")
    for c, rs in want.items():
        expect(f"number of reasons of channel {c}", len(rs), len(got[c]), "nreasons")
        for w, g in zip(rs, got[c]):
            if w.startswith("@"):
                text = w[1:]
                fixed = any(f in g for f in FIXED_REASON.values())
                if not g or (text not in g and not fixed):
                    raise Divergence(f"reason of channel {c} does not name the failure", w, g, "reasontext")
            else:
                expect(f"reason of channel {c}", w, g, "reason")
