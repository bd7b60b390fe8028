"""E02: calibrations saved to HDF5 come back as they were.  Calib.tla with a store."""
import os
import random
import h5py
import numpy as np
import ljhfab
from b_calib import Binding, consts, small
from vlib import at_step, expect, expect_close, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "pulse heights and energies are positive", "names under which calibrations are stored are HDF5 link names"]
KEYS = ("p_filt_value", "p_pulse_rms", "k", "my cal")


class Stored(Binding):
    """In an HDF5 group of its own."""

    def __init__(self, m, first, wd):
        super().__init__(m, first)
        self.path = os.path.join(wd, "cals.hdf5")
        self.f = h5py.File(self.path, "a")
        self.g = self.f.require_group(self.rng.choice(["calibration", "a/b c", "chan1/calibration"]))
        self.gname = self.g.name

    def close(self):
        self.f.close()

    def do_save(self, s):
        self.slot(s["s"]).save_to_hdf5(self.g, s["k"])

    def do_load(self, s):
        self.cal[s["s"]] = self.EC.load_from_hdf5(self.g, s["k"])

    def do_reopen(self, s):
        self.f.close()
        self.f = h5py.File(self.path, self.rng.choice(["a", "r+"]))
        self.g = self.f[self.gname]
        for k, view in s["stored"]:
            self.compare(self.EC.load_from_hdf5(self.g, k), view)

    def step(self, s):
        super().step(s)
        expect("names stored", sorted(s["obs"]["keys"]), sorted(self.g.keys()), "keys")


class Grouped(Binding):
    """In the HDF5 file of an analysis, which offers the calibrations again when it is reopened."""

    def __init__(self, m, first, wd):
        super().__init__(m, first)
        self.files = ljhfab.make_group_files(wd, [1, 3], 5)[0]
        self.kw = dict(hdf5_filename=os.path.join(wd, "m.hdf5"), hdf5_noisefilename=os.path.join(wd, "n.hdf5"))
        self.open()
        self.where = {k: self.rng.choice([1, 3]) for k in KEYS}
        self.extra = 0

    def open(self):
        self.data = mass.TESGroup(self.files, **self.kw)

    def close(self):
        for f in (self.data.hdf5_file, self.data.hdf5_noisefile):
            if f is not None and isinstance(f, h5py.File):
                f.close()

    def grp(self, k):
        return self.data.channel[self.where[k]].hdf5_group.require_group("calibration")

    def do_save(self, s):
        c = self.slot(s["s"])
        c.save_to_hdf5(self.grp(s["k"]), s["k"])
        self.data.channel[self.where[s["k"]]].calibration[s["k"]] = c.copy()

    def do_load(self, s):
        self.cal[s["s"]] = self.data.channel[self.where[s["k"]]].calibration[s["k"]].copy()

    def do_reopen(self, s):
        self.close()
        self.open()
        stored = dict((k, v) for k, v in s["stored"])
        for ch in (1, 3):
            ds = self.data.channel[ch]
            expect("calibrations offered by a reopened analysis", sorted(k for k in stored if self.where[k] == ch), sorted(ds.calibration.keys()), "offered")
            for k, cal in ds.calibration.items():
                self.compare(cal, stored[k])
        for k, view in stored.items():
            if view["kind"] != "undefined":
                self.energies(k, view)

    def energies(self, k, view):
        ds = self.data.channel[self.where[k]]
        x = np.array([4., 9, 17, 33, 51]) * self.sc
        ds.p_filt_value[:] = x
        ds.p_pulse_rms[:] = x[::-1]
        attr = self.rng.choice(["p_filt_value", "p_pulse_rms"])
        args = (attr,) if attr == k else (attr, k)
        other = self.data.channel[4 - self.where[k]]
        before = other.p_energy[:].copy()
        try:
            e = np.asarray(self.fresh(view, [self.point(p) for p in view["pts"]]).ph2energy(getattr(ds, attr)[:]))
        except Exception:
            return
        ds.convert_to_energy(*args)
        expect_close("energies of the pulses", e, ds.p_energy[:], rtol=1e-6, atol=1e-6, sig="convert")
        expect("the other channel's energies stay", True, np.array_equal(before, other.p_energy[:], equal_nan=True), "convert")
        expect("no such calibration", "refused", "refused" if self.refuses(lambda: ds.convert_to_energy(attr, "nosuch")) else "ok", "convert")

    @staticmethod
    def refuses(fn):
        try:
            fn()
        except Exception:
            return True
        return False


def replay(trace, wd):
    cls = Grouped if random.Random(repr(trace[:2])).random() < .35 else Stored
    b = cls(mass, trace[0], wd)
    try:
        for i, s in enumerate(trace):
            with at_step(i, s["act"]):
                b.step(s)
    finally:
        b.close()


REPLAY = {"calib": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = small(ctx, Keys={"k"})
    depth = ctx.n(28, 40)
    c = consts(depth, True, slots=2, keys=KEYS)
    traces = ctx.gen("CalibGen", c, num=ctx.n(600, 5000), depth=depth + 1, init="InitG", next="NextG", invs=["Shape"])
    ctx.replay(replay, traces, "calib")
    ctx.end_check(h)
    ctx.need_actions("add", "addf", "save", "load", "reopen", "set", "rmenergy")
