"""Energy calibrations: the binding of Calib.tla to mass.EnergyCalibration."""
import random
import warnings
import numpy as np
from vlib import expect, expect_close, Divergence, Raw

FEATS = [("NaKAlpha", 1041), ("MgKAlpha", 1254), ("AlKAlpha", 1487), ("SiKAlpha", 1740), ("CuLAlpha1", 930), ("FeLAlpha1", 705), ("OKAlpha", 525), ("NKAlpha", 392), ("CKAlpha", 277), ("NiLAlpha1", 851)]
NAMES = ["", "A", "AB", "B C", "Cu", "Mn 2", "AlKAlpha", "Al", "b", "x_1", "B"]
HEADS = ["A", "Al", "B", "x", "Mg", "Cu", "Q"]
SCALES = [1.0, 1.0, 0.37, 128.5, 1 / 3]


def consts(depth, storing, slots=3, keys=("k",)):
    names = set(NAMES) | {f[0] for f in FEATS}
    feats = "<<" + ", ".join(f'[n |-> "{n}", e |-> {e}]' for n, e in FEATS) + ">>"
    pairs = "{" + ", ".join(f'<<"{n}", "{h}">>' for n in sorted(names) for h in HEADS if n.startswith(h)) + "}"
    return dict(Slots=set(range(1, slots + 1)), Names=set(NAMES), Heads=set(HEADS), Feats=Raw(feats), PHs={1}, Es={1}, DPHs={-1, 0, 1, 2}, DEs={-1, 0, 1, 65, 100},
                Keys=set(keys), MaxPts=99, HasPrefix=Raw(pairs), Depth=depth, Storing=storing)


def small(ctx, **kw):
    base = dict(Names={"", "A"}, Heads={"A"}, Feats=Raw("<<>>"), PHs={2, 3}, Es={100, 200}, DPHs={-1}, DEs={-1, 100}, MaxPts=2, HasPrefix=Raw('{<<"A","A">>}'), Slots={1}, Keys=Raw("{}"))
    base.update(kw)
    return ctx.start_check("Calib", base, invs=["Inv"], props=["Frame", "AddFrame"], next="NextSmall", extra="CONSTRAINT Small")


class Binding:
    def __init__(self, mass, first):
        self.mass = mass
        self.rng = random.Random(repr(first))
        self.sc = self.rng.choice(SCALES)
        self.cal = {}
        self.EC = mass.EnergyCalibration

    def slot(self, s):
        if s not in self.cal:
            self.cal[s] = self.EC()
        return self.cal[s]

    # -- concrete values ---------------------------------------------------------------------------
    def energy(self, e):
        for n, fe in FEATS:
            if fe == e:
                return float(self.mass.STANDARD_FEATURES[n])
        return float(e)

    def ph(self, x):
        return x * self.sc

    def point(self, p):
        ph = self.ph(p["ph"])
        return (p["n"], ph, self.energy(p["e"]), ph * .001 if p["dph"] == -1 else p["dph"] * self.sc / 8, .01 if p["de"] == -1 else float(p["de"]))

    def step(self, s):
        act = s["act"]
        f = getattr(self, "do_" + act)
        try:
            f(s)
            out = "ok"
        except Divergence:
            raise
        except (ValueError, TypeError, KeyError, IndexError, Exception) as e:
            out = "refused"
            why = e
        if out != s["out"]:
            raise Divergence("the action succeeds or is refused", s["out"], out if out == "ok" else f"{type(why).__name__}: {why}", act)
        for slot, view in s["obs"]["cals"]:
            self.look(slot, view, sharp=act in {"use", "useall", "load", "copy"})

    # -- actions -------------------------------------------------------------------------------------
    def do_add(self, s):
        self.add(s["s"], s["p"], s["ow"], None)

    def do_addf(self, s):
        p = s["p"]
        assert p["n"] in self.mass.STANDARD_FEATURES
        # asking for a feature by name, whatever name is given as well
        self.add(s["s"], p, s["ow"], p["n"])

    def add(self, slot, p, ow, feat):
        n, ph, e, dph, de = self.point(p)
        kw = {}
        if p["dph"] != -1 or self.rng.random() < .2:
            kw["pht_error"] = None if p["dph"] == -1 else dph
        if p["de"] != -1 or self.rng.random() < .2:
            kw["e_error"] = None if p["de"] == -1 else de
        if not ow or self.rng.random() < .3:
            kw["overwrite"] = ow
        if feat:
            if self.rng.random() < .3:
                kw["name"] = "something else"
            self.slot(slot).add_cal_point(ph, feat, **kw)
        else:
            if n:
                kw["name"] = n
            self.slot(slot).add_cal_point(ph, self.rng.choice([e, e, int(e) if e == int(e) else e, str(e), np.float64(e)]), **kw)

    def do_addunknown(self, s):
        self.slot(s["s"]).add_cal_point(self.ph(5), self.rng.choice(["NoSuchLine", "", "mnkalpha", "12eV"]))

    def do_rmname(self, s):
        self.slot(s["s"]).remove_cal_point_name(s["n"])

    def do_rmprefix(self, s):
        self.slot(s["s"]).remove_cal_point_prefix(s["x"])

    def do_rmenergy(self, s):
        self.slot(s["s"]).remove_cal_point_energy(float(s["e"]), s["d"])

    def curve_arg(self, ct):
        return self.rng.choice([ct, ct, list(self.EC.CURVETYPE).index(ct), ct.upper()])

    def do_set(self, s):
        c = self.slot(s["s"])
        if s["w"] == "curve":
            c.set_curvetype(self.curve_arg(s["ct"]))
        elif s["w"] == "nl":
            c.set_nonlinearity(s["n"] / 10)
        elif s["w"] == "approx":
            c.set_use_approximation(s["b"])
        else:
            c.set_GPR(s["b"])

    def do_new(self, s):
        self.cal[s["s"]] = self.EC(nonlinearity=s["n"] / 10, curvetype=self.curve_arg(s["ct"]), approximate=s["a"], useGPR=s["g"])

    def do_copy(self, s):
        self.cal[s["d"]] = self.slot(s["s"]).copy()

    def do_use(self, s):
        pass

    do_useall = do_use

    # -- observations ----------------------------------------------------------------------------------
    def rows(self, c):
        return list(zip(c.cal_point_names, np.asarray(c.cal_point_phs).tolist(), np.asarray(c.cal_point_energies).tolist(), np.asarray(c._dph).tolist(), np.asarray(c._de).tolist(), strict=True))

    def look(self, slot, view, sharp):
        self.compare(self.slot(slot), view, sharp)

    def compare(self, c, view, sharp=True):
        want = [self.point(p) for p in view["pts"]]
        have = self.rows(c)
        self.same_rows("calibration points", want, sorted(have, key=lambda r: r[1]))
        expect("number of points", len(want), c.npts, "npts")
        expect("settings", (view["curve"], bool(view["approx"])), (c.curvename(), bool(c._use_approximation)), "settings")
        if not sharp and self.rng.random() < .6:
            return
        self.behaves(c, view, want)
        self.same_rows("calibration points in order, once used", want, self.rows(c))

    def same_rows(self, what, want, have):
        ok = len(want) == len(have) and all(a[0] == b[0] and np.allclose(a[1:], b[1:], rtol=1e-9, atol=1e-12) for a, b in zip(want, have))
        if not ok:
            raise Divergence(what, want, have, what)

    def fresh(self, view, want):
        """The calibration with these points and settings and no other history."""
        c = self.EC(nonlinearity=view["nl"] / 10, curvetype=view["curve"], approximate=view["approx"], useGPR=view["gpr"])
        order = list(range(len(want)))
        self.rng.shuffle(order)
        for i in order:
            c.add_cal_point(want[i][1], want[i][2], name=f"u{i}", e_error=0.0)
        for i in order:
            c.add_cal_point(want[i][1], want[i][2], f"u{i}", want[i][3], want[i][4])
        return c

    def behaves(self, c, view, want):
        rng = self.rng
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            f = self.fresh(view, want)
            top = want[-1][1] if want else 60 * self.sc
            x = np.sort(np.concatenate([np.linspace(.02, 1.3, 14) * top, [r[1] for r in want]]))
            kind = view["kind"]
            e_top = want[-1][2] if want else top
            calls = [("ph2energy", lambda k: k.ph2energy(x)), ("call", lambda k: k(x)), ("scalar", lambda k: np.array([k.ph2energy(float(v)) for v in x[::5]])),
                     ("slope", lambda k: k.ph2dedph(x)), ("list", lambda k: k.ph2energy(x.tolist()) if want else k.ph2energy(x)),
                     ("energy2ph", lambda k: k.energy2ph(np.linspace(.1, 1.1, 7) * e_top)), ("e2ph", lambda k: np.array([k.e2ph(float(e_top) * .7)])),
                     ("uncertainty", lambda k: k.ph2uncertainty(x)), ("energy2uncertainty", lambda k: k.e2uncertainty(np.array([.5, .9]) * e_top)),
                     ("energy2dedph", lambda k: k.energy2dedph(np.array([.3, .8]) * e_top)), ("drop_one_errors", lambda k: np.array(k.drop_one_errors())),
                     ("str", lambda k: np.array([len(str(k).splitlines())])),
                     ("exact inverse", lambda k: k.energy2ph_exact(np.array([.4, .8]) * e_top))]
            if not want:
                calls = [q for q in calls if q[0] not in {"exact inverse", "drop_one_errors"}]
            # in any order, so that no call can rely on another
            chosen = rng.sample(calls, 5)
            for label, fn in chosen:
                a, b = self.result(fn, f), self.result(fn, c)
                if isinstance(a, str) or isinstance(b, str):
                    if isinstance(a, str) and isinstance(b, str):
                        continue
                    raise Divergence(f"{label}: the same as a new calibration with these points", a if isinstance(a, str) else a.tolist(), b if isinstance(b, str) else b.tolist(), label)
                expect_close(f"{label}: the same as a new calibration with these points", a, b, rtol=1e-7, atol=1e-9 * max(e_top, 1), sig=label)
            if kind == "undefined" or (kind == "smooth" and isinstance(self.result(lambda k: k(x), f), str)):
                return      # among these: smoothing without any uncertainty
            c = c if rng.random() < .7 else c.copy()
            keep = x.copy()
            e = c(x)
            expect("the converted array is left alone", True, np.array_equal(keep, x), "input")
            expect("an array for an array", (True, x.shape), (isinstance(e, np.ndarray), e.shape), "shape")
            hole = np.array([x[2], np.nan, x[4]])
            eh = c(hole)
            expect("an array with NaN is left alone", (True, True), (bool(np.isnan(hole[1])), hole[0] == x[2]), "input")
            expect_close("NaN converts to zero energy, the others as ever", [e[2], 0.0, e[4]], eh, rtol=1e-9, sig="nan")
            v = c(float(x[3]))
            expect("a scalar for a scalar", True, np.isscalar(v), "scalar")
            if not np.isnan(v) and not np.isinf(v):
                expect_close("scalar and array conversions agree", e[3], v, rtol=1e-9, atol=1e-9, sig="scalar")
            back = c.energy2ph(float(e_top) * .8)
            expect("a scalar for a scalar (inverse)", True, np.isscalar(back), "scalar")
            self.laws(c, view, want, x, e)

    @staticmethod
    def result(fn, c):
        try:
            return np.asarray(fn(c), dtype=float)
        except Exception as e:
            return type(e).__name__

    def laws(self, c, view, want, x, e):
        kind = view["kind"]
        if kind == "identity":
            expect_close("no points: energy is the pulse height", x, e, sig="identity")
            expect_close("no points: the inverse is the identity", x, c.energy2ph(x), sig="identity")
            expect_close("no points: zero slope order", x[2], c.ph2energy(float(x[2])), sig="identity")
            return
        if kind != "smooth":
            ph, en = np.array([r[1] for r in want]), np.array([r[2] for r in want])
            expect_close("the curve passes through its points", en, c(ph), rtol=1e-8, atol=1e-8, sig="anchors")
        for q, num, den in view["probes"]:
            expect_close(f"energy at {q} (spec units), curve {view['curve']}, {len(want)} points", 100 * num / den, c(self.ph(q)), rtol=1e-9, atol=1e-8, sig="probe")
        for r in view["probes3"]:
            q = self.ph(r[0] / 2)
            if len(r) == 3:
                ee = 100 * r[1] / r[2]
            elif view["curve"] == "gain":
                ee = 100 * (r[1] / r[2]) * r[5] * r[4] / r[3] if r[3] else None
            else:
                ee = 100 * (r[1] / r[2]) * r[3] / r[4] / r[5]
            if ee is not None:
                expect_close(f"energy midway at {r[0]}/2 (spec units), curve {view['curve']}, {len(want)} points", ee, c(q), rtol=1e-9, atol=1e-8, sig="probe3")
        p1, e1 = want[0][1], want[0][2]
        p2, e2 = want[-1][1], want[-1][2]
        if kind == "power":
            expect_close("a single point: a power law of the assumed nonlinearity", e1 * (x / p1) ** (view["nl"] / 10), e, rtol=1e-9, atol=1e-9, sig="power")
        elif kind == "geometric":
            a = np.log(e2 / e1) / np.log(p2 / p1)
            expect_close("two points, loglog: the power law through them", e1 * (x / p1) ** a, e, rtol=1e-8, atol=1e-9, sig="geometric")
        elif kind == "loggain2":
            l1, l2 = np.log(e1 / p1), np.log(e2 / p2)
            expect_close("two points, loggain: log of the gain is linear", x * np.exp(l1 + (l2 - l1) * (x - p1) / (p2 - p1)), e, rtol=1e-8, atol=1e-8, sig="loggain2")
        if view["prop"]:
            tol = 1e-8 if kind != "smooth" else 1e-3
            expect_close("points in proportion: the proportionality", x * e1 / p1, e, rtol=tol, atol=1e-6, sig="proportional")
        inside = (x >= p1) & (x <= p2)
        if inside.any() and not np.all(np.isfinite(e[inside])):
            raise Divergence("finite energies between the points", "finite", e[inside].tolist(), "finite")
        # the slope is that of the curve, and the inverse its inverse
        fine = np.linspace(p1, p2, 401) if p2 > p1 else np.linspace(.5 * p1, p1, 50)
        ef = c(fine)
        d = np.diff(ef)
        if len(d) and d.min() > 0.2 * d.mean() and d.max() < 5 * d.mean():
            mid = fine[len(fine) // 3]
            h = (fine[1] - fine[0]) * .01
            num = (c(mid + h) - c(mid - h)) / (2 * h)
            expect_close("the slope is the derivative", num, c.ph2dedph(float(mid)), rtol=2e-3, atol=1e-9, sig="slope")
            # the inverse is tabulated over (0, twice the highest point]: there is one where the curve rises all the way, not too unevenly
            rise = np.diff(c(np.linspace(2 * p2 / 2000, 2 * p2, 2000)))
            if not rise.min() > .02 * rise.max():
                return
            expect_close("slope at an energy", c.ph2dedph(float(mid)), c.energy2dedph(float(c(mid))), rtol=2e-2, atol=1e-9, sig="slope")
            expect_close("energy2ph inverts the curve", fine[::40], c.energy2ph(ef[::40]), rtol=3e-3, atol=1e-9, sig="inverse")
