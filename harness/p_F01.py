"""F01: optimal filters.  Filters.tla; sequences of FiltersGen.tla are replayed into mass.FilterMaker, ToeplitzWhitener, ToeplitzSolver and band_limit."""
import copy
import random
from fractions import Fraction
import numpy as np
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "filters of records longer than 12 samples follow the same rules as the exactly specified shorter ones"]
TOL = dict(rtol=1e-7, atol=1e-9)


def refused(what, fn, exc):
    try:
        fn()
    except exc:
        return
    expect(what, "refused", "accepted", "refusal")


def limited(x, gains):
    """x with each frequency multiplied by its gain: the Fourier sum written out."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    g = np.array([a / b for a, b in gains])
    t = np.arange(n)
    out = np.zeros(n)
    for k in range(n):
        out += g[min(k, n - k)] * np.array([np.dot(x, np.cos(2 * np.pi * k * (t - i) / n)) for i in t]) / n
    return out


def parabola_peak(y):
    """The extreme of the least-squares parabola through five equidistant points."""
    a = (2 * y[0] - y[1] - 2 * y[2] - y[3] + 2 * y[4]) / 14
    b = (-2 * y[0] - y[1] + y[3] + 2 * y[4]) / 10
    c = (-3 * y[0] + 12 * y[1] + 17 * y[2] + 12 * y[3] - 3 * y[4]) / 35
    return a, (c - b * b / (4 * a) if a != 0 else 0)


def inverse3(B):
    B = [[Fraction(v) for v in r] for r in B]
    cof = [[B[(i + 1) % 3][(j + 1) % 3] * B[(i + 2) % 3][(j + 2) % 3] - B[(i + 1) % 3][(j + 2) % 3] * B[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    det = sum(B[0][j] * cof[0][j] for j in range(3))
    if det == 0:
        return None
    return [[cof[j][i] / det for j in range(3)] for i in range(3)]


class Maker:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.n = m["n"]
        self.alpha = rng.choice([1, 1, 0.37, 250.0, -3.0, -0.02])
        self.gamma = rng.choice([1, 1, 0.04, 36.0])
        self.dt = rng.choice([1.0, 2.0 ** -14, 1e-5])
        beta = rng.choice([0, 0, 1000.5, -70])
        sig = self.alpha * np.array(m["s"], dtype=float) + beta
        if self.alpha == 1 and beta == 0 and rng.random() < .5:
            sig = rng.choice([np.array(m["s"]), list(m["s"])])
        dtm = self.alpha * np.array(m["d"], dtype=float)
        if rng.random() < .2:
            dtm = list(dtm)
        kw = dict(dt_model=dtm, sample_time_sec=self.dt)
        kind = m["noise"]["kind"]
        self.auto = None
        if kind == "auto":
            self.auto = self.padded(m["noise"]["r"], self.n + rng.choice([0, 0, 3]))
        elif kind == "whitener":
            # (a whitener of noise larger by some factor)
            th = np.array(m["noise"]["theta"], dtype=float) * np.sqrt(self.gamma)
            kw["whitener"] = mass.ToeplitzWhitener(th, rng.choice([np.array, list])(m["noise"]["phi"]))
            if rng.random() < .3:
                self.auto = self.padded([7, 3, 2], self.n)
        else:
            c = np.zeros(self.n)
            half = (self.n - 4) // 2
            c[:half + 1] = m["noise"]["r"][:half + 1]
            # (the middle of the autocorrelation is left out with the samples of the other lags)
            c[half + 1:half + 3] = [rng.choice([0, 0.125]), rng.choice([0, 0.25])]
            c[self.n - half - 1:] = c[half + 1:0:-1]
            if self.n % 2 == 0:
                c[half + 3:] = c[half + 1:0:-1]
            k = np.arange(self.n // 2 + 1)
            t = np.arange(self.n)
            kw["noise_psd"] = 2 * self.dt * self.gamma * np.array([np.dot(c, np.cos(2 * np.pi * t * i / self.n)) for i in k])
            if rng.random() < .3:
                self.auto = self.padded([7, 3, 2], self.n)
        if self.auto is not None:
            kw["noise_autocorr"] = list(self.auto) if rng.random() < .2 else self.auto
        if m["peak"] or rng.random() < .2:
            kw["peak"] = float(m["peak"])
        self.args = (sig, m["npre"]), kw
        self.kept = copy.deepcopy(self.args)
        self.maker = mass.FilterMaker(sig, m["npre"], **kw)
        self.made = []

    def padded(self, r, n):
        x = np.zeros(n)
        x[:len(r)] = np.array(r) * self.gamma
        return x

    def limits(self, s, n):
        return dict(fmax=(s["h"] - .5) / (n * self.dt) if s["h"] else None, f_3db=s["f3"] / (n * self.dt) if s["f3"] else None)

    def variance(self, f):
        """What noise does to a filter, from the definition; None where it is not determined."""
        f = np.asarray(f, dtype=float)
        n = len(f)
        noise = self.m["noise"]
        if self.auto is not None and noise["kind"] != "whitener":
            return sum(f[i] * f[j] * self.auto[abs(i - j)] for i in range(n) for j in range(n))
        if self.auto is not None:
            return None
        if noise["kind"] == "periodic":
            return self.gamma * sum(f[i] * f[j] * noise["r"][min(abs(i - j), n - abs(i - j))] for i in range(n) for j in range(n))
        # inv(W') f by definition: W' y = f where W = inv(MA) AR
        ar, ma = (np.array([[c[i - j] if 0 <= i - j < len(c) else 0 for j in range(n)] for i in range(n)], dtype=float) for c in (noise["phi"], noise["theta"]))
        y = np.linalg.solve((np.linalg.inv(ma) @ ar).T, f)
        return self.gamma * np.dot(y, y)

    def compare(self, what, s, filt, f, lags, dt_values=None, const=None):
        pre, post = s["cut"]
        pk = s["peak"]
        expect_close(f"values of the {what}", np.hstack([np.zeros(pre), f, np.zeros(post)]), filt.values, sig="values", **TOL)
        peak = self.m["peak"] or self.alpha * pk["num"] / pk["den"]
        expect_close(f"nominal peak of the {what}", peak, filt.nominal_peak, sig="peak", **TOL)
        var = self.variance(f)
        if var is not None:
            expect_close(f"predicted variance of the {what}", var, filt.variance, sig="variance", rtol=1e-6, atol=1e-12)
        if filt.variance > 1e-9:
            expect_close(f"predicted resolving power of the {what}", abs(peak) / np.sqrt(8 * np.log(2) * filt.variance), filt.predicted_v_over_dv, sig="vdv", **TOL)
        expect(f"settings of the {what}", (lags, pre, post), (filt.convolution_lags, filt.cut_pre, filt.cut_post), "settings")
        expect_close(f"signal of the {what}", np.array(s["a"]) / pk["whole"], filt.signal_model, sig="signal", **TOL)
        for name, want, got in (("arrival-time", dt_values, filt.dt_values), ("baseline", const, filt.const_values)):
            if want is not None:
                expect_close(f"{name} values of the {what}", np.hstack([np.zeros(pre), want, np.zeros(post)]), got, sig="values", **TOL)
            else:
                expect(f"{name} values of the {what}", None, got, "values")
        expect(f"is the {what} arrival-time safe", dt_values is not None, filt.is_arrival_time_safe, "settings")
        self.made.append((filt, np.array(filt.values)))

    def lag5(self, s):
        a = np.array(s["a"]) / s["peak"]["whole"]
        u = np.array(s["u"], dtype=float)
        limit = bool(s["h"] or s["f3"])
        if limit:
            u = limited(u, s["gains"])
        five = np.array([np.dot(u, a[i:i + len(u)]) for i in range(5)]) if limit else np.array(s["five"]) / s["peak"]["whole"]
        curv, top = parabola_peak(five)
        if abs(curv) < 1e-6 * np.abs(five).max() or abs(top) < 1e-6 * np.abs(five).max() or np.abs(five).max() < 1e-9:
            return
        kw = self.limits(s, len(u))
        if s["cut"] != [0, 0] or self.rng.random() < .5:
            kw.update(cut_pre=s["cut"][0], cut_post=s["cut"][1])
        filt = getattr(self.maker, "compute_" + s["act"])(**kw)
        self.compare(f"{s['act']} filter", s, filt, u / top, 5)

    def ats(self, s):
        inv = inverse3(s["normal"]["B"])
        if inv is None:
            return
        X, whole = s["normal"]["X"], s["peak"]["whole"]
        scales = [s["g"] / whole, s["peak"]["den"] / whole, 1]
        filts = [np.array([float(sum(inv[i][k] * X[k][t] for k in range(3))) for t in range(len(X[0]))]) / scales[i] for i in range(3)]
        if s["h"] or s["f3"]:
            filts = [limited(f, s["gains"]) for f in filts]
        else:
            a, d = np.array(s["a"]) / whole, np.array(s["d"]) * s["peak"]["den"] / whole
            expect_close("response", np.eye(3), np.array(filts) @ np.array([a, d, np.ones(len(a))]).T, sig="model", rtol=1e-6, atol=1e-6)
        filt = self.maker.compute_ats(cut_pre=s["cut"][0], cut_post=s["cut"][1], **self.limits(s, len(X[0])))
        self.compare("arrival-time-safe filter", s, filt, filts[0], 1, filts[1], filts[2])

    def refuse(self, what):
        mk = self.maker
        (sig, npre), kw = self.args
        timed = [mk.compute_5lag, mk.compute_ats] if self.m["noise"]["kind"] != "periodic" else []
        if what == "fourier" and "noise_psd" not in kw:
            refused("a Fourier filter without a spectrum", mk.compute_fourier, ValueError)
        elif what == "fcut" and "noise_psd" in kw:
            refused("cuts in a Fourier filter", lambda: mk.compute_fourier(cut_pre=1), NotImplementedError)
        elif what == "ats":
            bare = mass.FilterMaker(sig, npre, **{k: v for k, v in kw.items() if k != "dt_model"})
            refused("an arrival-time-safe filter without a model of arrival time", bare.compute_ats, ValueError)
            for go in (bare.compute_5lag, bare.compute_ats):
                if "noise_autocorr" not in kw and "whitener" not in kw:
                    refused("a filter without noise", go, ValueError)
        elif what in {"negative", "all"}:
            for go in timed:
                for k in ("cut_pre", "cut_post"):
                    refused("such cuts", lambda: go(**{k: -1 if what == "negative" else self.n + 1}), ValueError)
        elif what == "time":
            bare = mass.FilterMaker(sig, npre, **{k: v for k, v in kw.items() if k != "sample_time_sec"})
            for go in ([bare.compute_5lag, bare.compute_ats] if timed else []):
                for k in ("fmax", "f_3db"):
                    refused("smoothing without a sample time", lambda: go(**{k: 1e3}), ValueError)

    def unchanged(self):
        (sig, _), kw = self.args
        (sig0, _), kw0 = self.kept
        expect("signal given", list(sig0), list(sig), "inputs")
        for k in kw0:
            if isinstance(kw0[k], (np.ndarray, list)):
                expect(f"{k} given", list(kw0[k]), list(kw[k]), "inputs")
        for f, v in self.made:
            expect("values of an earlier filter", list(v), list(f.values), "inputs")


def shaped(cols, flat, rng, kinds):
    x = np.array(cols, dtype=rng.choice(kinds)).T
    x = x[:, 0] if flat else x
    if rng.random() < .2:
        return x.tolist()
    return x.copy() if rng.random() < .5 else np.asfortranarray(x)


def replay(trace, wd):
    from mass.core.optimal_filtering import band_limit
    from mass.mathstat.toeplitz import ToeplitzSolver
    rng = random.Random(repr(trace)[:2000])
    makers = {}
    for i, s in enumerate(trace):
        a = s["act"]
        with at_step(i, a), np.errstate(all="ignore"):
            if a == "make":
                makers[s["k"]] = Maker(s["m"], rng)
            elif a in {"5lag", "fourier"}:
                makers[s["k"]].lag5(s)
            elif a == "ats":
                makers[s["k"]].ats(s)
            elif a == "refuse":
                makers[s["k"]].refuse(s["what"])
            elif a == "toep":
                T = np.array(s["T"], dtype=rng.choice([float, int]))
                solver = ToeplitzSolver(T.tolist() if rng.random() < .3 else T, symmetric=s["sym"])
                y = shaped(s["y"], s["flat"], rng, [float, int])
                x = np.array(s["x"], dtype=float).T
                expect_close("solution of a Toeplitz system", x[:, 0] if s["flat"] else x, solver(y), sig="toeplitz", rtol=1e-6, atol=1e-6)
                expect_close("solution of a Toeplitz system once more", x[:, 0] if s["flat"] else x, solver(y), sig="toeplitz", rtol=1e-6, atol=1e-6)
                if s["sym"]:
                    half = rng.choice([1, .5])
                    m = ToeplitzSolver(half * T, symmetric=True)
                    expect_close("Toeplitz matrix times a vector", half * np.array(s["y"][0]), m.mult(shaped(s["x"][:1], True, rng, [float, int])), sig="toeplitz", **TOL)
            elif a == "whiten":
                c = rng.choice([1, 1, 2.0, .5])
                th, ph = c * np.array(s["theta"]), rng.choice([np.array, list])(s["phi"])
                w = mass.ToeplitzWhitener(th, ph)
                e = rng.choice([1, 1, 4.0])
                if e != 1:
                    w = mass.ToeplitzWhitener(th, np.array(s["phi"]) * e)
                for what, fn, want, scale in (("whitened", w.whiten, s["w"], e / c), ("whitened", w, s["w"], e / c), ("unwhitened", w.solveW, s["sw"], c / e),
                                              ("transposed whitened", w.applyWT, s["wt"], e / c), ("transposed unwhitened", w.solveWT, s["swt"], c / e)):
                    x = np.array(want, dtype=float).T * scale
                    v = shaped(s["v"], s["flat"], rng, [float, int])
                    v0 = copy.deepcopy(v)
                    expect_close(f"{what} data", x[:, 0] if s["flat"] else x, fn(v), sig="whiten", **TOL)
                    expect("data given", np.array(v0).tolist(), np.array(v).tolist(), "inputs")
                n = len(s["v"][0])
                expect_close("whitening matrix", np.array(s["w"][0]) * e / c, w.W(n) @ np.array(s["v"][0]), sig="whiten", **TOL)
                refused("data of three dimensions", lambda: rng.choice([w, w.solveW, w.applyWT, w.solveWT])(np.ones((2, 2, 2))), ValueError)
            elif a == "band":
                x = np.array(s["v"], dtype=float).T
                x = x[:, 0].copy() if s["flat"] else x.copy()
                dt = rng.choice([1.0, 1e-5])
                n = len(s["v"][0])
                band_limit(x, dt, (s["h"] - .5) / (n * dt) if s["h"] else None, s["f3"] / (n * dt) if s["f3"] else None)
                want = np.array([limited(v, s["gains"]) for v in s["v"]]).T
                expect_close("band-limited data", want[:, 0] if s["flat"] else want, x, sig="band", **TOL)
            for m in makers.values():
                m.unchanged()


REPLAY = {"history": replay}


def run(ctx):
    global mass
    from vlib import Raw
    mass = ctx.mass
    auto = lambda *rs: Raw("{" + ", ".join("[kind |-> \"auto\", r |-> <<%s>>]" % ", ".join(map(str, r)) for r in rs) + "}")
    laws = ["Solves", "NoDc", "Optimal", "Least", "Shifted", "Whitened", "Triangle"]
    coefs = Raw("{<<1>>, <<1, -1>>, <<-1, 1, 1>>}")
    hs = [ctx.start_check("Filters", dict(Vals=set(v), Len5=n, Noises=auto(*ns), Coefs=coefs), invs=laws, workers=1, timeout=800)
          for n, v, ns in [(3, (0, 1, 2, 4), [(1,), (2, 1), (4, 2, 1)]), (4, (0, 1, 3), [(3, -1, 1), (6, 4, 1)])] + ([] if ctx.quick else [(5, (0, 1, 3), [(2, -1), (6, -4, 1)]), (4, (0, 1, 2, 5), [(4, 2, 1), (5, 0, 2)])])]
    depth = ctx.n(18, 40)
    traces = ctx.gen("FiltersGen", dict(Slots={1, 2}, Vals={0}, Len5=2, Noises=Raw("{}"), Coefs=Raw("{}"), Depth=depth), num=ctx.n(1200, 12000), depth=depth + 1, init="InitG", next="NextG")
    ctx.replay(replay, traces, "history")
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("make", "5lag", "fourier", "ats", "refuse", "toep", "whiten", "band")
