"""S01: robust statistics equal their definitions.  Robust.tla, RobustSelect.tla."""
import random
import numpy as np
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "data are finite"]
Z = 0.674480


def pre(n):
    return 2.2219 * ([0, 0, .399, .994, .512, .844, .611, .857, .669, .872][n] if n <= 9 else n / (n + 1.4) if n % 2 else n / (n + 3.8))


def form(x, rng, scale, off):
    """The same data, said in several ways: (value, how to scale it back)."""
    k = rng.randrange(7)
    if k == 0:
        return [float(v) for v in x], 1, 0
    if k == 1:
        return list(x), 1, 0
    if k == 2:
        return np.array(x), 1, 0
    if k == 3:
        return np.array(x, dtype=rng.choice([np.uint16, np.int16, np.int32, np.uint64])), 1, 0
    if k == 4:
        return np.array([[v, -1] for v in x], dtype=float)[:, 0], 1, 0
    if k == 5:
        return np.array(x, dtype=np.float32), 1, 0
    return off + scale * np.array(x, dtype=float), scale, off


def replay(sets, wd):
    if isinstance(sets, dict):
        sets = [sets]
    for i, d in enumerate(sets):
        with at_step(i, "data"):
            one(d, random.Random(repr(d)))


def one(d, rng):
    R = mass.mathstat.robust
    x, n = d["x"], len(d["x"])
    scale, off = rng.choice([1, 4, -1, .5, 1 / 3, 1e9, 1e-12]), rng.choice([0, 100, -7, 0.1])
    v, s, o = form(x, rng, scale, off)
    a = abs(s)
    keep = list(v)
    tol = dict(rtol=1e-5 if getattr(v, "dtype", None) == np.float32 else 1e-9, atol=1e-6 * a if o == 0 else 1e-9 * abs(o) + 1e-6 * a)
    expect_close("median absolute deviation", d["mad4"] * a / 4, R.median_abs_dev(v), sig="mad", **tol)
    expect_close("normalized", d["mad4"] * a / 4 / Z, R.median_abs_dev(v, normalize=True), sig="mad", **tol)
    expect_close("trimean", o + d["tri16"] * s / 16, R.trimean(v), sig="trimean", **tol)
    if s > 0:
        hm = o + d["hm1"] * s
        expect_close("high median", hm, R.high_median(v), sig="high_median", **tol)
        if d["hm"] >= 0:
            w = d["w"] if rng.random() < .5 else np.array(d["w"]) * rng.choice([1, .25, 3])
            got, idx = R.high_median(v, w, return_index=True)
            expect_close("weighted high median", o + d["hm"] * s, got, sig="high_median", **tol)
            expect_close("the datum at the index", got, v[idx], sig="high_median", **tol)
            expect_close("weighted high median", got, R.high_median(v, weights=w), sig="high_median", **tol)
    expect_close("shorth range", d["short"] * a, R.shorth_range(v), sig="shorth", **tol)
    r, mean, center = R.shorth_range(v, location=True)
    expect_close("shorth range", d["short"] * a, r, sig="shorth", **tol)
    ok = [(o + s * t / m, o + s * c / 2) for c, t, m in d["centers"]]
    if not any(np.isclose(mean, p, **tol) and np.isclose(center, q, **tol) for p, q in ok):
        expect("shorth mean and center", ok, (float(mean), float(center)), "location")
    if n >= 2:
        norm = d["short"] * a / (2 * Z) * ((n + 1.) / n if n % 2 == 0 else (n + 1.) / (n - 1.))
        expect_close("normalized shorth range", norm, R.shorth_range(v, normalize=True), sig="shorth", **tol)
        expect_close("Q scale", d["q"] * a * pre(n), R.Qscale(v), sig="q", **tol)
    else:
        refused("Q scale of one datum", lambda: R.Qscale(v))
    expect("the caller's data stay", True, len(keep) == len(v) and all(p == q for p, q in zip(keep, v)), "argument")
    if isinstance(v, np.ndarray):
        for name, f in (("shorth_range", R.shorth_range), ("Qscale", R.Qscale)):
            if n >= 2:
                u = v.copy()
                expect_close(f"{name}, sorting in place", f(v), f(u, sort_inplace=True), sig="inplace", **tol)
                expect("the data sorted in place are the data", True, np.array_equal(np.sort(v), u), "inplace")
    elif n >= 2:
        refused("sorting a list in place", lambda: R.shorth_range(v, sort_inplace=True))
        refused("sorting a list in place", lambda: R.Qscale(v, sort_inplace=True))
    weighted(d, rng)


def weighted(d, rng):
    """The weighted means are fixed points of their own definition, or say that they found none."""
    R = mass.mathstat.robust
    x = np.array(d["x"], dtype=float)
    rngx = x.max() - x.min() + 1
    for name, weight in (("bisquare", lambda u: np.where(np.abs(u) > 1, 0, (1 - u**2)**2)), ("huber", lambda u: 1 / np.maximum(1, np.abs(u)))):
        k, tol = rng.choice([.7, 1.5, 2, 5] if name == "bisquare" else [.002, .02, .2, .7, 1.5, 5]) * rngx, rng.choice([None, 1e-9 * rngx])
        kw = {} if tol is None else dict(tol=tol)
        if rng.random() < .3:
            kw["center"] = float(x.mean())
        try:
            m = getattr(R, name + "_weighted_mean")(x.copy(), k, **kw)
        except RuntimeError:
            if k < rngx:       # k beyond all distances: weights vary slowly, and the iteration converges
                continue
            raise
        eps = 2e-5 * rngx
        wt = weight((x - m) / k)
        expect_close(f"{name} weighted mean is a fixed point", m, (wt * x).sum() / wt.sum(), rtol=0, atol=2 * eps, sig=name)
        expect("it is within the data", True, x.min() - eps <= m <= x.max() + eps, name)
        if len(set(d["x"])) == 1:
            expect_close(f"{name} weighted mean of equal data", x[0], m, rtol=1e-12, atol=1e-12, sig=name)


def refused(what, fn):
    try:
        r = fn()
    except ValueError:
        return
    expect(what, "refused", repr(r), "refused")


REPLAY = {"small": replay, "random": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    n = ctx.n(4, 5)
    hs = [ctx.start_check("Robust", dict(MaxN=n, MaxV=3, MaxW=1), invs=["Laws"]),
          ctx.start_check("RobustSelect", dict(MaxN=4, MaxV=2, MaxW=ctx.n(1, 2)), init="InitS", next="NextS", invs=["FoundRight", "NotLost", "HighRight"], props=["Progress"])]
    cases = ctx.enum("RobustGen", dict(MaxN=4, MaxV=2, MaxW=2, Depth=0), init="InitE", next="NextE", emit="EmitAll")
    ctx.replay(replay, cases, "small")
    cases = ctx.enum("RobustGen", dict(MaxN=ctx.n(5, 6), MaxV=3, MaxW=0, Depth=0), init="InitE", next="NextE", emit="EmitAll")
    ctx.replay(replay, cases, "small")
    traces = ctx.gen("RobustGen", dict(MaxN=1, MaxV=1, MaxW=1, Depth=20), num=ctx.n(100, 1500), depth=21, init="InitG", next="NextG")
    ctx.replay(replay, traces, "random")
    for h in hs:
        ctx.end_check(h)
