"""I01: splines and functions.  Curves.tla; sequences of CurvesGen.tla are replayed into mass.mathstat.interpolate and mass.mathstat.derivative."""
import math
import random
import numpy as np
from vlib import expect, expect_close, at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "exp, log and powers of floating-point numbers are those of the C library"]
TOL = dict(rtol=1e-8, atol=1e-8)


class Undefined(Exception):
    pass


def evaluate(t, x, big):
    """The value of an expression of the specification; the largest intermediate value is kept in big."""
    op = t[0]
    if op in {"c", "hc"}:
        v = t[1] / (2 if op == "hc" else 1)
    elif op == "p":
        if x == 0 and t[1] < 0:
            raise Undefined
        v = float(x) ** t[1]
    elif op == "h":
        if x <= 0:
            raise Undefined
        v = math.exp(t[1] / 2 * math.log(x))
    elif op == "exp":
        if x > 40:
            raise Undefined
        v = math.exp(x)
    elif op == "log":
        if x < 1e-5:
            raise Undefined
        v = math.log(x)
    elif op == "neg":
        v = -evaluate(t[1], x, big)
    elif op == "o":
        v = evaluate(t[1], evaluate(t[2], x, big), big)
    else:
        a, b = evaluate(t[1], x, big), evaluate(t[2], x, big)
        if op == "/" and abs(b) < 1e-4:
            raise Undefined
        v = a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
    big[0] = max(big[0], abs(v))
    # (differences of large numbers that ought to be 0 are divided by, or have no logarithm)
    if big[0] > 1e7 or (v != 0 and abs(v) < 1e-7):
        raise Undefined
    return v


def number(v, rng):
    return int(v) if math.isfinite(v) and v == int(v) and rng.random() < .5 else float(v)


def build(t, rng):
    from mass.mathstat import derivative as M
    op = t[0]
    if op == "c":
        return M.ConstantFunction(rng.choice([int, float])(t[1]))
    if op == "p":
        k = rng.randrange(3)
        if t[1] == 1 and k:
            return M.Identity()
        if t[1] == -1 and k == 2:
            return 1 / M.Identity()
        return M.Identity() ** t[1] if k == 1 else M.PowerFunction(t[1])
    if op == "h":
        return M.PowerFunction(t[1] / 2)
    if op == "exp":
        return M.ExponentialFunction()
    if op == "log":
        return M.LogFunction()
    if op == "neg":
        return -build(t[1], rng)
    a, b = build(t[1], rng), build(t[2], rng)
    if op == "o":
        return a << b if rng.random() < .7 else b >> a
    # constants may be plain numbers, if the other operand is not
    if rng.random() < .6:
        if isinstance(b, M.ConstantFunction):
            b = number(b.v, rng)
        elif isinstance(a, M.ConstantFunction):
            a = number(a.v, rng)
    return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b


def function(s, rng):
    trees = [s["t"], *s["d"]]
    try:
        f = build(s["t"], rng)
    except ZeroDivisionError:
        # (a division by the constant 0)
        return
    later = [(k, x, e, big) for k in range(3) for x in (-1.5, -1, 0, .5, 1, 2, 3) for e, big in [value(trees[k], x)] if e is not None]
    for k, x, e, big in later:
        tol = dict(rtol=1e-8, atol=1e-8 * max(1.0, big))
        kinds = [float(x), np.array([x, x], dtype=float), np.array([[x]], dtype=float)] + ([int(x), np.array([x] * 3, dtype=int)] if x == int(x) else [])
        arg = rng.choice(kinds)
        for what, g in (("derivative function", lambda: f.derivative(k)(arg)), ("function", lambda: f(arg, der=k) if k or rng.random() < .5 else f(arg))):
            expect_close(f"{what} {f} of order {k} at {x}", np.full(np.shape(arg), e), g(), sig="function", **tol)
        if k == 0:
            expect_close(f"{x} >> {f}", e, float(x) >> f, sig="function", **tol)
            expect_close(f"{f} << {x}", e, f << float(x), sig="function", **tol)


def value(t, x):
    big = [0]
    try:
        v = evaluate(t, x, big)
    except (Undefined, OverflowError, ZeroDivisionError):
        return None, 0
    return v, big[0]


def taylor(xs, ys, m, x, der):
    """A piecewise cubic function of knots, values and second derivatives there, with straight continuations; None at a jump."""
    n = len(xs)
    slope = [(ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) - (xs[i + 1] - xs[i]) * (2 * m[i] + m[i + 1]) / 6 for i in range(n - 1)]
    h = xs[-1] - xs[-2]
    slope.append((ys[-1] - ys[-2]) / h + h * (m[-2] + 2 * m[-1]) / 6)
    if der >= 3 and x in xs or der == 2 and x in (xs[0], xs[-1]):
        return None
    if x <= xs[0] or x >= xs[-1]:
        i = 0 if x <= xs[0] else n - 1
        return ys[i] + slope[i] * (x - xs[i]) if der == 0 else slope[i] if der == 1 else 0.0
    i = max(k for k in range(n - 1) if xs[k] <= x)
    t, c = x - xs[i], (m[i + 1] - m[i]) / (xs[i + 1] - xs[i])
    return [ys[i] + slope[i] * t + m[i] * t * t / 2 + c * t ** 3 / 6, slope[i] + m[i] * t + c * t * t / 2, m[i] + c * t, c, 0.0][min(der, 4)]


def points(xs, rng):
    lo, hi = min(xs), max(xs)
    return sorted({rng.choice([lo, hi]), rng.choice(list(xs)), *(rng.uniform(lo - 3, hi + 3) for _ in range(3))}, key=lambda _: rng.random())


def compare(what, f, xs, ys, m, rng, ders=range(5), tol=TOL, scale=1.0, call=None):
    """f at points of several forms; scale: of the abscissa."""
    call = call or (lambda z, der: f(z, der=der) if der or rng.random() < .5 else f(z))
    for der in ders:
        ok = [(p, v) for p in points(xs, rng) for v in [taylor(xs, ys, m, p, der)] if v is not None]
        if not ok:
            continue
        v = np.array([v for _, v in ok]) / scale ** der
        z = np.array([p for p, _ in ok]) * scale
        k = rng.randrange(5)
        if k == 0:
            z, v = float(z[0]), v[0]
        elif k == 1 and len(z) > 1:
            z, v = z[:2].reshape(1, 2), v[:2].reshape(1, 2)
        elif k == 2:
            z, v = np.array(z[0]), np.array(v[0])
        elif k == 3:
            z, v = z[:1].reshape(1, 1), v[:1].reshape(1, 1)
        keep = np.array(z)
        expect_close(f"derivative {der} of the {what} at {np.asarray(z).tolist()}", v, call(z, der), sig=what, **tol)
        expect(f"points given to the {what}", (keep.shape, keep.tolist()), (np.shape(z), np.asarray(z).tolist()), "inputs")


def ends(s, alpha=1.0, scale=1.0):
    return dict(**({"yprime1": s["ends"][1] * alpha / scale} if s["ends"][0] else {}), **({"yprimeN": s["ends"][3] * alpha / scale} if s["ends"][2] else {}))


def given(v, rng, kinds=(np.array, list, tuple)):
    return rng.choice(kinds)(v)


def spline(s, rng):
    from mass.mathstat.interpolate import CubicSpline, CubicSplineFunction
    scale, alpha = rng.choice([1, 1, .01, 500.0]), rng.choice([1, 1, -40.0, .003])
    xs, ys = s["x"], np.array(s["y"]) * alpha
    m = np.array(s["m"]) / s["det"] * alpha
    order = rng.sample(range(len(xs)), len(xs)) if rng.random() < .5 else range(len(xs))
    x0, y0 = given([xs[i] * scale for i in order], rng), given([ys[i].item() for i in order], rng)
    kept = list(x0), list(y0)
    tol = dict(rtol=1e-8, atol=1e-8 * max(abs(ys).max(), abs(alpha)) / min(scale, 1) ** 3)
    cs = CubicSpline(x0, y0, **ends(s, alpha, scale))
    compare("spline", cs, xs, ys, m, rng, tol=tol, scale=scale)
    for name, k in (("yprime1", "first"), ("yprimeN", "last")):
        expect_close(f"slope at an end ({k})", s[k] / (6 * s["det"]) * alpha / scale, getattr(cs, name), sig="spline", **tol)
    f = CubicSplineFunction(x0, y0, **ends(s, alpha, scale))
    d = rng.choice([1, 1, 2])
    g = f.derivative(d)
    compare("spline function", f, xs, ys, m, rng, tol=tol, scale=scale)
    compare("derivative of a spline function", g, xs, ys, m, rng, ders=range(d, 5), tol=tol, scale=scale, call=lambda z, der: g(z, der=der - d))
    h = 2 * f + 1
    compare("combination of a spline function", h, xs, 2 * ys + 1, 2 * m, rng, tol=tol, scale=scale)
    compare("combination of a spline function", h, xs, 2 * ys + 1, 2 * m, rng, ders=range(1, 4), tol=tol, scale=scale, call=lambda z, der: h.derivative(der)(z))
    expect("points given", kept, (list(x0), list(y0)), "inputs")


def blend(s, t, rng):
    from mass.mathstat.interpolate import CubicSpline, LinterpCubicSpline
    w = rng.choice([0, 1, .5, .3, -1, 2.5])
    a, b = CubicSpline(s["x"], s["y"], **ends(s)), CubicSpline(t["x"], t["y"], **ends(t))
    c = LinterpCubicSpline(a, b, w)
    ma, mb = np.array(s["m"]) / s["det"], np.array(t["m"]) / t["det"]
    compare("combination of splines", c, s["x"], w * np.array(s["y"]) + (1 - w) * np.array(t["y"]), w * ma + (1 - w) * mb, rng)
    compare("spline that was combined", a, s["x"], np.array(s["y"]), ma, rng)
    for other in (CubicSpline(list(s["x"]) + [99], list(s["y"]) + [0]), CubicSpline([x + 1 for x in s["x"]], s["y"])):
        try:
            LinterpCubicSpline(a, other, w)
        except ValueError:
            continue
        expect("combination of splines of other knots", "refused", "accepted", "refusal")


def basis(s, rng):
    from mass.mathstat.interpolate import NaturalBsplineBasis
    b = NaturalBsplineBasis(given(s["x"], rng))
    n = len(s["x"])
    ys, m = np.array(s["y"], dtype=float), np.array(s["m"]) / s["det"]
    M = b.values_matrix()
    beta = np.linalg.solve(M, ys)
    expect_close("second derivatives at the knots of the natural basis", m, b.values_matrix(2) @ beta, sig="basis", **TOL)
    inside = [x for x in points(s["x"], rng) if s["x"][0] <= x <= s["x"][-1]]
    for der in (0, 1, 2):
        for x in inside:
            v = taylor(s["x"], ys, m, x, der)
            if v is not None:
                expect_close(f"derivative {der} of a natural spline in the natural basis at {x}", v, sum(beta[k] * b(x, k, der=der) for k in range(n)), sig="basis", **TOL)
    for k in (-1, n):
        try:
            b(s["x"][0], k)
        except ValueError:
            continue
        expect("a function that is not in the basis", "refused", "accepted", "refusal")


def smooth(s, rng):
    from mass.mathstat import interpolate as I
    xs, det = s["x"], s["det"]
    n = len(xs)
    g, m = np.array(s["g"]) / (2 * det), np.array(s["m"]) / det
    x, y, dy, v = (np.array(s[k], dtype=float) for k in ("x", "y", "dy", "v"))
    sigmaf = math.sqrt(s["lam"][1] / s["lam"][0])
    tol = dict(rtol=1e-6, atol=1e-6)
    args = [given(s[k], rng, (np.array, lambda z: np.array(z, dtype=float))) for k in ("x", "y", "dy")]
    kw = {}
    if any(s["dx"]) or rng.random() < .2 and n > 2:
        kw["dx"] = np.array(s["dx"], dtype=float)
    kept = [a.tolist() for a in [*args, *kw.values()]]
    gp = I.GPRSpline(*args, sigmaf=sigmaf, **kw)
    compare("Gaussian-process spline", gp, xs, g, m, rng, tol=tol)
    lev = np.array(s["lev"]) / (2 * det) * v
    form = rng.choice([list, tuple, np.array])
    expect_close("variances at the knots", lev, gp.variance(form(xs)), sig="variance", **tol)
    k = rng.randrange(n)
    for z in (float(xs[k]), xs[k]):
        expect_close("variance at a knot", lev[k], gp.variance(z), sig="variance", **tol)
        expect_close("covariance at a knot", lev[k], gp.covariance(z), sig="variance", **tol)
    zs = [*xs, *(rng.uniform(.1, max(xs) + 2) for _ in range(2))]
    C = gp.covariance(form(zs))
    expect_close("variances of covariances", np.diag(C), gp.variance(zs), sig="variance", **tol)
    expect_close("symmetry of covariances", C, C.T, sig="variance", **tol)
    expect_close("variances at the knots among covariances", lev, np.diag(C)[:n], sig="variance", **tol)
    # the smoothing spline of the same chi squared
    chisq = float(np.sum((y - g) ** 2 / v))
    w = np.polyfit(x, y, 1, w=1 / np.sqrt(v))
    limit = float(np.sum((y - np.polyval(w, x)) ** 2 / v))
    factor = rng.choice([1.0, 1.0, 50.0])
    a2 = [args[0] * factor if factor != 1 else args[0], args[1], args[2]]
    if "dx" in kw:
        kw["dx"] = kw["dx"] * factor
    if n >= 4 and chisq > 1e-6 and limit - chisq > 1e-4:
        f = rng.choice([I.SmoothingSpline, I.SmoothingSplineFunction])(*a2, maxchisq=chisq, **kw)
        soft = dict(rtol=1e-4, atol=1e-4)
        compare("smoothing spline", f, xs, g, m, rng, ders=range(3), tol=soft, scale=factor)
        expect_close("chi squared of the smoothing spline", chisq, f.actualchisq, sig="smoothing spline", **soft)
        if isinstance(f, I.SmoothingSplineFunction):
            for d in (1, 2):
                e = f.derivative(d)
                compare("derivative of a smoothing spline", e, xs, g, m, rng, ders=range(d, 3), tol=soft, scale=factor, call=lambda z, der: e(z, der=der - d))
    if s["line"]["det"] and n >= 4:
        a, b = s["line"]["a"] / s["line"]["det"], s["line"]["b"] / s["line"]["det"]
        f = I.SmoothingSpline(*a2, maxchisq=limit * 1.01 + 1e-6, **kw)
        compare("smoothing spline that is a line", f, xs, a + b * x, np.zeros(n), rng, ders=range(3), tol=tol, scale=factor)
        # in logarithms: a power law
        if abs(a) < 5 and abs(b) < 3:
            E = np.exp
            lx, dlx = E(x / 4), rng.choice([None, np.zeros(n)])
            k2 = None if dlx is None else dlx.copy()
            q = I.SmoothingSplineLog(lx, E(y / 4), E(y / 4) * dy / 4, dlx, maxchisq=limit * 1.01 + 1e-6)
            z = np.array([p for p in points(xs, rng)]) / 4
            want = E(a / 4 + b * z)
            expect_close("logarithmic smoothing spline", want, q(E(z)), sig="log spline", rtol=1e-6, atol=1e-9)
            expect_close("slope of a logarithmic smoothing spline", b * want / E(z), q(E(z), der=1), sig="log spline", rtol=1e-5, atol=1e-7)
            expect("errors given", None if k2 is None else k2.tolist(), None if dlx is None else dlx.tolist(), "inputs")
            dlx = np.full(n, .5)
            I.SmoothingSplineLog(lx, E(y / 4), E(y / 4) * dy, dlx, maxchisq=1e9)
            expect("errors given", [.5] * n, dlx.tolist(), "inputs")
    expect("data given", kept[:3], [a.tolist() for a in args], "inputs")


def replay(trace, wd):
    rng = random.Random(repr(trace)[:2000])
    for i, s in enumerate(trace):
        with at_step(i, s["act"]), np.errstate(all="ignore"):
            if s["act"] == "spline":
                spline(s["s"], rng)
            elif s["act"] == "blend":
                blend(s["s"], s["t"], rng)
            elif s["act"] == "basis":
                basis(s["s"], rng)
            elif s["act"] == "smooth":
                smooth(s, rng)
            elif s["act"] == "fun":
                function(s, rng)


REPLAY = {"history": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    laws = ["Lines", "Cubics", "Bends", "Mirrored", "Smoothing", "Derivatives"]
    hs = [ctx.start_check("Curves", dict(Vals=set(v), N=n, MaxStep=k, Trees=t), invs=laws, workers=1, timeout=800)
          for v, n, k, t in [((0, 1, 3), 3, 3, False), ((0, 1), 4, 2, False), ((0,), 2, 1, True)] + ([] if ctx.quick else [((0, 1, 3), 4, 2, False), ((0, 2), 5, 2, False), ((0, 1, 2, 5), 3, 3, False)])]
    depth = ctx.n(16, 30)
    traces = ctx.gen("CurvesGen", dict(Vals={0}, N=2, MaxStep=1, Trees=False, Depth=depth), num=ctx.n(700, 8000), depth=depth + 1, init="InitG", next="NextG")
    ctx.replay(replay, traces, "history")
    for h in hs:
        ctx.end_check(h)
    ctx.need_actions("spline", "blend", "basis", "smooth", "fun")
