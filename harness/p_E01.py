"""E01: energy calibrations depend on their points and settings only.  Calib.tla."""
from b_calib import Binding, consts, small
from vlib import at_step

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "pulse heights and energies are positive", "the smoothing splines themselves are not specified, only that they depend on points and settings alone and reproduce a proportionality"]


def replay(trace, wd):
    b = Binding(mass, trace[0])
    for i, s in enumerate(trace):
        with at_step(i, s["act"]):
            b.step(s)


REPLAY = {"calib": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = small(ctx, Slots={1, 2})
    h2 = small(ctx, PHs={2, 3, 4}, Es={100, 200, 300}, MaxPts=3, Names={""}, DEs={-1})
    depth = ctx.n(32, 44)
    traces = ctx.gen("CalibGen", consts(depth, False, slots=2), num=ctx.n(1000, 8000), depth=depth + 1, init="InitG", next="NextG", invs=["Shape"])
    ctx.replay(replay, traces, "calib")
    ctx.end_check(h)
    ctx.end_check(h2)
    ctx.need_actions("add", "addf", "addunknown", "rmname", "rmprefix", "rmenergy", "set", "new", "copy", "use", "useall")
