"""L01: raw pulse files are read exactly.  RawFile.tla."""
import b_raw

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "records are appended whole or torn at the end, as a crash leaves them", "no version-2.1 time falls exactly half-way between two microseconds"]
REPLAY = {"raw": b_raw.replay}
FOCUS, ACTS = "read", ("create", "write", "tear", "read")
NSS = "{1, 2, 4, 9, 12}"


def run(ctx):
    from vlib import Raw
    b_raw.mass = ctx.mass
    h = ctx.start_check("RawFile", dict(MaxRec=ctx.n(2, 3)), invs=["Provenance", "Whole"], props=["OnlyTouched", "RefusedUnchanged"], workers=2)
    depth = ctx.n(40, 60)
    traces = ctx.gen("RawFileGen", dict(MaxRec=0, Depth=depth, Focus=FOCUS, NSs=Raw(NSS), DMax=40, NPaths=4), num=ctx.n(NUM[0], NUM[1]), depth=depth + 1, init="InitG", next="NextG", invs=["Provenance", "Whole"])
    ctx.replay(b_raw.replay, traces, "raw")
    ctx.end_check(h)
    ctx.need_actions(*ACTS)


NUM = (200, 4000)
