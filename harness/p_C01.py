"""C01: verdicts of cut fields.  Cuts.tla, abstract layer."""
import tempfile
import b_cuts

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "h5py stores attributes and datasets faithfully",
               "boolean and categorical fields have different names, at most 64 bytes long"]


def replay(trace, wd):
    b_cuts.replay(mass, trace, wd)


REPLAY = {"cuts": replay}
GEN = dict(NBits=32, Chans=2, NP=4, BNames={"x1", "x2", "x3"}, CNames={"k1", "k2"},
           CatSeqs={("A",), ("A", "B"), ("A", "B", "C"), ("B", "B", "uncategorized"), (), ("C", "A", "B", "D", "A")},
           Defaults={"uncategorized", "A", "Q"}, CatPool={"A", "B", "C", "Z", "uncategorized"})


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(NBits=3, Chans=1, NP=2, BNames={"x", "y"}, CNames={"k"}, Builtin=["x"], CatSeqs={("A",), ("A", "B")}, Defaults={"A"})
    if not ctx.quick:
        small.update(NBits=4, CatSeqs={("A",), ("A", "B"), ("B", "C", "D")}, Defaults={"A", "B"}, CNames={"k", "l"})
    h = ctx.start_check("Cuts", small, invs=["Inv"], next="NextSmall", workers=3)
    builtins = b_cuts.fresh_builtins(mass, tempfile.mkdtemp(dir=ctx.scratch))
    consts = dict(GEN, Builtin=builtins)
    depth = ctx.n(24, 40)
    traces = ctx.gen("CutsGen", dict(consts, Depth=depth), num=ctx.n(200, 4000), depth=depth + 1, init="InitG", next="NextG", invs=["Inv"])
    ctx.replay(replay, traces, "cuts")
    ctx.end_check(h)
    ctx.need_actions("regb", "unregb", "regc", "unregc", "cutb", "cutc", "codes", "clear", "reopen")
