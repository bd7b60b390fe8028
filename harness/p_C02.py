"""C02: bit allocation and persistence of the cut registry.  Cuts.tla, packed layer."""
import tempfile
import b_cuts

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "h5py stores attributes and datasets faithfully",
               "the version-1 registry is the one the upgrade code describes: a used-bit count and an extra default column"]


def replay(trace, wd):
    b_cuts.replay(mass, trace, wd, registry=True)


def replay_legacy(trace, wd):
    b_cuts.replay(mass, trace, wd, registry=True, legacy=True)


REPLAY = {"registry": replay, "legacy": replay_legacy}


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(NBits=ctx.n(4, 5), Chans=1, NP=1, BNames={"x", "y", "z"}, CNames={"k", "l"}, Builtin=["x"],
                 CatSeqs={("A",), ("A", "B", "C")}, Defaults={"A", "u"})
    h = ctx.start_check("Cuts", small, invs=["Inv"], next="NextSmall", workers=3)
    builtins = b_cuts.fresh_builtins(mass, tempfile.mkdtemp(dir=ctx.scratch))
    consts = dict(NBits=32, Chans=2, NP=4, Builtin=builtins, BNames={f"x{i}" for i in range(1, 15)}, CNames={f"k{i}" for i in range(1, 6)},
                  CatSeqs={("A",), ("A", "B"), ("A", "B", "C"), (), ("B", "B", "uncategorized"), ("C", "A", "B", "D", "A"),
                           tuple("ABCDEFGH"), tuple("ABCDEFGHIJKLMNOPQ")},
                  Defaults={"uncategorized", "A", "Q"}, CatPool={"A", "B", "C", "Z", "uncategorized"})
    depth = ctx.n(30, 60)
    traces = ctx.gen("CutsGen", dict(consts, Depth=depth), num=ctx.n(160, 2500), depth=depth + 1, init="InitG", next="NextR", invs=["Inv"])
    if not any(s["out"] == "refused" and s["act"] in ("regb", "regc") for t in traces for s in t):
        raise b_cuts.InfraError("vacuous: the bits never ran out")
    k = len(traces) // 4
    ctx.replay(replay, traces[k:], "registry")
    ctx.replay(replay_legacy, traces[:k], "legacy")
    ctx.end_check(h)
    ctx.need_actions("regb", "unregb", "regc", "unregc", "cutb", "codes", "reopen")
