"""G02: a channel that fails in a group operation is set aside; the rest proceed.  Group.tla."""
import b_group

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "faults are injected by replacing a part the operation uses with one that raises"]


def replay(trace, wd):
    b_group.replay_ops(mass, trace, wd)


REPLAY = {"ops": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(MarkRaised=False, Chans=ctx.n({1, 2}, {1, 2, 3}), Reasons={"a"}, Ops={"o"})
    h = ctx.start_check("Group", small, invs=["Inv"], props=["ReasonsGrow", "Untouched", "NothingLost"], next="NextSmall", workers=2)
    depth = ctx.n(14, 40)
    consts = dict(MarkRaised=False, Chans=set(b_group.CHANS), Ops=set(b_group.OPS), Depth=depth, MaxOpen=0, InclOps={"summarize"}, ReOps={"custom"}, Reasons={"noisy", "odd"},
                  FailTexts={"@boom", "@DEJAVU", "@", "@first line\nsecond line", "@" + "long " * 60, "@100% {wrong}"})
    traces = ctx.gen("GroupGen", consts, num=ctx.n(160, 3000), depth=depth + 1, init="InitG", next="NextG2", invs=["Inv"])
    ctx.replay(replay, traces, "ops")
    ctx.end_check(h)
    ctx.need_actions("bad", "good", "op")
