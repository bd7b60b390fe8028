"""G01: bad channels are exactly what the history of marks says.  Group.tla."""
import b_group

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "h5py stores attributes faithfully", "reasons contain no NUL and fit an HDF5 attribute"]


def replay(trace, wd):
    b_group.replay_marks(mass, trace, wd)


REPLAY = {"marks": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    small = dict(MarkRaised=False, Chans={1, 2, 3} if not ctx.quick else {1, 2}, Reasons={"a", "b"}, Ops={"o"})
    h = ctx.start_check("Group", small, invs=["Inv"], props=["ReasonsGrow", "Untouched"], next="NextSmall", workers=2)
    depth = ctx.n(16, 40)
    consts = dict(MarkRaised=False, Chans=set(b_group.CHANS), Ops={"o"}, Depth=depth, MaxOpen=0, InclOps=set(), ReOps=set(), FailTexts={"@x"},
                  Reasons={"noisy", "", "too few pulses", "DEJAVU", "two\nlines", "noisy ", "x" * 300, "0"})
    traces = ctx.gen("GroupGen", consts, num=ctx.n(200, 4000), depth=depth + 1, init="InitG", next="NextG1", invs=["Inv"])
    ctx.replay(replay, traces, "marks")
    ctx.end_check(h)
    ctx.need_actions("bad", "unknown", "good", "allgood", "reopen")
