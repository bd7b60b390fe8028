"""L03: matching files by channel number.  Files.tla."""
import os
import random
import h5py
import ljhfab
from vlib import expect, at_step, Divergence

mass = None
ASSUMPTIONS = ["TLC and the JSON bridge are correct", "every name in a list carries a channel tag", "no two files of one channel in the lists given to an analysis"]
TAGS = "_chan"


def render(pieces, pad=0):
    return "".join(f"_chan{p['num']:0{pad}d}" if p["tag"] else p["txt"] for p in pieces)


class World:
    def __init__(self, wd, first):
        rng = random.Random(repr(first))
        self.rng = rng
        self.dir = os.path.join(wd, rng.choice(["d", "x_chan7", "run_chan12.d", "a.b", "_chan3/_chan"]))
        os.makedirs(self.dir)
        self.base = dict(pulse=rng.choice(["p", "p_chan3_x", "p.q", "chan5", "20210101_run0001"]), noise=rng.choice(["n", "noise_chan8", "n.q"]))
        self.ext = dict(pulse=rng.choice([".ljh"]), noise=rng.choice([".ljh", ".noi"]))
        for k in ("pulse", "noise"):
            for c in first[k]:
                self.write(k, c)
        # other files that must not be taken for channels of these
        open(os.path.join(self.dir, "README"), "w").close()
        os.mkdir(os.path.join(self.dir, self.base["pulse"] + "_chan99"))
        self.nh = 0

    def name(self, k, c, variant=0):
        return os.path.join(self.dir, f"{self.base[k]}_chan{c}{self.ext[k] if not variant else '.second' + self.ext[k]}")

    def write(self, k, c):
        d = ljhfab.simple_pulses(3, 20, 8, seed=c)
        ljhfab.write22(self.name(k, c), d, [1000 * i + c for i in (1, 2, 3)], [1_600_000_000_000_000 + i for i in range(3)], npre=8, chan=c)

    def listed(self, k, seq):
        seen, out = set(), []
        for c in seq:
            out.append(self.name(k, c, c in seen))
            seen.add(c)
        return out


def lst(x):
    return None if x == [-1] else x


def replay(trace, wd):
    w = World(wd, trace[0])
    for i, s in enumerate(trace):
        with at_step(i, s["act"]):
            step(w, s)


def step(w, s):
    lj = mass.core.ljh_util
    a = s["act"]
    rng = w.rng
    if a == "write":
        w.write(s["k"], s["c"])
    elif a == "remove":
        os.unlink(w.name(s["k"], s["c"]))
    elif a == "pair":
        l1, l2 = w.listed("pulse", s["l1"]), w.listed("noise", s["l2"])
        def sel(lst_, chans):   # the names kept, in the order given
            return [n for n, c in zip(lst_, chans)]
        keep1 = [n for n, c in zip(l1, s["l1"]) if c in s["k1"]]
        keep2 = [n for n, c in zip(l2, s["l2"]) if c in s["k2"]]
        expect("model: kept lists", [c for c in s["l1"] if c in s["k1"]], s["k1"])
        b = l2 if l2 or rng.random() < .5 else None
        lj.remove_unpaired_channel_files(l1, b, never_use=lst(s["never"]), use_only=lst(s["use"]))
        expect("pulse files kept", keep1, l1, "pair")
        if l2:
            expect("noise files kept", keep2, l2, "pair")
    elif a == "sort":
        l1 = w.listed("pulse", s["l"])
        kw = {} if lst(s["use"]) is None else dict(inclusion_list=lst(s["use"]))
        orig = list(l1)
        out = lj.ljh_sort_filenames_numerically(l1, **kw)
        expect("sorted names", [w.name("pulse", c) for c in s["e"]], list(out or []), "sort")
        expect("the list given to sort is unchanged", orig, l1, "sort")
    elif a == "dir":
        for k, other in (("pulse", "noise"), ("noise", "pulse")):
            some = [w.name(k, c) for c in s[k]]
            probe = rng.choice(some) if some else w.name(k, 4)
            expect(f"channels of the {k} files in the directory", s[k], lj.ljh_get_channels(probe), "dir")
            exp = [w.name(k, c) for c in s[k]]
            pat = os.path.join(w.dir, w.base[k] + "_chan*" + w.ext[k])
            got = lj.filename_glob_expand(pat)
            expect(f"expansion of the {k} pattern", exp, list(got or []), "glob")
            expect("sibling names", exp, lj.ljh_chan_names(probe, s[k]), "names")
        expect("channels in both", s["both"], lj.ljh_get_channels_both(w.name("pulse", 0), w.name("noise", 0)), "dir")
    elif a == "parse":
        pad = rng.choice([0, 0, 3])
        name = render(s["name"], pad)
        base, chan = lj.ljh_basename_channum(name)
        if s["chan"] == -1:
            expect("no channel number", None, chan, "parse")
        else:
            expect("base name of " + name, render(s["base"], pad), base, "parse")
            expect("channel number of " + name, s["chan"], chan, "parse")
            expect("channel number of " + name, s["chan"], lj.ljh_channum(name), "parse")
            stem = render(s["base"], pad) + f"_chan{s['c']}"
            got = lj.ljh_chan_names(name, [s["c"], 5])
            expect("sibling base", [stem, stem[:len(render(s['base'], pad))] + "_chan5"], [os.path.splitext(g)[0] for g in got], "parse")
            expect("sibling extension", os.path.splitext(name)[1], os.path.splitext(got[0])[1], "parse")
    elif a in ("open", "opennoise"):
        opened(w, s)


def opened(w, s):
    rng = w.rng
    noise_only = s["act"] == "opennoise"
    l1 = w.listed("noise" if noise_only else "pulse", s["l1"])
    l2 = [] if noise_only else w.listed("noise", s["l2"])
    w.nh += 1
    kw = dict(never_use=lst(s["never"]), use_only=lst(s["use"]))
    kw["hdf5_filename"] = os.path.join(w.dir, f"h{w.nh}.hdf5")
    kw["hdf5_noisefilename"] = os.path.join(w.dir, f"h{w.nh}n.hdf5")
    if s["max"] >= 0:
        kw["max_chans"] = s["max"]
    try:
        if noise_only:
            args = (l1,) if s["k"] == 0 else (None, l1)
            g = mass.TESGroup(*args, noise_only=True, **kw)
        else:
            n = l2 if l2 else rng.choice([None, []])
            # a pattern must do the same as the list it expands to
            use_glob = rng.random() < .3 and sorted(s["l1"]) == sorted(set(s["l1"]))
            p = os.path.join(w.dir, w.base["pulse"] + "_chan*" + w.ext["pulse"]) if use_glob else l1
            g = mass.TESGroup(p, n, **kw)
    except Exception as e:
        if s["e"]:
            raise Divergence("the analysis could not be opened", s["e"], f"{type(e).__name__}: {e}", "open")
        return
    try:
        ds = list(g.iter_channels(include_badchan=True)) if hasattr(g, "iter_channels") else list(g.datasets)
        expect("channels opened, in order", s["e"], [d.channum for d in ds], "open")
        kind = "noise" if noise_only else "pulse"
        expect("the channels' files", [w.name(kind, c) for c in s["e"]], [d.filename for d in ds], "open")
        expect("channel numbers of the raw files", s["e"], [(d.noise_records if noise_only and hasattr(d, 'noise_records') else d).channum for d in ds], "open")
        if l2:
            expect("noise file paired with each channel", [w.name("noise", c) for c in s["e"]],
                   [d.noise_records.filename for d in ds], "open")
        for d, c in zip(ds, s["e"]):
            if g.channel[c] is not d:
                raise Divergence("channel lookup by number", c, g.channel[c].channum, "open")
    finally:
        for f in (g.hdf5_file, g.hdf5_noisefile):
            if isinstance(f, h5py.File):
                try:
                    f.close()
                except Exception:
                    pass


REPLAY = {"files": replay}


def run(ctx):
    global mass
    mass = ctx.mass
    h = ctx.start_check("Files", dict(Chans={1, 2, 10} if ctx.quick else {1, 2, 10, 11}, MaxList=3), invs=["Inv"], next="NextSmall", workers=2)
    depth = ctx.n(24, 40)
    traces = ctx.gen("FilesGen", dict(Chans={0, 1, 2, 3, 9, 10, 11, 20, 100, 101}, MaxList=3, Depth=depth,
                                      Texts={"run", "_chan", "chan7x", "a/b", ".q", "_channel", "_", "y2021_x", "x y", "_CHAN4"}, Exts={".ljh", ".noi", "", ".a.b", "_x.off"}),
                     num=ctx.n(300, 6000), depth=depth + 1, init="InitG", next="NextG")
    ctx.replay(replay, traces, "files")
    ctx.end_check(h)
    ctx.need_actions("pair", "open", "opennoise", "sort", "dir", "parse")
