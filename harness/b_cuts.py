"""Binding of spec/Cuts.tla to mass.core.cut, shared by C01 and C02."""
import random
import zlib
import h5py
import numpy as np
import ljhfab
from vlib import Divergence, at_step, expect, InfraError

CHANS = [1, 3]
NP = 4
NSAMP = 20


def fresh_builtins(mass, wd):
    """The boolean names a brand-new analysis file starts with (they are data, not behaviour)."""
    files, _ = ljhfab.make_group_files(wd, [1], 2)
    data = mass.TESGroup(files)
    names = [n.decode() for n, _m in data.boolean_cut_desc if n]
    assert [n.decode() for n, _ in data.categorical_cut_desc] == ["calibration"]
    data.hdf5_file.close()
    return names


def popcount(x):
    return bin(int(x)).count("1")


class Rig:
    def __init__(self, mass, wd, legacy=False, rng=None):
        self.mass, self.wd, self.rng = mass, wd, rng or random.Random(0)
        self.files, _ = ljhfab.make_group_files(wd, CHANS, NP)
        self.h5 = wd + "/run_mass.hdf5"
        self.data = None
        self.open()
        if legacy:
            self.downgrade()

    def open(self):
        self.data = self.mass.TESGroup(self.files, hdf5_filename=self.h5)

    def close(self):
        self.data.hdf5_file.close()
        self.data = None

    def reopen(self):
        self.close()
        self.open()

    def downgrade(self):
        """Rewrite the registry the way format version 1 stored it: a count of used bits, and a default category."""
        self.close()
        with h5py.File(self.h5, "a") as f:
            flags = int(f.attrs["cut_used_bit_flags"])
            if flags & (flags + 1):
                raise InfraError("version-1 files use the bits contiguously from 0")
            f.attrs["cut_num_used_bits"] = popcount(flags)
            del f.attrs["cut_used_bit_flags"], f.attrs["cut_format_ver"]
            old = f.attrs["cut_categorical_field_desc"]
            new = np.zeros(len(old), dtype=[("name", "S64"), ("mask", np.uint32), ("default", "S64")])
            new["name"], new["mask"], new["default"] = old["name"], old["mask"], b"in"
            f.attrs["cut_categorical_field_desc"] = new
        self.open()

    def ds(self, c):
        return self.data.channel[CHANS[c - 1]]

    def bool_position(self, name):
        for i, (n, _m) in enumerate(self.data.boolean_cut_desc):
            if n.decode() == name:
                return i
        return None

    # ---- one operation; returns "ok" or "refused" ----------------------------------------------
    def apply(self, s):
        a = s["act"]
        data = self.data
        try:
            if a == "regb":
                data.register_boolean_cut_fields(*s["names"])
            elif a == "unregb":
                data.unregister_boolean_cut_fields(*s["names"])
            elif a == "regc":
                if s["def"] == "uncategorized" and self.rng.random() < .5:
                    data.register_categorical_cut_field(s["name"], tuple(s["cats"]))
                else:
                    data.register_categorical_cut_field(s["name"], s["cats"], s["def"])
            elif a == "unregc":
                data.unregister_categorical_cut_field(s["name"])
            elif a == "cutb":
                m = np.zeros(NP, dtype=bool)
                m[[p - 1 for p in s["S"]]] = True
                pos = self.bool_position(s["name"])
                if s["byint"] and pos is not None:
                    self.ds(s["c"]).cuts.cut(pos, m)
                else:
                    self.ds(s["c"]).cuts.cut(s["name"], m)
            elif a == "cutc":
                d = {}
                for k, S in s["assign"]:
                    m = np.zeros(NP, dtype=bool)
                    m[[p - 1 for p in S]] = True
                    d[k] = m
                items = sorted(d.items())
                self.rng.shuffle(items)
                self.ds(s["c"]).cuts.cut_categorical(s["name"], dict(items))
            elif a == "codes":
                codes = data.cut_field_categories(s["name"])
                self.ds(s["c"]).cuts.cut(s["name"], np.array([codes[x] for x in s["labels"]], dtype=np.uint32))
            elif a == "clear":
                self.ds(s["c"]).clear_cuts(*s["names"]) if False else self.ds(s["c"]).cuts.clear_cut(*s["names"])
            elif a == "reopen":
                self.reopen()
            else:
                raise InfraError(a)
        except (ValueError, KeyError):
            if a == "reopen":
                raise
            return "refused"
        return "ok"

    # ---- observations ----------------------------------------------------------------------------
    def look(self, obs, full=True):
        """Compare every verdict a user can see with the specification's (full=False: a sample of them)."""
        data = self.data
        bools = sorted(n.decode() for n, _ in data.boolean_cut_desc if n)
        expect("registered boolean fields", sorted(obs["bad"][0]), bools, "bools")
        cats = sorted(n.decode() for n, _ in data.categorical_cut_desc)
        expect("registered categorical fields", sorted(obs["cats"]), cats, "cats")
        shown = bools
        if not full:
            quiet = [n for n in bools if not any(obs["bad"][c][n] for c in range(len(CHANS)))]
            shown = [n for n in bools if n not in quiet] + self.rng.sample(quiet, min(3, len(quiet)))
        for c in range(1, len(CHANS) + 1):
            cuts = self.ds(c).cuts
            for n in shown:
                b = cuts.bad(n)
                expect(f"pulses cut in '{n}' (channel {c})", obs["bad"][c - 1][n], [int(i) + 1 for i in np.nonzero(b)[0]], "bad")
                expect(f"good is the complement of bad in '{n}'", (~b).tolist(), cuts.good(n).tolist(), "goodbad")
            table = cuts.cut_mask() if full else None
            for n in cats:
                want = obs["cat"][c - 1][n]
                got = [[k for k in obs["cats"][n] if cuts.select_category(**{n: k})[p]] for p in range(NP)]
                expect(f"category in '{n}' (channel {c})", [[w] for w in want], got, "category")
                codes = data.cut_field_categories(n)
                expect(f"category codes of '{n}'", [int(codes[w]) for w in want], [int(x) for x in cuts.category_codes(n)], "codes")
                if full:
                    expect(f"combined table column '{n}'", [int(codes[w]) for w in want], [int(x) for x in table[n]], "cut_mask")
            if full:
                for n in bools:
                    expect(f"combined table column '{n}'", cuts.good(n).tolist(), table[n].tolist(), "cut_mask")
                expect("combined table columns", sorted(bools + cats), sorted(table.dtype.names), "cut_mask")
            q, sel = obs["q"], {f: k for f, k in obs["s"]}
            try:
                good = cuts.good(*q, **sel)
                bad = cuts.bad(*q, **sel)
                ok = True
            except ValueError:
                ok = False
            expect(f"question {q} {sel} is answerable", obs["qok"], ok, "question")
            if ok:
                expect(f"good({q}, {sel})", obs["good"][c - 1], [int(i) + 1 for i in np.nonzero(good)[0]], "good")
                expect(f"bad({q}, {sel})", obs["badq"][c - 1], [int(i) + 1 for i in np.nonzero(bad)[0]], "badq")
                ds = self.ds(c)
                expect("ds.good", good.tolist(), ds.good(*q, **sel).tolist(), "good")
                expect("ds.bad", bad.tolist(), ds.bad(*q, **sel).tolist(), "badq")

    def look_registry(self, obs):
        """C02: the packed layer, judged by Disjoint/JustEnough/CodesDistinct rather than by which bit was chosen."""
        data = self.data
        owners, used = {}, int(data.cut_used_bit_flags)
        bdesc, cdesc = data.boolean_cut_desc, data.categorical_cut_desc
        names = [n.decode() for n, _ in bdesc if n]
        expect("boolean names registered once each", sorted(obs["bad"][0]), sorted(names), "bools")
        for n, m in bdesc:
            if n:
                expect(f"bits owned by '{n.decode()}'", 1, popcount(m), "onebit")
                owners[n.decode()] = int(m)
        cn = [n.decode() for n, _ in cdesc]
        expect("categorical names registered once each", sorted(obs["cats"]), sorted(cn), "cats")
        for n, m in cdesc:
            n = n.decode()
            cats = obs["cats"][n]
            need = max(1, (len(cats) - 1).bit_length())
            expect(f"bits owned by '{n}'", need, popcount(m), "justenough")
            owners["c:" + n] = int(m)
            codes = {k: int(v) for k, v in data.cut_field_categories(n).items()}
            expect(f"categories of '{n}'", sorted(cats), sorted(codes), "categories")
            expect(f"default category of '{n}' has code 0", 0, codes[cats[0]], "default")
            expect(f"codes of '{n}' are distinct", len(codes), len(set(codes.values())), "codes")
            low = (int(m) & -int(m)).bit_length() - 1
            for k, v in codes.items():
                expect(f"code of '{n}={k}' within its bits", 0, (v << low) & ~int(m), "codebits")
            listed = [c.decode() for f, c, _ in data.cut_category_list if f.decode() == n]
            expect(f"category list of '{n}'", sorted(cats), sorted(listed), "catlist")
        expect("no category list rows of unregistered fields", [],
               [f.decode() for f, _c, _k in data.cut_category_list if f.decode() not in cn], "catlist")
        acc = 0
        for n, m in owners.items():
            expect(f"bits of {n} shared with another field", 0, acc & m, "disjoint")
            acc |= m
        expect("used-bit record is the union of owned bits", acc, used, "used")
        expect("number of used bits", obs["nused"], popcount(used), "nused")


def replay(mass, trace, wd, registry=False, legacy=False):
    rng = random.Random(zlib.crc32(repr(trace).encode()))
    rig = Rig(mass, wd, legacy=legacy, rng=rng)
    for k, s in enumerate(trace):
        with at_step(k, s["act"]):
            got = rig.apply(s)
            expect(f"outcome of {s['act']}", s["out"], got, f"{s['act']}:outcome")
            if registry:
                rig.look_registry(s["obs"])
                if k % 4 == 3 or s["act"] == "reopen" or k == len(trace) - 1:
                    rig.look(s["obs"])
            else:
                rig.look(s["obs"], full=k % 6 == 5 or k == len(trace) - 1)
    rig.close()
