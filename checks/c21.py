"""C21: replication and caching properties are invisible to the data."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
from gendata import prod
import c01
import c07


class Prop(c07.Dist):
    def __init__(self, rng, np, nodes):
        super().__init__(rng, np)
        self.nodes = nodes

    def reads(self, x, n, who=None):
        """overlapping and repeated sections, some inside earlier ones"""
        r = self.rng
        for k in who or self.ranks(x):
            seen, hs = [], []
            for _ in range(n):
                u = r.random()
                if seen and u < 0.25:
                    lo, hi = r.choice(seen)
                elif seen and u < 0.6:
                    a, b = r.choice(seen)
                    lo, hi = self.box(x.dims, list(zip(a, b)))
                elif u < 0.75:
                    hs.append(self.op(k, x, r.choice(["gather", "nbget", "sget", "pget"])))
                    if r.random() < 0.5:
                        continue
                    lo, hi = self.box(x.dims)
                else:
                    lo, hi = self.box(x.dims)
                seen.append((lo, hi))
                kw = {"a": x.num, "lo": lo, "hi": hi}
                p = self.pad(x.nd)
                self.s.add([k], "get", dict(kw), api=r.choice([0, 1, 2]), **dict(kw, **({"pad": p} if p else {})))
            for h in hs:
                if h is not None:
                    self.wait(k, h)

    def setp(self, x, p):
        self.s.add(x.members or "*", "setprop", None, logs=False, a=x.num, p=p)

    def unset(self, x):
        self.s.add(x.members or "*", "unsetprop", None, logs=False, a=x.num, api=self.rng.randint(0, 1))

    def prop_case(self, steps):
        r = self.rng
        g, m = None, None
        if self.np > 1 and r.random() < 0.25:
            m = sorted(r.sample(range(self.np), r.randint(1, self.np)))
            g = 0
            self.s.add(m, "group", None, logs=False, grp=g, list=m)
        arrs = []
        for num in range(2):
            ro = g is None and r.random() < 0.65
            x = gendata.new_array(r, num, self.np, maxcells=120, kinds=["reg", "reg", "irreg"] if ro else None, grp=g, members=m, expand=r.choice([None, None, None, 64]))
            x.ro = ro
            self.make(x, True)
            arrs.append(x)
        for x in arrs:
            if x.blk == 1:
                self.ask(x, who=[r.choice(self.ranks(x))], nbox=2, npts=4)
        for _ in range(steps):
            x = r.choice(arrs)
            who = x.members or "*"
            p = "read_only" if x.ro and r.random() < 0.7 else "read_cache"
            if x.blk > 1:
                modes = ["disjoint", "single"]
            else:
                modes = ["disjoint", "single", "accall", "nb"]
            self.phase([x], r.choice(modes), r.randint(1, 2))
            self.s.add(who, "before", None, logs=False)
            self.setp(x, p)
            for _ in range(r.randint(1, 3)):
                self.reads_of(x, r.randint(1, 6))
                if r.random() < 0.3:     # the other array is not affected
                    y = arrs[1 - x.num]
                    self.phase([y], "disjoint", 1)
                    self.reads_of(x, 2)
            if r.random() < 0.12 and p == "read_cache":
                z = gendata.Arr(2, **{k: v for k, v in x.__dict__.items() if k != "num"})
                self.sync(x)
                self.s.add(who, "mdup", {"op": "create", "a": 2, "dims": z.dims, "x": 0}, logs=False, a=x.num, b=2)
                self.s.add(who, "zero", {"a": 2, "x": 0}, logs=False, a=2)
                self.init(z)
                self.reads_of(z, 2)
                self.reads_of(x, 2)
                self.sync(x)
                self.destroy(z)
                self.reads_of(x, 2)
            if r.random() < 0.15:        # destroyed with the property
                self.sync(x)
                self.destroy(x)
                self.make(x, True)
                self.s.note("dcreate", a=x.num, q=self.request(x))
                continue
            self.sync(x)
            self.unset(x)
            self.s.add(who, "after", {"op": "expect", "want": 0})
            if x.blk == 1 and r.random() < 0.5:
                self.ask(x, who=[r.choice(self.ranks(x))], nbox=2, npts=6)
            self.reads_of(x, 2)
            self.sync(x)
        for x in arrs:
            self.phase([x], "disjoint", 1)
            self.readback(x)
            self.sync(x)
            self.destroy(x)
        if g is not None:
            self.s.add(m, "grpfree", None, logs=False, grp=g)

    def reads_of(self, x, n):
        """reads not allowed for expanded arrays are left out"""
        if x.blk == 1:
            self.reads(x, n)
            return
        r = self.rng
        for k in self.ranks(x):
            for _ in range(n):
                lo, hi = self.box(x.dims)
                kw = {"a": x.num, "lo": lo, "hi": hi}
                p = self.pad(x.nd)
                self.s.add([k], "get", dict(kw), api=r.choice([0, 1, 2]), **dict(kw, **({"pad": p} if p else {})))

    # -- mirrored arrays
    def copies(self, x):
        """the copy of each node, an array of its own"""
        out = []
        for j in range(self.nodes):
            m = [q for q in range(self.np) if q * self.nodes // self.np == j]
            out.append(gendata.Arr(x.num + j, **dict({k: v for k, v in x.__dict__.items() if k != "num"}, members=m)))
        return out

    def mir_case(self, steps):
        r, n = self.rng, self.nodes
        typ = r.choice([t for t in gendata.TYPES if t != "llong"])
        x = gendata.new_array(r, 3, self.np // n, typ=typ, maxcells=80, kinds=["reg", "reg", "irreg"])
        x.kw["grp"] = -2
        x.kw["api"] = r.randint(0, 1)
        cs = self.copies(x)
        nums = [c.num for c in cs]
        self.s.add("*", "mcreate", {"op": "expect", "want": 1 if n > 1 else 0}, n=n, a=x.num, **x.kw)
        for c in cs:
            self.s.note("create", a=c.num, dims=c.dims, x=0)
        self.zero(x, nums)
        y = gendata.new_array(r, 7, self.np, typ=typ, dims=x.dims, kinds=["reg", "irreg"])
        y.kw["S"], y.kw["S2"] = x.kw["S"], x.kw["S2"]
        y.kw.pop("pos", None)
        self.create(y)
        for _ in range(steps):
            f = r.choice(["merge", "merge", "patch", "patch", "in", "out", "work", "dup"])
            self.phase(cs, r.choice(["disjoint", "single", "accall", "nb", "readall"]), r.randint(1, 2))
            if f == "merge":
                self.s.add("*", "mmerge", {"op": "merge", "as": nums}, logs=False, a=x.num, api=r.randint(0, 1))
            elif f == "patch":
                lo, hi = self.box(x.dims)
                off = [r.randint(-l, d - 1 - h) for l, h, d in zip(lo, hi, x.dims)]
                w = {"lo": lo, "hi": hi, "blo": [a + o for a, o in zip(lo, off)], "bhi": [b + o for b, o in zip(hi, off)]}
                self.s.add("*", "mergepatch", dict(w, op="mpatch", b=7, **{"as": nums}), logs=False, a=x.num, b=7, api=r.randint(0, 1), **w)
            elif f == "in":
                self.phase([y], "single", 1)
                self.s.add("*", "mcopy", {"op": "mcopy", "s": 7, "ds": nums}, logs=False, s=7, d=x.num)
            elif f == "out":
                self.phase([y], "single", 1)
                self.s.add("*", "mcopy", {"op": "mcopy", "s": 7, "ds": nums}, logs=False, s=7, d=x.num)
                self.sync()
                self.s.add("*", "fill", {"a": 7, "x": 5}, logs=False, a=7, x=[5])
                self.s.add("*", "mcopy", {"op": "mcopy", "s": x.num, "ds": [7]}, logs=False, s=x.num, d=7)
            elif f == "dup":
                self.s.add("*", "mdup", None, logs=False, a=x.num, b=x.num + 4 + 4, n=n)
                for c in cs:
                    self.s.note("create", a=c.num + 8, dims=c.dims, x=0)
                self.s.add("*", "mcopy", None, logs=False, s=x.num, d=x.num + 8)
                for c in cs:
                    self.s.note("mcopy", s=c.num, ds=[c.num + 8])
                self.sync()
                zs = [gendata.Arr(c.num + 8, **{k: v for k, v in c.__dict__.items() if k != "num"}) for c in cs]
                self.phase(zs, "disjoint", 1)
                self.s.add("*", "mmerge", {"op": "merge", "as": [z.num for z in zs]}, logs=False, a=zs[0].num)
                for z in zs:
                    self.readback(z)
                self.sync()
                self.s.add("*", "destroy", None, logs=False, a=zs[0].num)
                for z in zs:
                    self.s.note("destroy", a=z.num)
            for c in cs:
                self.readback(c)
            self.readback(y)
            self.sync()
            # keep the numbers small
            if f != "work":
                if r.random() < 0.5:
                    self.zero(x, nums)
                else:
                    self.s.add("*", "fill", None, logs=False, a=x.num, x=[3])
                    for c in cs:
                        self.s.note("fill", a=c.num, x=3)
                self.sync()
        self.destroy(y)
        self.s.add("*", "destroy", None, logs=False, a=x.num)
        for c in cs:
            self.s.note("destroy", a=c.num)

    def zero(self, x, nums):
        self.s.add("*", "zero", None, logs=False, a=x.num)
        for c in nums:
            self.s.note("zero", a=c, x=0)
        self.sync()


def program(rng, np, ncases, nodes=1, what=("prop", "prop", "mir")):
    p = Prop(rng, np, nodes)
    for n in range(ncases):
        p.s.case("case%d" % n)
        if what[n % len(what)] == "prop":
            p.prop_case(4)
        else:
            p.mir_case(5)
        p.s.add("*", "sync", None, logs=False)
    return p.s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 30 if THOROUGH else 15
    for rep in range(k):
        def add(name, port, np, nodes=1, **kw):
            # (with different numbers of processes on the nodes GA takes every process for a node)
            k = nodes if np % nodes == 0 else np
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, k, **kw), port, np, nodes, {"VERIF_DOMAINS": "1"}))
        add("ts1", "ts", 1)
        add("ts3", "ts", 3)
        add("ts4n2", "ts", 4, 2)
        add("ts6n3", "ts", 6, 3)
        add("ts3n2", "ts", 3, 2)
        add("ts4n4", "ts", 4, 4)
        add("pr4", "pr", 4)
        add("pr6n2", "pr", 6, 2)
        add("pr8n4", "pr", 8, 4)
        add("mt4n2", "mt", 4, 2)
        add("pt6n2", "pt", 6, 2)
        add("mpi34n2", "mpi3", 4, 2)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C21")
    c.model("GAPropMC", "GAPropMCBig" if THOROUGH else None)
    c.model("GAPropMC", "GAPropMCBadKeep", broken=True)
    c.model("GAPropMC", "GAPropMCBadMixed", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
