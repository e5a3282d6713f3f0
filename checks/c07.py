"""C07: the distribution partitions the array, and all queries agree on it."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
from gendata import prod
import c01

KINDS = ["reg", "irreg", "bc", "scalapack", "tiled", "tiledirreg", "restricted", "ghost"]


class Dist(gendata.DataProgram):
    def request(self, x):
        """what was asked for, for the specification"""
        q = {"dims": x.dims, "kind": x.kind, "n": len(self.ranks(x))}
        for k in ("nblock", "map", "block", "grid", "restrict"):
            if k in x.kw:
                q[k] = x.kw[k]
        if "chunk" in x.kw and x.kind == "reg":
            q["chunk"] = [c if c > 0 else 1 for c in x.kw["chunk"]]
        return q

    def make(self, x, data):
        who = x.members if x.members else "*"
        if data:
            self.create(x)
        else:
            self.s.add(who, "create", None, logs=False, a=x.num, **x.kw)
        self.s.note("dcreate", a=x.num, q=self.request(x))

    def section(self, dims):
        """sections of all widths: single cells, thin slices, block-sized, everything"""
        r, lo, hi = self.rng, [], []
        for d in dims:
            w = r.choice([1, 1, 2, 3, 5, max(1, d // 7), max(1, d // 3), max(1, d // 2), d])
            w = min(w, d)
            a = r.randint(0, d - w)
            lo.append(a)
            hi.append(a + w - 1)
        return lo, hi

    def ask(self, x, all_points=False, who=None, nbox=4, npts=10):
        r, dims, n = self.rng, x.dims, x.nd
        for k in (who or self.ranks(x)):
            if all_points and x.size <= 40:
                pts = []
                for i in range(x.size):
                    c = []
                    for d in reversed(dims):
                        c.append(i % d)
                        i //= d
                    pts += c[::-1]
            else:
                pts = [p for _ in range(npts) for p in [r.choice([0, d - 1, r.randrange(d), r.randrange(d)]) for d in dims]]
            boxes = []
            for _ in range(nbox):
                lo, hi = self.section(dims)
                boxes += lo + hi
            kw = {"a": x.num, "pts": pts, "boxes": boxes}
            self.s.add([k], "dist", kw, api=r.choice([0, 1, 2]), **kw)


def big_dims(rng, nd):
    while True:
        d = [rng.choice([1, 7, 10, 33, 100, 257, 1000, 4096]) if nd > 1 else rng.randint(1000, 300000) for _ in range(nd)]
        if 100 <= prod(d) <= 400000:
            return d


def program(rng, np, ncases, groups=True):
    p = Dist(rng, np)
    s = p.s
    everyone = list(range(np))
    for c in range(ncases):
        s.case("case%d" % c)
        g, m = None, None
        if groups and np > 1 and rng.random() < 0.3:
            m = sorted(rng.sample(everyone, rng.randint(1, np)))
            g = 0
            s.add(m, "group", None, logs=False, grp=g, list=m)
        arrs = []
        kind = rng.choice(["reg", "irreg", "restricted", "ghost"] if g is not None else KINDS)
        # arrays with data: every owner's memory is looked at
        for num in range(2):
            x = gendata.new_array(rng, num, np, maxcells=90, kinds=[kind if num == 0 else rng.choice(KINDS)], grp=g, members=m)
            p.make(x, True)
            arrs.append(x)
        # a second array from the same request
        y = gendata.Arr(2, **{k: v for k, v in arrs[0].__dict__.items() if k != "num"})
        p.make(y, False)
        # arrays too big for their data to be looked at
        for num in (3, 4):
            nd = rng.choice([1, 1, 2, 2, 3, 4])
            x = gendata.new_array(rng, num, np, dims=big_dims(rng, nd), typ=rng.choice(["int", "flt", "dbl"]), kinds=[kind if num == 3 else rng.choice(KINDS)],
                                  grp=g, members=m)
            if x.kind in ("bc", "scalapack", "tiled"):   # not too many blocks
                x.kw["block"] = [max(1, d // rng.choice([1, 2, 3, 5])) - rng.choice([0, 0, 1 if d > 20 else 0]) for d in x.dims]
            p.make(x, False)
            arrs.append(x)
        for x in arrs:
            p.ask(x, all_points=True)
        p.ask(y, who=[rng.choice(p.ranks(y))])
        for k in rng.sample(p.ranks(y), 1):
            for a, b in ((0, 2), (0, 1), (1, 2), (3, 0), (3, 4)):
                s.add([k], "compare", {"a": a, "b": b}, a=a, b=b)
        for x in arrs[:2]:
            for rnd in range(2):
                p.sync(x)
                # what is stored by direct access, everybody's gets see; what is put, direct access sees
                ad = rng.choice([0, rng.randint(1, 9)])
                for i, k in enumerate(p.ranks(x)):
                    kw = {"a": x.num}
                    if ad:
                        kw["add"] = ad
                    s.add([k], "local", dict(kw, pos=i), **kw)
                s.note("localend", a=x.num)
                p.sync(x)
                for k in rng.sample(p.ranks(x), min(2, len(p.ranks(x)))):
                    p.readback(x, k)
                p.sync(x)
                k = rng.choice(p.ranks(x))
                for _ in range(2):
                    p.op(k, x, rng.choice(["put", "scatter", "sput"]))
        for x in arrs[:2]:
            p.sync(x)
        for x in reversed(arrs + [y]):
            if x.num in (0, 1):
                p.destroy(x)
            else:
                s.add(x.members if x.members else "*", "destroy", None, logs=False, a=x.num)
        if g is not None:
            s.add(m, "grpfree", None, logs=False, grp=g)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 16 if THOROUGH else 10
    for rep in range(k):
        def add(name, port, np, nodes=1, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, **kw), port, np, nodes))
        for np in (1, 2, 3, 4, 6, 7):
            add("ts%d" % np, "ts", np)
        add("pr4", "pr", 4)
        add("pr6n2", "pr", 6, 2)
        add("pr5n5", "pr", 5, 5)
        add("mt4n2", "mt", 4, 2)
        add("pt4", "pt", 4)
        add("mpi34", "mpi3", 4)
        if THOROUGH:
            add("ts12", "ts", 12)
            add("pr8n4", "pr", 8, 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C07")
    c.model("GADistMC", "GADistMCBig" if THOROUGH else None)
    c.model("GADistMC", "GADistMCBad", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
