"""C13: ghost cells hold their neighbours' current values."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

HOW = [0, 0, 0, 8, 9, 1, 2, 4, 44, 6, 7]


class Ghosts(gendata.DataProgram):
    def gspec(self, x, w):
        return list(w) + ([0] if x.cx else [])

    def all(self, x, op, spec=None, **kw):
        self.s.add(self.ranks(x), op, dict(spec or {}, a=x.num), a=x.num, **kw)

    def update(self, x):
        r = self.rng
        f = r.random()
        nz = [i for i, w in enumerate(x.ghost) if w]
        sp = {"a": x.num, "flag": x.flag}
        kw = {"a": x.num}
        self.sync(x)
        if f < 0.6 or not nz:
            sp["f"] = "full"
            how = r.choice(self.hows)
            self.s.add(self.ranks(x), "gup", sp, logs=False, f="full", how=how, **kw)
        elif f < 0.85:
            sp.update(f="dir", d=r.choice(nz) + 1, s=r.choice([-1, 1]), flag=r.randint(0, 1))
            self.s.add(self.ranks(x), "gup", sp, logs=False, f="dir", d=sp["d"], s=sp["s"], flag=sp["flag"], **kw)
        else:
            for k in self.ranks(x):
                if r.random() < 0.3:
                    continue
                m = [r.choice([-1, 0, 1]) if i in nz else 0 for i in range(x.nd)]
                if not any(m):
                    m[r.choice(nz)] = r.choice([-1, 1])
                self.s.add([k], "gup", dict(sp, f="mask", mask=m + ([0] if x.cx else []), r=k), logs=False, f="mask", how=r.randint(0, 1), mask=m, **kw)
        self.sync(x)

    def section(self, x, k):
        """a section that mostly lies in some process's padded block (any: unknown here)"""
        r = self.rng
        lo, hi = [], []
        for d, w in zip(x.dims, x.ghost):
            a = r.randint(-w, d - 1 + w)
            n = r.randint(1, max(1, min(3, d)))
            lo.append(a)
            hi.append(min(a + n - 1, d - 1 + w, a + d - 1))
        return lo, hi

    def look(self, x):
        r = self.rng
        self.all(x, "gread", api=r.choice([0, 0, 1, 1, 2, 4]))
        for k in self.ranks(x):
            if r.random() < 0.4:
                lo, hi = self.section(x, k)
                sp = gendata.cxspec(x, {"a": x.num, "lo": lo, "hi": hi})
                self.s.add([k], "gget", sp, a=x.num, lo=lo, hi=hi, api=r.randint(0, 1), **({"pad": self.pad(x.nd)} if r.random() < 0.3 and x.nd > 1 and self.pad(x.nd) else {}))
        self.sync(x)

    def begin(self, x):
        self.create(x)
        w = self.gspec(x, x.ghost)
        self.all(x, "gblk", {"w": w}, api=self.rng.randint(0, 1))
        x.flag = 1


def program(rng, np, ncases, steps, hows=None, grp=False, types=None):
    p = Ghosts(rng, np)
    p.hows = eval(os.environ.get("VERIF_HOWS", "0")) or hows or HOW
    s = p.s
    for n in range(ncases):
        s.case("case%d" % n)
        arrs, m = [], None
        if grp and np > 1 and rng.random() < 0.7:
            m = sorted(rng.sample(range(np), rng.randint(1, np)))
            s.add(m, "group", None, logs=False, grp=0, list=m)
        for i in range(rng.choice([1, 1, 2])):
            for _ in range(50):
                reg = rng.random() < 0.3
                if reg:
                    # a distribution made by GA: every dimension long enough for any grid
                    k = len(m) if m else np
                    nd = rng.choice([1, 2, 2, 3]) if k < 4 else rng.choice([1, 2])
                    x = gendata.new_array(rng, i, np, types=types, grp=0 if m else None, members=m, kinds=["reg"],
                                          dims=[rng.randint(3 * k, 3 * k + 5) for _ in range(nd)], cx=rng.random() < 0.7)
                    x.kw.pop("chunk", None)
                    x.ghost = [rng.choice([0, 1, 1, 2]) for _ in x.dims]
                    x.kw["ghost"] = x.ghost
                else:
                    x = gendata.new_array(rng, i, np, types=types, grp=0 if m else None, members=m, kinds=["ghost"], cx=rng.random() < 0.7)
                    if x.kind == "ghost":
                        # up to the width of the narrowest block
                        mp, w = x.kw["map"], []
                        for d, k in zip(x.dims, x.kw["nblock"]):
                            st, mp = mp[:k] + [d], mp[k:]
                            mn = min(b - a for a, b in zip(st, st[1:]))
                            w.append(rng.choice([0, 1, mn, mn, rng.randint(0, mn)]) if mn < 6 else rng.choice([0, 1, 2, 3]))
                        x.ghost = w
                        x.kw["ghost"] = w
                if x.ghost and any(x.ghost) and gendata.prod([d + 2 * w * np for d, w in zip(x.dims, x.ghost)]) < 3000:
                    break
            else:
                continue
            p.begin(x)
            arrs.append(x)
        if not arrs:
            continue
        for _ in range(steps):
            x = rng.choice(arrs)
            f = rng.random()
            if f < 0.45:
                p.update(x)
                if rng.random() < 0.8:
                    p.look(x)
            elif f < 0.6:
                p.phase([x], rng.choice(["single", "disjoint", "accall", "readall", "nb"]), rng.choice([1, 2]))
                p.sync(x)
            elif f < 0.75:
                for k in p.ranks(x):
                    if rng.random() < 0.6:
                        s.add([k], "gwrite", {"a": x.num}, a=x.num, n=rng.randint(1, 6), seed=rng.randint(1, 10**6), api=rng.choice([0, 1, 2, 4]))
                p.sync(x)
            elif f < 0.85:
                p.sync(x)
                p.look(x)
                p.sync(x)
            elif f < 0.92:
                x.flag = rng.randint(0, 1)
                p.sync(x)
                s.add(p.ranks(x), "gcorner", None, logs=False, a=x.num, flag=x.flag)
                p.sync(x)
            else:
                p.readback(x)
                p.sync(x)
        for x in arrs:
            p.sync(x)
            p.update(x)
            p.look(x)
            p.readback(x)
            p.sync(x)
        for x in arrs:
            p.destroy(x)
        if m:
            s.add(m, "grpfree", None, logs=False, grp=0)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 50 if THOROUGH else 16
    for rep in range(k):
        def add(name, port, np, nodes=1, env=None, cases=None, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, cases or n, 9, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts2", "ts", 2)
        add("ts3", "ts", 3)
        add("ts4", "ts", 4)
        add("ts4j", "ts", 4, env={"VERIF_JITTER": "200"})
        add("ts5g", "ts", 5, grp=True)
        add("ts6", "ts", 6)
        add("ts8", "ts", 8, cases=max(4, n // 2))
        add("pr4", "pr", 4)
        add("pr4n2", "pr", 4, 2)
        add("pr6n2g", "pr", 6, 2, grp=True)
        add("mt4", "mt", 4)
        add("pt4", "pt", 4)
        add("mpi34", "mpi3", 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C13")
    c.model("GAGhostsMC", "GAGhostsMCBig" if THOROUGH else None)
    c.model("GAGhostsMC", "GAGhostsMCWide")
    c.model("GAGhostsMC", "GAGhostsMCBadWait", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
