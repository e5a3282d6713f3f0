"""C08: array handles, memory, creation and destruction."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
LIMIT = 10000000


class Life(gendata.DataProgram):
    def name(self):
        return "".join(self.rng.choice(CH) for _ in range(self.rng.choice([1, 2, 7, 15, 28])))

    def who(self, x):
        return x.members if x.members else "*"

    def data(self, x):
        """new memory: contents are unknown until filled"""
        self.s.note("create", **gendata.cxspec(x, {"a": x.num, "dims": x.dims, "x": 0}))
        self.s.add(self.who(x), "zero", {"a": x.num, "x": 0}, logs=False, a=x.num)
        self.init(x)

    def born(self, x):
        x.name = x.kw["name"] = self.name()
        want = {"name": x.name, "typ": x.typ, "dims": [d * f for d, f in zip(x.dims, x.e)], "grp": -1 if x.grp is None else x.grp,
                "cyc": 1 if x.kind in ("bc", "scalapack", "tiled", "tiledirreg") else 0}
        self.s.add(self.who(x), "lcreate", {"a": x.num, "want": want}, a=x.num, **x.kw)
        self.data(x)
        x.on = True

    def dup(self, x, num):
        y = gendata.Arr(num, **{k: v for k, v in x.__dict__.items() if k != "num"})
        y.name = self.name()
        self.s.add(self.who(x), "ldup", {"a": num, "from": x.num, "want": {"name": y.name}}, a=num, name=y.name, **{"from": x.num})
        self.data(y)
        y.on = True
        return y

    def fail(self, g, m, np, num, dup=None):
        """a creation that some member has not enough memory for"""
        r = self.rng
        who = m if m else "*"
        n = len(m) if m else np
        if dup:
            self.s.add(who, "ldup", {"op": "lfail", "a": num}, a=num, name=self.name(), **{"from": dup})
            return
        kw = {"t": "dbl", "name": self.name(), "api": r.choice([0, 1, 4])}
        if g is not None:
            kw["grp"] = g
        if r.random() < 0.6 and n > 1:
            # one member has the most of it
            k = r.randrange(n)
            big = LIMIT // 4
            cuts, at = [], 0
            for i in range(n):
                cuts.append(at)
                at += big if i == k else 3
            kw.update(dims=[at], nblock=[n], map=cuts)
        else:
            kw["dims"] = [LIMIT // 4 * n]
        self.s.add(who, "lcreate", {"op": "lfail", "a": num}, a=num, **kw)


def program(rng, np, ncases, steps, groups=True, limit0=False, limits=True):
    p = Life(rng, np)
    s = p.s
    everyone = list(range(np))
    for c in range(ncases):
        s.case("case%d" % c)
        if limit0:
            s.note("linitlimit", x=LIMIT, n=np)
        lim = LIMIT if limit0 else None
        scopes = [(None, None)]
        if groups and np > 1:
            for g in range(rng.choice([0, 1, 2])):
                m = sorted(rng.sample(everyone, rng.randint(1, np)))
                s.add(m, "group", None, logs=False, grp=g, list=m)
                scopes.append((g, m))
        live, free, dead = [], list(range(12)), []
        for _ in range(steps):
            k = rng.random()
            on = [x for x in live if x.on]
            g, m = rng.choice(scopes)
            if k < 0.28 and len(live) < 9 or not live:
                x = gendata.new_array(rng, free.pop(rng.randrange(len(free))), np, maxcells=40, grp=g, members=m,
                                      cx=rng.random() < 0.3, expand=rng.choice([None, None, None, 200]))
                p.born(x)
                live.append(x)
            elif k < 0.4 and len(live) < 9 and on:
                x = rng.choice(on)
                y = p.dup(x, free.pop(rng.randrange(len(free))))
                live.append(y)
            elif k < 0.52:
                x = live.pop(rng.randrange(len(live)))
                if x.on:
                    for q in p.ranks(x)[:1]:
                        p.readback(x, q)
                    s.add(p.who(x), "ldestroy", {"a": x.num}, a=x.num, api=rng.choice([0, 1]))
                    s.note("destroy", a=x.num)
                    free.append(x.num)
                    dead.append(x)
                else:
                    live.append(x)
            elif k < 0.60 and on:
                x = rng.choice(on)
                s.add(p.who(x), "ldealloc", {"a": x.num}, a=x.num)
                s.note("destroy", a=x.num)
                x.on = False
            elif k < 0.70 and len(on) < len(live):
                x = rng.choice([y for y in live if not y.on])
                s.add(p.who(x), "lalloc", {"a": x.num}, a=x.num)
                p.data(x)
                x.on = True
            elif k < 0.76 and limits:
                if lim is None or rng.random() < 0.6:
                    lim = rng.choice([LIMIT, LIMIT + 12345, LIMIT - 777])
                    s.add("*", "llimit", {"x": lim}, x=lim)
                elif not limit0:
                    lim = None
                    s.add("*", "llimit", {"x": -1}, x=-1)
            elif k < 0.84 and lim:
                if on and rng.random() < 0.4 and len(free) > 1:
                    # an array that fits once, but not twice
                    n = len(m) if m else np
                    x = gendata.new_array(rng, free.pop(), np, dims=[2], typ="dbl", grp=g, members=m, kinds=["reg"])
                    f = 350000 * n
                    x.e, x.blk = [f], f
                    x.kw.update(e=[f], api=0, S=1, pos=0)
                    x.kw.pop("chunk", None)
                    p.born(x)
                    p.fail(g, m, np, free[-1], dup=x.num)
                    s.add(p.who(x), "ldestroy", {"a": x.num}, a=x.num)
                    s.note("destroy", a=x.num)
                    free.append(x.num)
                else:
                    p.fail(g, m, np, free[-1])
            elif on:
                x = rng.choice(on)
                p.sync(x)
                boxes = p.slabs(x, len(p.ranks(x)))
                for q, b in zip(rng.sample(p.ranks(x), len(boxes)), boxes):
                    p.op(q, x, rng.choice(["put", "put", "scatter"] + ([] if x.typ == "llong" else ["acc"])), within=b)
                p.sync(x)
            # anybody looks at anything
            for q in everyone:
                mine = [x for x in live if q in p.ranks(x)]
                if mine and rng.random() < 0.5:
                    x = rng.choice(mine)
                    s.add([q], "lq" if x.on else "lold", {"a": x.num}, a=x.num)
                gone = [x for x in dead if q in p.ranks(x) and x.num in free]
                if gone and rng.random() < 0.3:
                    x = rng.choice(gone)
                    s.add([q], "lold", {"a": x.num}, a=x.num)
                ons = [x for x in mine if x.on]
                if ons and rng.random() < 0.2:
                    L = [x.num for x in ons]
                    s.add([q], "lptr", {}, arrs=L)
                if ons and rng.random() < 0.3:
                    p.readback(rng.choice(ons), q)
        for x in live:
            if x.on:
                for q in rng.sample(p.ranks(x), 1):
                    p.readback(x, q)
        while live:
            x = live.pop(rng.randrange(len(live)))
            if not x.on:
                s.add(p.who(x), "lalloc", {"a": x.num}, a=x.num)
                s.note("create", a=x.num, dims=x.dims, x=0)
            s.add(p.who(x), "ldestroy", {"a": x.num}, a=x.num)
            s.note("destroy", a=x.num)
        if lim and not limit0:
            s.add("*", "llimit", {"x": -1}, x=-1)
        elif limit0 and lim != LIMIT:
            s.add("*", "llimit", {"x": LIMIT}, x=LIMIT)
        for g, m in scopes[:0:-1]:
            s.add(m, "grpfree", None, logs=False, grp=g)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 12 if THOROUGH else 7
    for rep in range(k):
        def add(name, port, np, nodes=1, env=None, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, n, 26, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts3", "ts", 3)
        add("ts4", "ts", 4)
        add("ts4l", "ts", 4, env={"VERIF_GALIMIT": str(LIMIT)}, limit0=True)
        add("ts6", "ts", 6)
        add("pr4", "pr", 4)
        add("pr4n2", "pr", 4, 2)
        add("pr4p2", "pr", 4, 1, {"GA_NUM_PROGRESS_RANKS_PER_NODE": "2"})
        add("mt4", "mt", 4)
        add("pt4n2", "pt", 4, 2)
        add("mpi34", "mpi3", 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C08")
    c.model("GALifeMC", "GALifeMCBig" if THOROUGH else None)
    for b in ("Reuse", "Undo", "Limit"):
        c.model("GALifeMC", "GALifeMCBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
