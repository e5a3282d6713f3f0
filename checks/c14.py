"""C14: enumerate, scan, pack, unpack, bin and select follow their definition."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01


class Scan(gendata.DataProgram):
    def clone(self, x, num, typ):
        """an array distributed like x"""
        S, S2 = self.rng.choice(gendata.SCALES[typ])
        kw = dict(x.kw, t=typ, S=S, S2=S2)
        return gendata.Arr(num, **dict({k: v for k, v in x.__dict__.items() if k != "num"}, typ=typ, kw=kw))

    def setall(self, x, v):
        k = self.rng.choice(self.ranks(x))
        self.s.add([k], "put", {"a": x.num, "lo": [0] * x.nd, "hi": [d - 1 for d in x.dims], "v": v}, a=x.num,
                   lo=[0] * x.nd, hi=[d - 1 for d in x.dims], v=v)
        self.sync(x)

    def make(self, x):
        self.s.add("*", "create", {"a": x.num, "dims": x.dims, "x": 0}, logs=False, a=x.num, **x.kw)
        self.s.add("*", "zero", {"a": x.num, "x": 0}, logs=False, a=x.num)

    def marks(self, n):
        r = self.rng
        p = r.choice([0, 0.02, 0.05, 0.1, 0.3, 0.6, 0.95, 1])
        m = [r.choice([1, 1, -1, 2, 7]) if r.random() < p else 0 for _ in range(n)]
        if r.random() < 0.5:
            m[r.choice([0, n - 1, r.randrange(n)])] = r.choice([1, -3])
        return m

    def range(self, n):
        r = self.rng
        if r.random() < 0.4:
            return 0, n - 1
        lo, hi = sorted((r.randrange(n), r.randrange(n)))
        return (lo, hi) if r.random() < 0.8 else (lo, lo)

    def scan_case(self, steps, maxlen):
        r = self.rng
        types = gendata.TYPES
        n = r.randint(1, maxlen)
        t = r.choice(types)
        x = gendata.new_array(r, 0, self.np, typ=t, dims=[n], kinds=["reg", "irreg", "irreg", "irreg", "restricted"])
        y = self.clone(x, 1, t)
        y.kw['S'], y.kw['S2'] = x.kw['S'], x.kw['S2']
        m = self.clone(x, 2, r.choice(types))
        z = gendata.new_array(r, 3, self.np, typ=t, dims=[n + r.choice([0, 0, 1, 5])], kinds=["reg", "irreg", "bc", "tiled", "restricted"])
        z.kw["S"], z.kw["S2"] = x.kw["S"], x.kw["S2"]
        arrs = [x, y, m, z]
        for a in arrs:
            self.make(a)
        self.setall(m, self.marks(n))
        for a in (x, y, z):
            self.setall(a, self.vals(a.size))
        known = [x, y]
        for _ in range(steps):
            lo, hi = self.range(n)
            api = r.randint(0, 2)
            f = r.choice(["enum", "copy", "add", "add", "add", "pack", "unpack", "pack", "mask", "fresh"])
            w = {"lo": lo, "hi": hi}
            if f == "mask":
                self.setall(m, self.marks(n))
                continue
            if f == "fresh":
                a = r.choice([x, y, z])
                self.setall(a, self.vals(a.size))
                continue
            if f == "enum":
                a = r.choice([x, y, m, z]) if z.kind in ("reg", "irreg", "restricted") else r.choice([x, y, m])
                st, inc = r.randint(-500, 500), r.choice([0, 1, -1, 3, -7])
                self.s.add("*", "enum", dict(w, op="scan", f="enum", d=a.num, start=st, inc=inc), logs=False, a=a.num, api=api,
                           start=st, inc=inc, **w)
            else:
                s, d = r.sample([x, y], 2)
                if f == "pack" and r.random() < 0.7:
                    d = z
                if f == "unpack" and r.random() < 0.7:
                    s = z
                sp = dict(w, op="scan", f=f, s=s.num, d=d.num, m=m.num)
                kw = dict(w, f=f, s=s.num, d=d.num, m=m.num, api=api)
                if f == "add":
                    sp["excl"] = kw["excl"] = r.randint(0, 1)
                if f in ("pack", "unpack"):
                    self.s.add("*", "pack", sp, **kw)
                else:
                    self.s.add("*", "scan", sp, logs=False, **kw)
                if f == "add":     # keep sums small
                    self.readback(d)
                    self.sync(d)
                    self.setall(d, self.vals(d.size))
                    continue
            self.sync(x)
            if r.random() < 0.6:
                self.readback(r.choice([x, y, z]))
                self.sync(x)
        for a in (x, y, z):
            self.readback(a)
        self.sync(x)
        for a in arrs:
            self.destroy(a)

    def select_case(self, steps):
        r = self.rng
        typ = r.choice(gendata.TYPES)
        x = gendata.new_array(r, 4, self.np, typ=typ, maxcells=60)
        self.make(x)
        for _ in range(steps):
            m = r.choice([0, 1, 3, 900])
            v = [r.randint(-m, m) for _ in range(x.size)]
            if r.random() < 0.3:
                v = [abs(u) + 5 for u in v]
            elif r.random() < 0.3:
                v = [-abs(u) - 5 for u in v]
            self.setall(x, v)
            for f in r.sample(["min", "max"], r.randint(1, 2)):
                self.s.add("*", "select", {"a": x.num, "f": f, "mod": 1 if typ in ("scpl", "dcpl") else 0}, a=x.num, f=f, api=r.randint(0, 1))
            self.sync(x)
        self.readback(x)
        self.sync(x)
        self.destroy(x)

    def bin_case(self, big=False):
        r, np = self.rng, self.np
        srt = r.random() < 0.6
        nb = r.randint(1, 3 * np)
        if srt:
            cnt = [r.randint(1, 6) for _ in range(nb)]
        else:
            cnt = [r.choice([0, 0, 1, 2, 3, 7]) for _ in range(nb)]
            if not any(cnt):
                cnt[r.randrange(nb)] = 2
        tot = sum(cnt)
        extra = 0
        if big:
            extra = 2100
        off = [sum(cnt[:i]) for i in range(nb)]
        n = max(tot + extra, nb)        # bin numbers may not exceed the length
        if srt and n > tot:
            cnt[-1] += n - tot
            tot = n
        if srt:
            # every process's piece begins and ends with a bin
            k = min(nb, r.randint(1, np))
            st = [0] + sorted(r.sample(off[1:], k - 1))
            bkw = {"kind": "irreg", "nblock": [k], "map": st}
        else:
            k = min(n, r.randint(1, np))
            bkw = {"kind": "irreg", "nblock": [k], "map": [0] + sorted(r.sample(range(1, n), k - 1))}
        kws = {"t": "long", "S": 1, "S2": 1, "api": 0}
        b = gendata.Arr(5, dims=[n], nd=1, typ="long", kind="irreg", e=[1], blk=1, cx=False, members=None, grp=None, size=n, kw=dict(kws, dims=[n], **bkw))
        c = gendata.new_array(r, 6, np, typ="long", dims=[nb], kinds=["reg", "irreg"])
        c.kw.update(S=1, S2=1)
        o = self.clone(c, 7, "long")
        o.kw.update(S=1, S2=1)
        for a in (b, c, o):
            self.make(a)
        self.setall(c, cnt)
        self.setall(o, off)
        self.setall(b, [r.randint(-900, 900) for _ in range(n)])
        for _ in range(2):
            give = [[] for _ in range(np)]
            for i, k in enumerate(cnt):
                for _ in range(k):
                    give[r.randrange(np) if r.random() < 0.8 else i % np].append((r.randint(-400, 400), i + 1))
            words, allin = {}, []
            for p in range(np):
                give[p].sort(key=lambda t: t[1])
                if give[p]:
                    words["v%d" % p] = [t[0] for t in give[p]]
                    words["s%d" % p] = [t[1] for t in give[p]]
                allin += [list(t) for t in give[p]]
            self.s.add("*", "bins", {"b": 5, "c": 6, "o": 7, "sort": int(srt), "in": allin}, b=5, c=6, o=7, sort=int(srt), how=r.randint(0, 1), **words)
            self.sync(b)
        self.readback(b)
        self.sync(b)
        for a in (b, c, o):
            self.destroy(a)


def program(rng, np, ncases, steps, maxlen=70, what=("scan", "scan", "scan", "select", "select", "bin"), big=False):
    p = Scan(rng, np)
    for n in range(ncases):
        p.s.case("case%d" % n)
        k = what[n % len(what)]
        if k == "scan":
            p.scan_case(steps, rng.choice([np, 2 * np, maxlen]))
        elif k == "select":
            p.select_case(3)
        else:
            p.bin_case()
        p.s.add("*", "sync", None, logs=False)
    if big:
        p.s.case("big")
        p.bin_case(True)
    return p.s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 60 if THOROUGH else 24
    for rep in range(k):
        def add(name, port, np, nodes=1, env=None, cases=None, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, cases or n, 12, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts2", "ts", 2)
        add("ts3", "ts", 3)
        add("ts4", "ts", 4, big=True)
        add("ts4j", "ts", 4, env={"VERIF_JITTER": "300"})
        add("ts5", "ts", 5)
        add("ts6bin", "ts", 6, what=("bin",))
        add("ts8", "ts", 8)
        add("pr4", "pr", 4)
        add("pr6n2", "pr", 6, 2)
        add("mt4", "mt", 4)
        add("pt4", "pt", 4)
        add("mpi34", "mpi3", 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C14")
    c.model("GAScanMC", "GAScanMCBig" if THOROUGH else None)
    c.model("GAScanMC", "GAScanMCBadBarrier", broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
