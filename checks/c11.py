"""C11: whole-array and patch operations equal their element-wise definition."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01

BC = ("bc", "scalapack", "tiled", "tiledirreg")
CPL = ("scpl", "dcpl")
FL = ("flt", "dbl") + CPL


class Elem(gendata.DataProgram):
    """Every array carries a bound (mx) of the absolute values of its contents."""

    def grid(self, x):
        return x.kind in BC

    # -- contents
    def setall(self, x, v, mx):
        k = self.rng.choice(self.ranks(x))
        lo, hi = [0] * x.nd, [d - 1 for d in x.dims]
        self.s.add([k], "put", gendata.cxspec(x, {"a": x.num, "lo": lo, "hi": hi, "v": v}), a=x.num, lo=lo, hi=hi, v=v)
        self.sync(x)
        x.mx = mx

    def fresh(self, x, m=30):
        self.setall(x, [self.rng.randint(-m, m) for _ in range(x.size * (2 if x.cx else 1))], m)

    def pow2s(self, x, lim):
        """numbers that divide exactly"""
        r, out = self.rng, []
        c = [1 << i for i in range(lim.bit_length())]
        for _ in range(x.size):
            a = r.choice([-1, 1]) * r.choice(c)
            if x.cx:
                # (re, im) with |re| = |im| or one of them zero: the modulus squared is a power of two
                out += r.choice([[a, 0], [0, a]] + ([[a, a], [a, -a]] if 2 * abs(a) <= lim else []))
            else:
                out.append(a)
        self.setall(x, out, lim)

    # -- patches
    def box1(self, x):
        return tuple(map(tuple, self.box(x.dims)))

    def whole(self, x):
        return tuple([0] * x.nd), tuple(d - 1 for d in x.dims)

    def shape(self, p):
        return [h - l + 1 for l, h in zip(*p)]

    def at(self, x, sh):
        """a patch of x of shape sh"""
        if len(sh) != x.nd or any(s > d for s, d in zip(sh, x.dims)):
            return None
        lo = [self.rng.randint(0, d - s) for s, d in zip(sh, x.dims)]
        return tuple(lo), tuple(l + s - 1 for l, s in zip(lo, sh))

    def like(self, x, sh, free, rev=False):
        """a patch of x with as many elements as shape sh; free: of any shape"""
        if rev:
            return self.at(x, sh[::-1])
        p = self.at(x, sh)
        if free and (p is None or self.rng.random() < 0.4):
            n = gendata.prod(sh)
            opts = [c for c in itertools.product(*[[k for k in range(1, d + 1) if n % k == 0] for d in x.dims])
                    if gendata.prod(c) == n]
            if opts:
                return self.at(x, list(self.rng.choice(opts)))
        return p

    def apart(self, x, p, y, q):
        return x.num != y.num or p == q or any(h1 < l2 or h2 < l1 for l1, h1, l2, h2 in zip(p[0], p[1], q[0], q[1]))

    # -- one operation
    def emit(self, f, arrs, pats, w, tr=0, **kw):
        """arrs/pats: by letter c, a, b, m"""
        c = arrs["c"]
        spec = {"f": f, "cx": 1 if c.cx else 0, "tr": tr, "D": c.D}
        words = {"f": f, "api": self.rng.choice([0, 0, 1, 2])}
        if tr:
            words["tr"] = 1
        for k, x in arrs.items():
            lo, hi = pats[k]
            spec[k.upper()] = {"a": x.num, "lo": lo, "hi": hi}
            words[k] = x.num
            if not w:
                words[k + "lo"], words[k + "hi"] = lo, hi
        if w:
            words["w"] = 1
        spec.update(kw)
        words.update(kw)
        who = self.who
        self.s.add(who, "elem", spec, logs=False, **words)
        self.say(f)
        # the operation is collective; what follows is one-sided by others
        self.sync(c)

    def say(self, f):
        self.count[f] = self.count.get(f, 0) + 1

    def number(self, x, m):
        return [self.rng.randint(-m, m) for _ in range(2 if x.cx else 1)]

    def factor(self, x):
        return [self.rng.choice([0, 1, 1, -1, 2, -2, 3])] + ([self.rng.choice([0, 0, 1, -1])] if x.cx else [])

    def room(self, x, m):
        return m <= x.cap

    def choose(self, arrs, same, n, alias):
        r = self.rng
        out = []
        for _ in range(n):
            out.append(r.choice(out) if out and r.random() < alias else r.choice(arrs))
        return out

    def step(self, arrs, nl, explicit=False):
        """one operation; returns False if the draw was not possible"""
        r = self.rng
        c = r.choice(arrs)
        typ = c.typ
        image = typ in CPL and not c.cx          # complex numbers v*S + i*v*S2: only what is linear
        fs = ["fill", "zero", "copy", "copy", "add", "scale"]
        if typ != "llong":
            fs += ["addc"]
            if not image:
                fs += ["abs", "max", "min"] + ([] if c.cx else ["median"])
        if nl:
            fs += ["mul", "div", "recip"] * 2 + ["dot"] * 2
            if typ in ("int", "long", "flt", "dbl"):
                fs += ["stepmax", "bounds"]
            if typ == "llong":
                fs = [f for f in fs if f not in ("mul", "div", "recip")]
        if explicit:
            fs = [f for f in fs if f in ("fill", "zero", "scale", "copy")]
        f = r.choice(fs)
        m = c.mx
        w = r.random() < 0.35 or explicit and f != "copy"
        pc = self.whole(c) if w or r.random() < 0.15 else self.box1(c)
        sh = self.shape(pc)
        if f in ("fill", "zero", "addc", "scale", "abs", "recip"):
            if f == "fill":
                self.emit(f, {"c": c}, {"c": pc}, w, x=self.number(c, 900))
                c.mx = max(m, 900)
            elif f == "zero":
                self.emit(f, {"c": c}, {"c": pc}, w)
            elif f == "addc":
                if not self.room(c, m + 500):
                    return False
                self.emit(f, {"c": c}, {"c": pc}, w, x=self.number(c, 500))
                c.mx = m + 500
            elif f == "scale":
                al = self.factor(c)
                k = max(1, sum(map(abs, al)))
                if not self.room(c, k * m):
                    return False
                self.emit(f, {"c": c}, {"c": pc}, w, al=al)
                c.mx = k * m
            elif f == "abs":
                if c.cx:
                    v = []
                    for _ in range(c.size):
                        a, b = r.choice([(3, 4), (5, 12), (8, 15), (0, 7), (1, 0), (0, 0), (20, 21)])
                        v += [r.choice([-1, 1]) * a, r.choice([-1, 1]) * b]
                    self.setall(c, v, 29)
                self.emit(f, {"c": c}, {"c": pc}, w)
                c.mx = 2 * c.mx
            elif f == "recip":
                self.pow2s(c, c.D)
                self.emit(f, {"c": c}, {"c": pc}, w)
                c.mx = c.D * c.D
            return True
        gridded = [x for x in arrs if self.grid(x)]
        n = {"copy": 1, "dot": 1, "stepmax": 1, "median": 3, "bounds": 3}.get(f, 2)
        others = self.choose(arrs, True, n, 0.25)
        use = [c] + others
        # one shape for all where the operands are not all of one regular kind
        free = not any(self.grid(x) or x.blk > 1 for x in use)
        if f == "copy":
            a = others[0]
            tr = 0
            if not w and free and r.random() < 0.3 and c.nd == a.nd:
                tr = 1
            pa = self.whole(a) if w else self.like(a, sh, free or False, rev=tr and r.random() < 0.7)
            if w and a.dims != c.dims:
                return False
            if pa is None or not self.apart(a, pa, c, pc) or (a is c and pa != pc and False):
                return False
            if a is c and (tr or w):
                return False
            self.emit(f, {"a": a, "c": c}, {"a": pa, "c": pc}, w, tr=tr)
            c.mx = max(m, a.mx)
            return True
        if f == "dot":
            a = others[0]
            if image or (a.grp != c.grp):
                return False
            ta = tb = 0
            rev = False
            if not w and free and r.random() < 0.3 and a.nd == c.nd:
                rev = True
                ta, tb = r.choice([(0, 1), (1, 0)])
            pa = self.whole(a) if w else self.like(a, sh, free and not rev, rev=rev)
            if w and a.dims != c.dims or pa is None or a is c and pa != pc:
                return False
            lim = (1 << 24) if typ in ("flt", "scpl") else 1 << 31
            if a.mx * m * gendata.prod(sh) * c.blk * 2 >= lim:
                for x in (a, c):
                    self.fresh(x, 9)
                if 81 * gendata.prod(sh) * c.blk * 2 >= lim:
                    return False
            sp = {"A": {"a": a.num, "lo": pa[0], "hi": pa[1]}, "B": {"a": c.num, "lo": pc[0], "hi": pc[1]},
                  "cx": 1 if c.cx else 0, "tr": 1 if rev else 0, "k": c.blk}
            kw = {"a": a.num, "b": c.num, "api": r.choice([0, 1])}
            if w:
                kw["w"] = 1
            else:
                kw.update(alo=pa[0], ahi=pa[1], blo=pc[0], bhi=pc[1], ta=ta, tb=tb)
            self.s.add(self.who, "dot", sp, **kw)
            self.say(f)
            self.sync(c)
            return True
        if f in ("stepmax", "bounds"):
            # x, v (and bounds) with the same patch
            xs = [c] + others
            if any(x.dims != c.dims for x in xs) or len(set(x.num for x in xs)) < len(xs):
                return False
            # the operands of this one have to have the same distribution
            if f == "bounds" and (len(arrs) < 4 or not self.alike):
                return False
            D, lim = c.D, c.D
            self.pow2s(others[0], lim)
            sgn = r.choice([1, 1, -1, 0])
            vv = []
            for _ in range(c.size):
                b = r.choice([1 << i for i in range(lim.bit_length())])
                b *= sgn if sgn else r.choice([-1, 1])
                vv.append(0 if r.random() < 0.15 else b)
            self.setall(others[0], vv, lim)
            if f == "stepmax":
                self.setall(c, [r.randint(0, 60) for _ in range(c.size)], 60)
                names = {"a": c, "b": others[0]}
            else:
                xx = [r.randint(-30, 30) for _ in range(c.size)]
                self.setall(c, xx, 30)
                self.setall(others[1], [x - r.choice([0, 1, 5, 16, 33]) for x in xx], 70)
                self.setall(others[2], [x + r.choice([0, 1, 5, 16, 33]) for x in xx], 70)
                names = {"a": c, "b": others[0], "m": others[1], "u": others[2]}
            pats = {k: pc for k in names}
            sp = {k.upper(): {"a": x.num, "lo": pc[0], "hi": pc[1]} for k, x in names.items()}
            sp.update(D=D)
            kw = {"api": r.choice([0, 1])}
            for k, x in names.items():
                kw[k] = x.num
                if not w:
                    kw[k + "lo"], kw[k + "hi"] = pc
            if w:
                kw["w"] = 1
            self.s.add(self.who, f, sp, **kw)
            self.say(f)
            self.sync(c)
            return True
        # operations with two or three operands
        pats = {"c": pc}
        names = {"c": c}
        for k, x in zip("abm", others):
            q = self.whole(x) if w else self.like(x, sh, free)
            if q is None or w and x.dims != c.dims:
                return False
            pats[k], names[k] = q, x
        for k, l in itertools.combinations(names, 2):
            if not self.apart(names[k], pats[k], names[l], pats[l]):
                return False
        kw = {}
        a, b = others[0], others[1]
        if f == "add":
            kw = {"al": self.factor(c), "be": self.factor(c)}
            top = sum(map(abs, kw["al"])) * a.mx + sum(map(abs, kw["be"])) * b.mx
            if not self.room(c, top):
                return False
        elif f in ("max", "min", "median"):
            if c.cx:
                if a is b:
                    return False
                # squares of moduli that are never equal
                self.setall(a, [2 * r.randint(-20, 20) for _ in range(2 * a.size)], 40)
                v = []
                for _ in range(b.size):
                    v += [2 * r.randint(-20, 20) + 1, 2 * r.randint(-20, 20)]
                self.setall(b, v, 42)
                if a is c or b is c:
                    m = 42
            top = max(x.mx for x in others)
        elif f == "mul":
            D = c.D
            if a is b and D > 1:
                return False
            la = 15
            self.setall(a, [D * r.randint(-la, la) if D > 1 else r.randint(-la, la) for _ in range(a.size * (2 if a.cx else 1))], la * D)
            if b is not a:
                self.fresh(b, 40)
            top = 2 * 15 * 40 * (1 if D > 1 else 1)
        elif f == "div":
            D = c.D
            if a is b:
                return False
            self.fresh(a, 60)
            if b is not a:
                if typ in ("int", "long"):
                    self.setall(b, [r.choice([-1, 1]) * r.choice([1, 2, 3, 7, 61]) for _ in range(b.size)], 61)
                else:
                    self.pow2s(b, D)
            top = 60 * 2 * D
        self.emit(f, names, pats, w, **kw)
        c.mx = max(c.mx, top)
        return True


def program(rng, np, ncases, steps, expand=None, grp=True, maxcells=60, kinds=None):
    p = Elem(rng, np)
    s = p.s
    for n in range(ncases):
        s.case("case%d" % n)
        g = m = None
        p.who = "*"
        if grp and np > 2 and rng.random() < 0.35:
            m = sorted(rng.sample(range(np), rng.randint(2, np)))
            g = 0
            s.add(m, "group", None, logs=False, grp=0, list=m)
            p.who = m
            deflt = rng.random() < 0.6
            if deflt:
                s.add(m, "defgrp", None, logs=False, grp=0)
        explicit = g is not None and not deflt
        typ = rng.choice(gendata.TYPES + ["flt", "dbl"])
        cx = typ in CPL and rng.random() < 0.75
        nl = not (typ in CPL and not cx) and rng.random() < 0.5
        D = rng.choice([1, 16]) if nl and typ in FL else 1
        arrs = []
        alike = nl and rng.random() < 0.4
        for k in range(rng.choice([3, 3, 4])):
            dims = nd = None
            if arrs:
                d0 = arrs[0].dims
                if expand or rng.random() < 0.7:
                    dims = d0
                elif rng.random() < 0.5:
                    dims = rng.sample(d0, len(d0))
            x = gendata.new_array(rng, k, np, typ=typ, maxcells=maxcells, grp=g, members=m, dims=dims, kinds=kinds,
                                  expand=expand if not arrs else None)
            if arrs and expand:
                x0 = arrs[0]
                # the same blocks: only the distribution differs
                k2 = {"e": x0.kw.get("e"), "pos": 0}
                big = gendata.new_array(rng, k, np, typ=typ, grp=g, members=m, dims=[d * e for d, e in zip(x0.dims, x0.e)],
                                        kinds=kinds)
                x = gendata.Arr(k, **{a: b for a, b in big.__dict__.items() if a != "num"})
                x.dims, x.e, x.blk, x.size = list(x0.dims), list(x0.e), x0.blk, x0.size
                x.kw = dict(big.kw, dims=x0.dims)
                x.kw.update({a: b for a, b in k2.items() if b is not None})
            if arrs and alike:
                x0 = arrs[0]
                x = gendata.Arr(k, **{a: b for a, b in x0.__dict__.items() if a != "num"})
                x.kw = dict(x0.kw)
            if not arrs:
                S, S2 = (1, 1) if nl else rng.choice(gendata.SCALES[typ])
                if cx:
                    S2 = 1
                if typ == "scpl" and not cx:
                    S, S2 = 3, 5
            x.cx = cx
            x.D = D
            x.kw.update(S=S, S2=S2, D=D, pos=0)
            x.kw.pop("cx", None)
            if cx:
                x.kw["cx"] = 1
            x.cap = 12000 if typ in ("flt", "scpl") else 100000
            p.create(x)
            x.mx = 999 if x.size < 500 else x.size
            arrs.append(x)
        p.alike = alike
        done = tries = 0
        while done < steps and tries < 8 * steps:
            tries += 1
            if rng.random() < 0.1:
                p.fresh(rng.choice(arrs))
            if not p.step(arrs, nl, explicit):
                continue
            done += 1
            if rng.random() < float(os.environ.get("VERIF_RB", "0.3")):
                for x in arrs:
                    p.readback(x)
                p.sync(arrs[0])
        for x in arrs:
            p.readback(x)
        p.sync(arrs[0])
        for x in arrs:
            p.destroy(x)
        if g is not None:
            if deflt:
                s.add(m, "defgrp", None, logs=False, grp=-1)
            s.add(m, "grpfree", None, logs=False, grp=0)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 25 if THOROUGH else 10
    for rep in range(k):
        def add(name, port, np, nodes=1, env=None, cases=None, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, cases or n, 10, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts2", "ts", 2)
        add("ts3", "ts", 3)
        add("ts4", "ts", 4)
        add("ts4r", "ts", 4, kinds=["reg", "irreg", "ghost"])
        add("ts4x", "ts", 4, expand=400, maxcells=24, cases=n // 2)
        add("ts5", "ts", 5)
        add("ts6", "ts", 6)
        add("pr4", "pr", 4)
        add("pr4n2", "pr", 4, 2)
        add("mt3", "mt", 3)
        add("pt4", "pt", 4)
        add("mpi34", "mpi3", 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C11")
    c.model("GAElemMC", "GAElemMCBig" if THOROUGH else None)
    for b in ("NoDup", "Sync"):
        c.model("GAElemMC", "GAElemMCBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
