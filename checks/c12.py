"""C12: matrix operations equal their definition on any distribution."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from vlib import main as vmain
import gendata
import c01
import c11
from c11 import CPL


class Matrix(c11.Elem):
    def mat(self, f, arrs, **kw):
        c = arrs["c"]
        spec = {"f": f, "cx": 1 if c.cx else 0, "k": 1}
        words = {"f": f, "api": self.rng.choice([0, 1])}
        for k, x in arrs.items():
            spec[k] = words[k] = x.num
        spec.update(kw)
        words.update({k: v for k, v in kw.items() if f != "solve" or k != "x"})
        self.s.add(self.who, "mat", spec, logs=False, **words)
        self.say(f)
        self.sync(c)

    def embed(self, x, rows, cols):
        """a patch of x that is a matrix of that shape"""
        r = self.rng
        for _ in range(8):
            i, j = sorted(r.sample(range(x.nd), 2))
            sh = [1] * x.nd
            sh[i], sh[j] = rows, cols
            p = self.at(x, sh)
            if p:
                return p
        return None

    def gemm(self, arrs, w):
        r = self.rng
        a, b, c = r.sample(arrs, 3)
        ta, tb = r.randint(0, 1), r.randint(0, 1)
        # the algorithm for block-cyclic arrays is for untransposed two-dimensional ones
        if self.grid(c) or not w and (self.grid(a) or self.grid(b)):
            ta = tb = 0
            if not all(x.nd == 2 for x in (a, b, c)):
                return False
        flat = all(x.nd == 2 for x in (a, b, c))
        if w:
            if not flat:
                return False
            api = r.choice([0, 1])
            da, db = a.dims[::-1] if ta else a.dims, b.dims[::-1] if tb else b.dims
            m, n, k = c.dims[0], c.dims[1], min(da[1], db[0])
            if m > da[0] or n > db[1] or r.random() < 0.3:
                m, n = min(m, da[0]), min(n, db[1])
                m, n, k = [r.randint(1, x) if r.random() < 0.5 else x for x in (m, n, k)]
            z = lambda x, s: (tuple([0] * 2), tuple(v - 1 for v in s))
            pa = z(a, (k, m) if ta else (m, k))
            pb = z(b, (n, k) if tb else (k, n))
            pc = z(c, (m, n))
        else:
            api = r.choice([2, 2, 3, 5])
            if flat and r.random() < 0.5:
                api = 4
            mx = 6 if flat else 4
            m, n, k = [r.randint(1 if flat else 2, mx) for _ in range(3)]
            pa = self.embed(a, k, m) if ta else self.embed(a, m, k)
            pb = self.embed(b, n, k) if tb else self.embed(b, k, n)
            pc = self.embed(c, m, n)
            if pa is None or pb is None or pc is None:
                return False
        # the inner sum counts every element of the blocks of this dimension (blocks are equal in all)
        rep = self.rep
        al, be = self.factor(c), self.factor(c)
        lim = 1 << 23 if c.typ in ("flt", "scpl") else 1 << 30
        f = 2 if c.cx else 1
        top = lambda: sum(map(abs, al)) * a.mx * b.mx * k * rep * f + sum(map(abs, be)) * c.mx
        if top() >= lim:
            for x in (a, b, c):
                self.fresh(x, 9)
            if top() >= lim:
                return False
        spec = {"f": "gemm", "cx": 1 if c.cx else 0, "ta": ta, "tb": tb, "al": al, "be": be, "m": m, "n": n, "k": k, "rep": rep}
        words = {"f": "gemm", "api": api, "ta": ta, "tb": tb, "al": al, "be": be}
        for nm, x, p in (("a", a, pa), ("b", b, pb), ("c", c, pc)):
            spec[nm.upper()] = {"a": x.num, "lo": p[0], "hi": p[1]}
            words[nm] = x.num
            words[nm + "lo"], words[nm + "hi"] = p
        self.s.add(self.who, "mat", spec, logs=False, **words)
        self.say("gemm")
        self.sync(c)
        c.mx = max(c.mx, top())
        return True

    def pythagoras(self, x):
        v = []
        for _ in range(x.size):
            a, b = self.rng.choice([(3, 4), (5, 12), (8, 15), (0, 7), (1, 0), (0, 0), (20, 21)])
            v += [self.rng.choice([-1, 1]) * a, self.rng.choice([-1, 1]) * b]
        self.setall(x, v, 29)

    def solve(self, a, c):
        r = self.rng
        k, n = c.dims
        L = [[r.randint(-2, 2) if j < i else 1 if i == j else 0 for j in range(n)] for i in range(n)]
        U = [[r.randint(-2, 2) if j > i else r.choice([-1, 1, 2, 3]) if i == j else 0 for j in range(n)] for i in range(n)]
        M = [[sum(L[i][l] * U[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
        p = list(range(n))
        r.shuffle(p)
        M = [M[i] for i in p]
        X = [[r.randint(-20, 20) for _ in range(k)] for _ in range(n)]
        ta = r.randint(0, 1)
        op = [list(z) for z in zip(*M)] if ta else M
        B = [[sum(op[i][l] * X[l][j] for l in range(n)) for i in range(n)] for j in range(k)]
        flat = lambda m: [y for z in m for y in z]
        self.setall(a, flat(M), max(map(abs, flat(M))))
        self.setall(c, flat(B), max(map(abs, flat(B))))
        self.mat("solve", {"a": a, "c": c}, ta=ta, x=flat(zip(*X)))
        c.mx = max(c.mx, 20)
        return True

    def mstep(self, arrs, vecs):
        r = self.rng
        c = r.choice(arrs)
        typ = c.typ
        fl = typ in c11.FL
        x = r.random()
        if fl and (self.rep > 1 or x < 0.45):
            return self.gemm(arrs, r.random() < 0.5)
        if self.rep > 1:
            return False
        fs = ["norm1", "norminf"] * 2
        if typ == "llong":
            fs = []
        if c.nd == 2:
            fs += ["transpose"] * 2
            if typ != "llong":
                fs += ["setdiag", "adddiag", "shiftdiag", "zerodiag", "getdiag", "scalerows", "scalecols"]
            if typ == "dbl" and not self.grid(c) and c.kind != "ghost" and c.dims[1] <= 8:
                fs += ["solve"] * 2
        else:
            fs = [f for f in fs if c.nd <= 2]
        if typ == "dbl" and c.nd >= 2 and c.dims[0] == c.dims[1] and (c.nd == 2 or not self.grid(c)):
            fs += ["symmetrize"] * 3
        if not fs:
            return False
        f = r.choice(fs)
        if f.startswith("norm"):
            if c.cx:
                self.pythagoras(c)
            lim = 1 << 23 if typ in ("flt", "scpl") else 1 << 30
            if c.mx * c.size >= lim:
                self.fresh(c, 90)
            self.s.add(self.who, "norm", {"f": f, "a": c.num, "cx": 1 if c.cx else 0, "k": 1}, f=f, a=c.num)
            self.say(f)
            self.sync(c)
            return True
        if f == "transpose":
            o = [y for y in arrs if y is not c and y.dims == c.dims[::-1]]
            if not o:
                return False
            a = r.choice(o)
            self.mat(f, {"a": a, "c": c})
            c.mx = a.mx
        elif f == "symmetrize":
            self.setall(c, [2 * r.randint(-400, 400) for _ in range(c.size)], 800)
            self.mat(f, {"c": c})
        elif f == "solve":
            o = [y for y in arrs if y is not c and y.nd == 2 and y.dims == [c.dims[1]] * 2]
            if not o:
                return False
            return self.solve(r.choice(o), c)
        elif f in ("shiftdiag",):
            self.mat(f, {"c": c}, x=self.number(c, 500))
            c.mx += 500
        elif f == "zerodiag":
            self.mat(f, {"c": c})
        else:
            n = {"scalerows": c.dims[0], "scalecols": c.dims[1]}.get(f, min(c.dims))
            o = [y for y in vecs if y.dims == [n]]
            if not o:
                return False
            v = r.choice(o)
            if f == "getdiag":
                self.mat(f, {"c": v, "v": c})
                v.mx = c.mx
                return True
            if f.startswith("scale"):
                self.fresh(v, 5)
                if c.mx > c.cap // 40:
                    self.fresh(c, 30)
            self.mat(f, {"c": c, "v": v})
            c.mx = c.mx * v.mx * (2 if c.cx else 1) if f.startswith("scale") else c.mx + v.mx
        return True


def program(rng, np, ncases, steps, expand=False, grp=False, kinds=None, types=None):
    p = Matrix(rng, np)
    s = p.s
    for n in range(ncases):
        s.case("case%d" % n)
        g = m = None
        p.who = "*"
        if grp and np > 2 and rng.random() < 0.6:
            m = sorted(rng.sample(range(np), rng.randint(2, np)))
            g = 0
            s.add(m, "group", None, logs=False, grp=0, list=m)
            s.add(m, "defgrp", None, logs=False, grp=0)
            p.who = m
        typ = rng.choice(types or ["dbl", "dbl", "flt", "dcpl", "scpl", "int", "long"] + ([] if expand else ["llong"]))
        cx = typ in CPL
        p.rep = 1
        arrs, vecs = [], []
        e = [1, 1]
        if expand:
            f = rng.choice([3, 16, 40, 64])
            e = [f, f]
            p.rep = f
        a, b, k = [rng.randint(1, 9 if not expand else max(1, min(9, 300 // e[0]))) for _ in range(3)]
        if rng.random() < 0.3:
            b = a
        shapes = rng.choice([[(a, b), (b, a), (a, a), (b, b)], [(a, k), (k, b), (a, b)], [(a, a)] * 3, [(k, a), (b, k), (a, b)]])
        nd = 2
        if not expand and rng.random() < 0.25:
            nd = rng.choice([3, 4])
        for i in range(len(shapes)):
            dims = list(shapes[i])
            if nd > 2:
                dims = [rng.randint(2, 5) for _ in range(nd)] if rng.random() < 0.5 else [4, 4, 3, 2][:nd]
            for _ in range(20):
                x = gendata.new_array(rng, i, np, typ=typ, grp=g, members=m, dims=[d * f for d, f in zip(dims, e)] if expand else dims,
                                      kinds=kinds, maxcells=10**6)
                break
            if expand:
                x.dims, x.e, x.blk, x.size = list(dims), list(e), e[0] * e[1], gendata.prod(dims)
                x.kw = dict(x.kw, dims=dims, e=e, pos=0)
                if "block" in x.kw:      # not too many blocks
                    x.kw["block"] = [b * rng.randint(max(1, e[0] // 8), e[0]) for b in x.kw["block"]]
            arrs.append(x)
        if nd == 2 and not expand:
            for q in sorted(set([a, b, k, min(a, b), min(a, k), min(k, b)]))[:4]:
                vecs.append(gendata.new_array(rng, len(arrs) + len(vecs), np, typ=typ, grp=g, members=m, dims=[q], kinds=kinds))
        for x in arrs + vecs:
            x.cx, x.D = cx, 1
            x.kw.update(S=1, S2=1, D=1, pos=0)
            x.kw.pop("cx", None)
            if cx:
                x.kw["cx"] = 1
            p.create(x)
            p.fresh(x, 30)
        done = tries = 0
        while done < steps and tries < 10 * steps:
            tries += 1
            if rng.random() < 0.1:
                p.fresh(rng.choice(arrs))
            for x in arrs + vecs:
                if x.mx > x.cap:
                    p.fresh(x)
            if not p.mstep(arrs, vecs):
                continue
            done += 1
            if rng.random() < float(os.environ.get("VERIF_RB", "0.4")):
                for x in arrs + vecs:
                    p.readback(x)
                p.sync(arrs[0])
        for x in arrs + vecs:
            p.readback(x)
        p.sync(arrs[0])
        for x in arrs + vecs:
            p.destroy(x)
        if g is not None:
            s.add(m, "defgrp", None, logs=False, grp=-1)
            s.add(m, "grpfree", None, logs=False, grp=0)
        s.add("*", "sync", None, logs=False)
    return s


def jobs(check, exes):
    rng, out = check.rng, []
    k = 5 if THOROUGH else 1
    n = 40 if THOROUGH else 14
    for rep in range(k):
        def add(name, port, np, nodes=1, env=None, cases=None, **kw):
            out.append(Job("%s-%d" % (name, rep), program(rng, np, cases or n, 8, **kw), port, np, nodes, env))
        add("ts1", "ts", 1)
        add("ts2", "ts", 2)
        add("ts3", "ts", 3)
        add("ts4", "ts", 4)
        add("ts4r", "ts", 4, kinds=["reg", "irreg"])
        add("ts4x", "ts", 4, expand=True, cases=n // 2)
        add("ts4g", "ts", 4, grp=True)
        add("ts6", "ts", 6)
        add("pr4", "pr", 4)
        add("pr4n2", "pr", 4, 2, kinds=["reg", "reg", "irreg"], types=["dbl", "flt", "dcpl", "scpl"])
        add("pr4n2x", "pr", 4, 2, expand=True, cases=n // 2, kinds=["reg", "reg", "irreg"], types=["dbl", "flt", "dcpl", "scpl"])
        add("mt3", "mt", 3)
        add("pt4", "pt", 4)
        add("mpi34", "mpi3", 4)
    for j in out:
        j.exe = exes[j.port]
    return out


def main():
    c = Check("C12")
    c.model("GAMatrixMC", "GAMatrixMCBig" if THOROUGH else None)
    for b in ("Put", "Scale"):
        c.model("GAMatrixMC", "GAMatrixMCBad" + b, broken=True)
    c.run(jobs(c, c01.gaexes(["ts", "pr", "mt", "pt", "mpi3"])))
    return c.finish()


if __name__ == "__main__":
    vmain(main)
